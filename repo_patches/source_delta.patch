From 9a5f2fdf1f27eb73739f9f373494e1471007e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 01/34] fix: make_fcontext (x86_64 ELF) stores the stack guard
 in the new context, not in its caller's frame

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From ad2ca33a118a4b75a0f9d99ac9872de9496bfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 02/34] fix: make_fcontext (x86_64 ELF, shadow stack) keeps the
 address of finish; the return address lives at 0x40

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..b364035 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -108,7 +108,7 @@ make_fcontext:
 1:
     /* save address of "jmp trampoline" as return-address */
     /* for context-function */
-    pop 0x38(%rax)
+    pop 0x40(%rax)
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From e9a80b790762abf7ea03848eeb64cc23c667dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 03/34] fix: make_fcontext (i386 Mach-O) enters the
 context-function with a 16-byte aligned call frame

---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 682f0d7d3d27d7debaa75e4e217a6b820591a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 04/34] fix: continuation::resume_with() (fcontext) accepts a
 lvalue function

---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..7e50f46 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -330,7 +330,7 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::make_tuple( std::forward< Fn >( fn) );
+        std::tuple< typename std::decay< Fn >::type > p{ std::forward< Fn >( fn) };
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, typename std::decay< Fn >::type >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From b9ccc0f0e85397feddaf0a62dfa5c23668dbad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 05/34] fix: resume_with() (ucontext, winfib) leaves handle and
 running context unchanged if the function can't be stored

---
 .../boost/context/continuation_ucontext.hpp   | 26 ++++++++-----------
 include/boost/context/continuation_winfib.hpp | 26 ++++++++-----------
 include/boost/context/fiber_ucontext.hpp      | 26 ++++++++-----------
 include/boost/context/fiber_winfib.hpp        | 26 ++++++++-----------
 4 files changed, 44 insertions(+), 60 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..20ea164 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -149,14 +149,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( Fn && fn, activation_record *& self) {
+        // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -172,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,6 +181,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        self = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -449,13 +451,7 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+        detail::activation_record * ptr = ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..7cf2ffb 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -130,14 +130,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( Fn && fn, activation_record *& self) {
+        // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -153,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -166,6 +162,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        self = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -360,13 +362,7 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+        detail::activation_record * ptr = ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..f414f48 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -171,14 +171,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& self) {
+        // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -194,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,6 +203,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        self = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -499,13 +501,7 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+        detail::fiber_activation_record * ptr = ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..8b49e4a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -129,14 +129,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& self) {
+        // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -152,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,6 +161,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        self = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -363,13 +365,7 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+        detail::fiber_activation_record * ptr = ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-- 
2.43.0


From 026b12bac8da42e81bbb26efa12dc0b43af32eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 06/34] fix: resume()/resume_with() (ucontext, winfib) execute
 the ontop-function once, even if it throws or switches

---
 include/boost/context/continuation_ucontext.hpp | 12 ++++++++----
 include/boost/context/continuation_winfib.hpp   | 12 ++++++++----
 include/boost/context/fiber_ucontext.hpp        | 12 ++++++++----
 include/boost/context/fiber_winfib.hpp          | 12 ++++++++----
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 20ea164..d469e99 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -438,8 +438,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
@@ -455,8 +457,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 7cf2ffb..345b7d3 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -349,8 +349,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
@@ -366,8 +368,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
-            detail::activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index f414f48..46cfe66 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -492,8 +492,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::fiber_activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::fiber_activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
@@ -505,8 +507,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::fiber_activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::fiber_activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 8b49e4a..6f9423c 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -356,8 +356,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::fiber_activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::fiber_activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
@@ -369,8 +371,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
-            detail::fiber_activation_record::current()->ontop = nullptr;
+            // ontop-function is executed once, even if it throws or switches the context
+            decltype( detail::fiber_activation_record::ontop) fn_ontop;
+            fn_ontop.swap( detail::fiber_activation_record::current()->ontop);
+            ptr = fn_ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From dc5c6a70915cf91bdd79cb5b5636ea32c8077c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 07/34] fix: fiber (ucontext, winfib) honours resume_with() and
 destruction before the context-function was entered

---
 include/boost/context/fiber_ucontext.hpp | 16 +++++++++++++---
 include/boost/context/fiber_winfib.hpp   | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 46cfe66..0ff6dee 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,13 +284,23 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        fiber_activation_record * ptr = from;
+        Ctx c;
         try {
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed before the context-function was entered
+                throw forced_unwind{ ptr };
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // resumed by resume_with() for the first time
+                decltype( fiber_activation_record::ontop) fn_ontop;
+                fn_ontop.swap( ontop);
+                ptr = fn_ontop( ptr);
+            }
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+            c = boost::context::detail::invoke( fn_, Ctx{ ptr } );
 #else
-            c = std::invoke( fn_, std::move( c) );
+            c = std::invoke( fn_, Ctx{ ptr } );
 #endif  
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 6f9423c..c418553 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,13 +221,23 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        fiber_activation_record * ptr = from;
+        Ctx c;
         try {
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed before the context-function was entered
+                throw forced_unwind{ ptr };
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // resumed by resume_with() for the first time
+                decltype( fiber_activation_record::ontop) fn_ontop;
+                fn_ontop.swap( ontop);
+                ptr = fn_ontop( ptr);
+            }
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+            c = boost::context::detail::invoke( fn_, Ctx{ ptr } );
 #else
-            c = std::invoke( fn_, std::move( c) );
+            c = std::invoke( fn_, Ctx{ ptr } );
 #endif  
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
-- 
2.43.0


From bfdd02a11cc98e1ae2353b123f04070c8b31463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 08/34] fix: resume() (ucontext, ASAN) releases the fake stack
 of the terminated context, not of the resumed one

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index d469e99..6842258 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 0ff6dee..8760cab 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From 624e9ea96aa5dfc1d56efec39a35de37e7101344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 09/34] fix: failed getcontext() (ucontext) deallocates the
 stack with the allocator stored in the control structure

---
 .../boost/context/continuation_ucontext.hpp    | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp       | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 6842258..dece3b7 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -297,10 +297,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -340,10 +342,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 8760cab..10c867f 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -124,7 +124,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
 #if defined(BOOST_USE_TSAN)
-        if (destroy_tsan_fiber)
+        if (destroy_tsan_fiber && nullptr != tsan_fiber)
             __tsan_destroy_fiber(tsan_fiber);
 #endif
 	}
@@ -332,10 +332,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -383,10 +385,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From f14cb4026ee1a6d0a4cbe8b23268e67c87c30c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 10/34] fix: protected_fixedsize_stack (POSIX) does not hand
 out a stack without guard page

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..502595b 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -66,8 +66,10 @@ public:
 
         // conforming to POSIX.1-2001
         const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != result) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From aa42dda8ca0c11a451ed0535ab4ea620f360f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 11/34] fix: resume_with() (ucontext, winfib) accepts function
 objects with a non-const call operator

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/continuation_winfib.hpp   | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 include/boost/context/fiber_winfib.hpp          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index dece3b7..3fa276d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -168,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 345b7d3..5dd4a1f 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -149,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 10c867f..e58cdc7 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -190,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index c418553..190988c 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -148,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 0e897d798c763d24ef410e9f95ab698cd249b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 12/34] fix: align the control structure for over-aligned
 callables

A callable with an alignment above 256 was stored misaligned.
---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 include/boost/context/continuation_ucontext.hpp | 4 ++--
 include/boost/context/continuation_winfib.hpp   | 4 ++--
 include/boost/context/fiber_fcontext.hpp        | 4 ++--
 include/boost/context/fiber_ucontext.hpp        | 4 ++--
 include/boost/context/fiber_winfib.hpp          | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 7e50f46..47a4365 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -173,7 +173,7 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
 	void * storage = reinterpret_cast< void * >(
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 0x100 ? alignof( Record) : 0x100) - 1) );
     // placment new for control structure on context stack
     Record * record = new ( storage) Record{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -215,7 +215,7 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( Record) > 0x100 ? alignof( Record) : 0x100) - 1) );
     // placment new for control structure on context-stack
     Record * record = new ( storage) Record{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 3fa276d..a39ef77 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -288,7 +288,7 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -333,7 +333,7 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 5dd4a1f..908f1fa 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -252,7 +252,7 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -269,7 +269,7 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..29390e5 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -170,7 +170,7 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
 	void * storage = reinterpret_cast< void * >(
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 0x100 ? alignof( Record) : 0x100) - 1) );
     // placment new for control structure on context stack
     Record * record = new ( storage) Record{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -212,7 +212,7 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( Record) > 0x100 ? alignof( Record) : 0x100) - 1) );
     // placment new for control structure on context-stack
     Record * record = new ( storage) Record{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e58cdc7..f278c6c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -323,7 +323,7 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -376,7 +376,7 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 190988c..99aa81e 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -261,7 +261,7 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -278,7 +278,7 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~ static_cast< uintptr_t >( ( alignof( capture_t) > 0x100 ? alignof( capture_t) : 0x100) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
-- 
2.43.0


From 9d528df1664641f1e931b5ced991a954040a1dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 13/34] fix: protected_fixedsize_stack: reject sizes whose
 rounding wraps around

For sizes near SIZE_MAX allocate() returned a single guard page as stack.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp   | 5 +++++
 include/boost/context/windows/protected_fixedsize_stack.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index 502595b..15c9807 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -16,6 +16,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -50,6 +51,10 @@ public:
     }
 
     stack_context allocate() {
+        // rounding up to whole pages plus the guard-page must not wrap around
+        if ( ( std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() < size_) {
+            throw std::bad_alloc();
+        }
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..848295c 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -13,6 +13,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -43,6 +44,10 @@ public:
     }
 
     stack_context allocate() {
+        // rounding up to whole pages plus the guard-page must not wrap around
+        if ( ( std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() < size_) {
+            throw std::bad_alloc();
+        }
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From 25d0c4a69fab9698f74dd00aee4977a0a6564c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 14/34] fix: b2 selects the armclang sources for ARM64/AAPCS/PE
 by their real names

---
 build/Jamfile.v2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/Jamfile.v2 b/build/Jamfile.v2
index 3b4ef1b..164498b 100644
--- a/build/Jamfile.v2
+++ b/build/Jamfile.v2
@@ -204,9 +204,9 @@ alias asm_sources
 
 # ARM64/AAPCS/PE
 alias asm_sources
-   : asm/make_arm64_aapcs_pe_armclang.asm
-     asm/jump_arm64_aapcs_pe_armclang.asm
-     asm/ontop_arm64_aapcs_pe_armclang.asm
+   : asm/make_arm64_aapcs_pe_armclang.S
+     asm/jump_arm64_aapcs_pe_armclang.S
+     asm/ontop_arm64_aapcs_pe_armclang.S
    : <abi>aapcs
      <address-model>64
      <architecture>arm
-- 
2.43.0


From 990d85a569198f60a10c654dfa73aa5b3e547cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 15/34] fix: sparc64 switch routines were exported and
 ontop_fcontext had no size

---
 src/asm/jump_sparc64_sysv_elf_gas.S  | 1 +
 src/asm/make_sparc64_sysv_elf_gas.S  | 1 +
 src/asm/ontop_sparc64_sysv_elf_gas.S | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/asm/jump_sparc64_sysv_elf_gas.S b/src/asm/jump_sparc64_sysv_elf_gas.S
index 61101fb..4bbbcab 100644
--- a/src/asm/jump_sparc64_sysv_elf_gas.S
+++ b/src/asm/jump_sparc64_sysv_elf_gas.S
@@ -24,6 +24,7 @@
 .text
 .align  4
 .global jump_fcontext
+.hidden jump_fcontext
 .type   jump_fcontext, %function
 jump_fcontext:
 	# prepare stack
diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..3d77b14 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -18,6 +18,7 @@
 .text
 .align  4
 .global make_fcontext
+.hidden make_fcontext
 .type   make_fcontext, %function
 make_fcontext:
 	save	%sp, -CC64FSZ, %sp
diff --git a/src/asm/ontop_sparc64_sysv_elf_gas.S b/src/asm/ontop_sparc64_sysv_elf_gas.S
index 2fcdb89..749f0ac 100644
--- a/src/asm/ontop_sparc64_sysv_elf_gas.S
+++ b/src/asm/ontop_sparc64_sysv_elf_gas.S
@@ -17,6 +17,7 @@
 .text
 .align  4
 .global ontop_fcontext
+.hidden ontop_fcontext
 .type   ontop_fcontext, %function
 ontop_fcontext:
 	# prepare stack
@@ -45,6 +46,6 @@ ontop_fcontext:
 
 	jmpl %o2, %g0
 	 nop
-.size	jump_fcontext,.-jump_fcontext
+.size	ontop_fcontext,.-ontop_fcontext
 # Mark that we don't need executable stack.
 .section .note.GNU-stack,"",%progbits
-- 
2.43.0


From 1a4c107eb5ab11418588fb858279bf41932c1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 16/34] fix: ppc64 ELF switch routines lacked symbol type
 (ELFv2) or size (ELFv1)

---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 3 ++-
 src/asm/make_ppc64_sysv_elf_gas.S  | 3 ++-
 src/asm/ontop_ppc64_sysv_elf_gas.S | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..d17b725 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -72,6 +72,7 @@
 #if _CALL_ELF == 2
 	.text
 	.align 2
+	.type	jump_fcontext,@function
 jump_fcontext:
         addis   %r2, %r12, .TOC.-jump_fcontext@ha
         addi    %r2, %r2, .TOC.-jump_fcontext@l
@@ -211,7 +212,7 @@ use_entry_arg:
     # jump to context
     bctr
 # ifdef _CALL_LINUX
-	.size .jump_fcontext, .-.L.jump_fcontext
+	.size jump_fcontext, .-.L.jump_fcontext
 # else
 	.size .jump_fcontext, .-.jump_fcontext
 # endif
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..25d1df3 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -72,6 +72,7 @@
 #if _CALL_ELF == 2
 	.text
 	.align 2
+	.type	make_fcontext,@function
 make_fcontext:
 	addis	%r2, %r12, .TOC.-make_fcontext@ha
 	addi	%r2, %r2, .TOC.-make_fcontext@l
@@ -168,7 +169,7 @@ finish:
 	.size make_fcontext, .-make_fcontext
 #else
 # ifdef _CALL_LINUX
-	.size .make_fcontext, .-.L.make_fcontext
+	.size make_fcontext, .-.L.make_fcontext
 # else
 	.size .make_fcontext, .-.make_fcontext
 # endif
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..9db9057 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -72,6 +72,7 @@
 #if _CALL_ELF == 2
 	.text
 	.align 2
+	.type	ontop_fcontext,@function
 ontop_fcontext:
         addis   %r2, %r12, .TOC.-ontop_fcontext@ha
         addi    %r2, %r2, .TOC.-ontop_fcontext@l
@@ -234,7 +235,7 @@ use_entry_arg:
 
     b  return_to_ctx
 # ifdef _CALL_LINUX
-	.size .ontop_fcontext, .-.L.ontop_fcontext
+	.size ontop_fcontext, .-.L.ontop_fcontext
 # else
 	.size .ontop_fcontext, .-.ontop_fcontext
 # endif
-- 
2.43.0


From 08f6e2a35667962ccd6449668e4c18fdac3ca925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 17/34] fix: CMake selected x86 sources on PowerPC and sparc64
 and offered an architecture without sources

---
 CMakeLists.txt | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index b3ad792..3004d8a 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -50,7 +50,7 @@ unset(_default_abi)
 
 ## Arch-and-model
 
-set(_all_archs arm arm64 loongarch64 mips32 mips64 power riscv64 s390x i386 x86_64 combined)
+set(_all_archs arm arm64 loongarch64 mips32 mips64 ppc32 ppc64 riscv64 s390x sparc64 i386 x86_64 combined)
 
 # Try at start to auto determine arch from CMake.
 if(CMAKE_SYSTEM_PROCESSOR IN_LIST _all_archs)
@@ -60,6 +60,8 @@ elseif(_bits EQUAL 32)
     set(_default_arch arm)
   elseif(CMAKE_SYSTEM_PROCESSOR MATCHES "^mips")
     set(_default_arch mips32)
+  elseif(CMAKE_SYSTEM_PROCESSOR MATCHES "^(ppc|powerpc)")
+    set(_default_arch ppc32)
   else()
     set(_default_arch i386)
   endif()
@@ -69,12 +71,14 @@ else()
     set(_default_arch arm64)
   elseif(CMAKE_SYSTEM_PROCESSOR MATCHES "^mips")
     set(_default_arch mips64)
+  elseif(CMAKE_SYSTEM_PROCESSOR MATCHES "^(ppc|powerpc)")
+    set(_default_arch ppc64)
   else()
     set(_default_arch x86_64)
   endif()
 endif()
 
-set(BOOST_CONTEXT_ARCHITECTURE "${_default_arch}" CACHE STRING "Boost.Context architecture (arm, arm64, loongarch64, mips32, mips64, power, riscv64, s390x, i386, x86_64, combined)")
+set(BOOST_CONTEXT_ARCHITECTURE "${_default_arch}" CACHE STRING "Boost.Context architecture (arm, arm64, loongarch64, mips32, mips64, ppc32, ppc64, riscv64, s390x, sparc64, i386, x86_64, combined)")
 set_property(CACHE BOOST_CONTEXT_ARCHITECTURE PROPERTY STRINGS ${_all_archs})
 
 unset(_all_archs)
@@ -170,6 +174,10 @@ if(BOOST_CONTEXT_IMPLEMENTATION STREQUAL "fcontext")
 
   set(IMPL_SOURCES ${ASM_SOURCES} src/fcontext.cpp)
 
+  if(BOOST_CONTEXT_ARCHITECTURE STREQUAL ppc32 AND BOOST_CONTEXT_BINARY_FORMAT STREQUAL elf)
+    list(APPEND IMPL_SOURCES src/asm/tail_ontop_ppc32_sysv.cpp)
+  endif()
+
   if(BOOST_CONTEXT_ASSEMBLER STREQUAL masm AND BOOST_CONTEXT_ARCHITECTURE STREQUAL i386)
       set_source_files_properties(${ASM_SOURCES} PROPERTIES COMPILE_FLAGS "/safeseh")
   endif()
-- 
2.43.0


From b938f4c325a59255042f797d6b41021ce4900f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 18/34] fix: b2 left the C++ tail of ontop_fcontext out of the
 PowerPC universal set

---
 build/Jamfile.v2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/Jamfile.v2 b/build/Jamfile.v2
index 164498b..75589db 100644
--- a/build/Jamfile.v2
+++ b/build/Jamfile.v2
@@ -472,6 +472,7 @@ alias asm_sources
    : asm/make_ppc32_ppc64_sysv_macho_gas.S
      asm/jump_ppc32_ppc64_sysv_macho_gas.S
      asm/ontop_ppc32_ppc64_sysv_macho_gas.S
+     asm/tail_ontop_ppc32_sysv.cpp
    : <abi>sysv
      <address-model>32_64
      <architecture>power
-- 
2.43.0


From 33d870ac4e982ecc7167ef458cedfbf96f57eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 19/34] fix: fiber.hpp and continuation.hpp could not be used
 together with ucontext_t/WinFiber

Both headers defined detail::forced_unwind; a translation unit including both
did not compile and a program with one of each violated the one-definition
rule. The exception is now defined once and shared.
---
 .../boost/context/continuation_ucontext.hpp   | 11 ++----
 include/boost/context/continuation_winfib.hpp | 11 ++----
 .../boost/context/detail/forced_unwind.hpp    | 36 +++++++++++++++++++
 include/boost/context/fiber_ucontext.hpp      | 11 ++----
 include/boost/context/fiber_winfib.hpp        | 11 ++----
 5 files changed, 44 insertions(+), 36 deletions(-)
 create mode 100644 include/boost/context/detail/forced_unwind.hpp

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index a39ef77..f82af91 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -39,6 +39,7 @@ extern "C" {
 #include <boost/context/detail/exchange.hpp>
 #endif
 #include <boost/context/detail/externc.hpp>
+#include <boost/context/detail/forced_unwind.hpp>
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
 #include <boost/context/detail/invoke.hpp>
 #endif
@@ -218,14 +219,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    forced_unwind( activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -268,7 +261,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 908f1fa..d504c5e 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/forced_unwind.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -186,14 +187,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    explicit forced_unwind( activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -231,7 +224,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/detail/forced_unwind.hpp b/include/boost/context/detail/forced_unwind.hpp
new file mode 100644
index 0000000..eb7450b
--- /dev/null
+++ b/include/boost/context/detail/forced_unwind.hpp
@@ -0,0 +1,36 @@
+
+//          Copyright Oliver Kowalke 2014.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#ifndef BOOST_CONTEXT_DETAIL_FORCED_UNWIND_H
+#define BOOST_CONTEXT_DETAIL_FORCED_UNWIND_H
+
+#include <boost/config.hpp>
+
+#ifdef BOOST_HAS_ABI_HEADERS
+# include BOOST_ABI_PREFIX
+#endif
+
+namespace boost {
+namespace context {
+namespace detail {
+
+// shared by fiber and continuation (ucontext_t and WinFiber based implementations)
+struct forced_unwind {
+    // activation record of the context that requested the unwinding
+    void    *   from{ nullptr };
+
+    explicit forced_unwind( void * from_) noexcept :
+        from{ from_ } {
+    }
+};
+
+}}}
+
+#ifdef BOOST_HAS_ABI_HEADERS
+#include BOOST_ABI_SUFFIX
+#endif
+
+#endif // BOOST_CONTEXT_DETAIL_FORCED_UNWIND_H
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index f278c6c..e113214 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -40,6 +40,7 @@ extern "C" {
 #include <boost/context/detail/exchange.hpp>
 #endif
 #include <boost/context/detail/externc.hpp>
+#include <boost/context/detail/forced_unwind.hpp>
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
 #include <boost/context/detail/invoke.hpp>
 #endif
@@ -243,14 +244,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    forced_unwind( fiber_activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -303,7 +296,7 @@ public:
             c = std::invoke( fn_, Ctx{ ptr } );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 99aa81e..109022c 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/forced_unwind.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -185,14 +186,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    explicit forced_unwind( fiber_activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -240,7 +233,7 @@ public:
             c = std::invoke( fn_, Ctx{ ptr } );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0


From 3e4e36899f2945af8c535dd7e64492b086c044ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 20/34] fix: pooled_fixedsize_stack with
 BOOST_CONTEXT_USE_MAP_STACK mapped over heap memory it did not own

mmap( MAP_FIXED) replaces whole pages, but the block obtained from
posix_memalign() ended in the middle of its last page; the neighbouring heap
memory (and malloc's bookkeeping) was replaced by zeros.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..1e4386b 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -10,6 +10,7 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdlib>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -47,11 +48,17 @@ struct map_stack_allocator {
     typedef std::ptrdiff_t difference_type;
 
     static char * malloc( const size_type bytes) {
+        // mmap() replaces whole pages
+        const size_type page_size = traitsT::page_size();
+        if ( ( std::numeric_limits< size_type >::max)() - page_size < bytes) {
+            return 0;
+        }
+        const size_type size = ( bytes + page_size - 1) / page_size * page_size;
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page_size, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From a49cf5eeddac59281ad6832cb59f82971824d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 21/34] fix: preallocated.hpp could not be included on its own

---
 include/boost/context/preallocated.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/context/preallocated.hpp b/include/boost/context/preallocated.hpp
index 862a6a5..fd641c0 100644
--- a/include/boost/context/preallocated.hpp
+++ b/include/boost/context/preallocated.hpp
@@ -12,6 +12,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/config.hpp>
+#include <boost/context/stack_context.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 # include BOOST_ABI_PREFIX
-- 
2.43.0


From 4f9ecc058fdf0913865f79e2f49d8af2d23be143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 22/34] fix: WinFiber: a failed CreateFiber() was ignored and
 the null fiber switched to

---
 include/boost/context/continuation_winfib.hpp | 20 ++++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 20 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index d504c5e..92afbea 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -103,7 +103,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -251,6 +251,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -268,6 +277,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 109022c..526c971 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -260,6 +260,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -277,6 +286,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the stack allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 314a9d5d72158167ed5d5e5d0988d6f52cba0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 23/34] fix: protected_fixedsize_stack (Windows) handed out a
 stack without guard page if VirtualProtect failed

---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 848295c..608edb2 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -59,8 +59,10 @@ public:
         DWORD old_options;
         const BOOL result = ::VirtualProtect(
             vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == result) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 127f1038f9a790cb21959b2e25274bb43c7f9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 24/34] fix: shadow-stack configuration did not compile with
 assertions and ignored a failed map_shadow_stack

---
 include/boost/context/continuation_fcontext.hpp | 11 +++++++++--
 include/boost/context/fiber_fcontext.hpp        | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 47a4365..2fa2b8e 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -194,7 +195,10 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( reinterpret_cast< void * >( -1) == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -235,7 +239,10 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( reinterpret_cast< void * >( -1) == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 29390e5..02a3247 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -191,7 +192,10 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( reinterpret_cast< void * >( -1) == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -232,7 +236,10 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( reinterpret_cast< void * >( -1) == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From b164b0c925cbd36cc5cc91a6a213fb981f966679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:07 +0000
Subject: [PATCH 25/34] fix: arm64 Windows ontop_fcontext leaves the stack
 pointer 16 bytes low

ontop_fcontext reserves and saves a frame of 0xd0 bytes but released only
0xc0 before entering the injected function, so that function (and the
suspended call it returns into) ran with the stack pointer 16 bytes below
its value at suspension.
---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 638e58917ae8cd9320dd138c5ea37b2bbb2c7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:07 +0000
Subject: [PATCH 26/34] fix: sparc64 make_fcontext did not round the stack top
 down to 16 bytes

The mask -0xf keeps bit 0, so an odd stack top produced a misaligned
frame and stack pointer.
---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3d77b14..cff2fa4 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -24,7 +24,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 1180b63e98aa851afbf502784c01b167bb9a7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 27/34] fix: mips64 switches did not preserve the global
 pointer

$gp is callee-saved in the n64 ABI and the context-data has a slot for it,
but jump_fcontext and ontop_fcontext neither saved nor restored it, so a
context resumed by code of another module continued with that module's
$gp.  finish reloaded $gp from below its stack pointer, memory the
context-function has used for its own frame; it now relies on the first
jump having loaded $gp.
---
 src/asm/jump_mips64_n64_elf_gas.S  | 2 ++
 src/asm/make_mips64_n64_elf_gas.S  | 5 ++---
 src/asm/ontop_mips64_n64_elf_gas.S | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asm/jump_mips64_n64_elf_gas.S b/src/asm/jump_mips64_n64_elf_gas.S
index 60027fe..aa87680 100644
--- a/src/asm/jump_mips64_n64_elf_gas.S
+++ b/src/asm/jump_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ jump_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ jump_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RAa
 
     # load PC
diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..c227127 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -80,9 +80,8 @@ make_fcontext:
     jr  $ra # return pointer to context-data
 
 finish:
-    # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    # gp (needed for la) was loaded from the context-data by the first jump and
+    # preserved by the context-function
 
     # call _exit(0)
     #  the previous function should have left the 16 bytes incoming argument
diff --git a/src/asm/ontop_mips64_n64_elf_gas.S b/src/asm/ontop_mips64_n64_elf_gas.S
index e73e039..b00aeb9 100644
--- a/src/asm/ontop_mips64_n64_elf_gas.S
+++ b/src/asm/ontop_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ ontop_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ ontop_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RA
 
     # load PC
-- 
2.43.0


From aa87cf07c3712331b6f11bb9c52e8c5c8c48c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 28/34] fix: arm Windows switches mixed up context and stack
 bounds

ontop_fcontext popped the stack bounds in the order they were pushed, so
the deallocation stack became the stack base and vice versa, and used the
register holding the suspended context as scratch, handing the injected
function a stack bound instead.  jump_fcontext named a register (a5) that
does not exist; a4 is free at that point.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 24 ++++++++++++------------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 14 +++++++-------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index bca923c..2beb4a1 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ jump_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a5, [v1, #0x04]
-    push {a5}
+    ldr  a4, [v1, #0x04]
+    push {a4}
     ; save current stack limit
-    ldr  a5, [v1, #0x08]
-    push {a5}
+    ldr  a4, [v1, #0x08]
+    push {a4}
     ; save current deallocation stack
-    ldr  a5, [v1, #0xe0c]
-    push {a5}
+    ldr  a4, [v1, #0xe0c]
+    push {a4}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -55,14 +55,14 @@ jump_fcontext PROC
     mov  sp, a2
 
     ; restore deallocation stack
-    pop  {a5}
-    str  a5, [v1, #0xe0c]
+    pop  {a4}
+    str  a4, [v1, #0xe0c]
     ; restore stack limit
-    pop  {a5}
-    str  a5, [v1, #0x08]
+    pop  {a4}
+    str  a4, [v1, #0x08]
     ; restore stack base
-    pop  {a5}
-    str  a5, [v1, #0x04]
+    pop  {a4}
+    str  a4, [v1, #0x04]
 
     ; restore hidden,V1-V8,LR
     pop {a4,v1-v8,lr}
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index f360a8f..092594e 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -54,18 +54,18 @@ ontop_fcontext PROC
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
-    ; restore stack base
+    ; store parent context in A2
+    mov  a2, a1
+
+    ; restore deallocation stack
     pop  {a1}
-    str  a1, [v1, #0x04]
+    str  a1, [v1, #0xe0c]
     ; restore stack limit
     pop  {a1}
     str  a1, [v1, #0x08]
-    ; restore deallocation stack
+    ; restore stack base
     pop  {a1}
-    str  a1, [v1, #0xe0c]
-
-    ; store parent context in A2
-    mov  a2, a1
+    str  a1, [v1, #0x04]
 
     ; restore hidden,V1-V8,LR
     pop {a1,v1-v8,lr}
-- 
2.43.0


From f1dfa94651a34cffb228fc69a0c68c03cca58288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 29/34] fix: arm Mach-O make_fcontext left the SjLj handler
 chain of a new context uninitialised

The first jump loads the thread's SjLj exception handler chain from the
context-data; make_fcontext never wrote that slot, so the chain of a new
context was whatever the stack memory held.
---
 src/asm/make_arm_aapcs_macho_gas.S | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asm/make_arm_aapcs_macho_gas.S b/src/asm/make_arm_aapcs_macho_gas.S
index de93407..6405197 100644
--- a/src/asm/make_arm_aapcs_macho_gas.S
+++ b/src/asm/make_arm_aapcs_macho_gas.S
@@ -57,6 +57,10 @@ _make_fcontext:
     mov  a3, a2
     str  a3, [a1, #68]
 
+    @ a new context starts with an empty SjLj handler chain
+    mov  a3, #0
+    str  a3, [a1, #64]
+
     @ compute abs address of label finish
     adr  a2, finish
     @ save address of finish as return-address for context-function
-- 
2.43.0


From 30a01a14a5bdae38ed13735be50149d673e405f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 30/34] fix: make_fcontext (x86_64 ELF, shadow stack): the
 first jump landed on an instruction without ENDBR

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index b364035..393ad37 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -104,6 +104,8 @@ make_fcontext:
     /* push the address of "jmp trampoline" to the new shadow stack */
     /* as well as the stack */
     call  1f
+    /* jump_fcontext branches here indirectly */
+    _CET_ENDBR
     jmp  trampoline
 1:
     /* save address of "jmp trampoline" as return-address */
-- 
2.43.0


From 69bc4e68eb988ee8e7ec52fb5e8542fa4d9bcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 31/34] fix: resume_with() (ucontext, WinFiber, C++11) rejected
 reference wrappers and bind expressions

---
 .../boost/context/continuation_ucontext.hpp   | 25 ++++++++++---------
 include/boost/context/continuation_winfib.hpp | 25 ++++++++++---------
 include/boost/context/fiber_ucontext.hpp      | 25 ++++++++++---------
 include/boost/context/fiber_winfib.hpp        | 25 ++++++++++---------
 4 files changed, 52 insertions(+), 48 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index f82af91..785fa58 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -153,21 +153,22 @@ struct BOOST_CONTEXT_DECL activation_record {
     activation_record * resume_with( Fn && fn, activation_record *& self) {
         // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        {
+            // no std::bind(): it treats reference wrappers and bind expressions specially
+            typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+            ontop = [fn_](activation_record *& ptr) mutable {
+                Ctx c{ ptr };
+                c = fn_( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            };
+        }
 #else
         ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 92afbea..1dd6a05 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -134,21 +134,22 @@ struct BOOST_CONTEXT_DECL activation_record {
     activation_record * resume_with( Fn && fn, activation_record *& self) {
         // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        {
+            // no std::bind(): it treats reference wrappers and bind expressions specially
+            typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+            ontop = [fn_](activation_record *& ptr) mutable {
+                Ctx c{ ptr };
+                c = fn_( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            };
+        }
 #else
         ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e113214..03b2cfe 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -175,21 +175,22 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& self) {
         // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        {
+            // no std::bind(): it treats reference wrappers and bind expressions specially
+            typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+            ontop = [fn_](fiber_activation_record *& ptr) mutable {
+                Ctx c{ ptr };
+                c = fn_( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            };
+        }
 #else
         ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 526c971..b718312 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -133,21 +133,22 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& self) {
         // might throw: neither the handle nor the running context are changed before
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        {
+            // no std::bind(): it treats reference wrappers and bind expressions specially
+            typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+            ontop = [fn_](fiber_activation_record *& ptr) mutable {
+                Ctx c{ ptr };
+                c = fn_( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            };
+        }
 #else
         ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
-- 
2.43.0


From 12c1e93cd938cfceae8232ce7fede91cd5c67d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 32/34] fix: resume() (ucontext, winfib) unwound a context
 again if one of its destructors switched contexts

---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/continuation_winfib.hpp   | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 include/boost/context/fiber_winfib.hpp          | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 785fa58..fda2a95 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
@@ -453,6 +455,8 @@ public:
     continuation resume_with( Fn && fn) && {
         detail::activation_record * ptr = ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 1dd6a05..a4c88d2 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -359,6 +359,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
@@ -378,6 +380,8 @@ public:
     continuation resume_with( Fn && fn) && {
         detail::activation_record * ptr = ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 03b2cfe..92acab2 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -498,6 +498,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
@@ -513,6 +515,8 @@ public:
         BOOST_ASSERT( nullptr != ptr_);
         detail::fiber_activation_record * ptr = ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index b718312..51183cd 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -376,6 +376,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
@@ -391,6 +393,8 @@ public:
         BOOST_ASSERT( nullptr != ptr_);
         detail::fiber_activation_record * ptr = ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwound once: destructors might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // ontop-function is executed once, even if it throws or switches the context
-- 
2.43.0


From 6d665db3fd502a9a03681d832ae1ea102249d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:17 +0000
Subject: [PATCH 33/34] fix: ucontext: getcontext() failing for the
 toplevel-context of a thread ended in std::terminate

---
 include/boost/context/continuation_ucontext.hpp | 8 ++------
 include/boost/context/fiber_ucontext.hpp        | 9 ++-------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index fda2a95..2997b7d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -95,12 +95,8 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
-    activation_record() {
-        if ( BOOST_UNLIKELY( 0 != ::getcontext( & uctx) ) ) {
-            throw std::system_error(
-                    std::error_code( errno, std::system_category() ),
-                    "getcontext() failed");
-        }
+    // `uctx` is set by ::swapcontext() if the toplevel-context is suspended
+    activation_record() noexcept {
     }
 
     activation_record( stack_context sctx_) noexcept :
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 92acab2..1c8e2bb 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -105,13 +105,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
-    fiber_activation_record() {
-        if ( BOOST_UNLIKELY( 0 != ::getcontext( & uctx) ) ) {
-            throw std::system_error(
-                    std::error_code( errno, std::system_category() ),
-                    "getcontext() failed");
-        }
-
+    // `uctx` is set by ::swapcontext() if the toplevel-context is suspended
+    fiber_activation_record() noexcept {
 #if defined(BOOST_USE_TSAN)
         tsan_fiber = __tsan_get_current_fiber();
         destroy_tsan_fiber = false;
-- 
2.43.0


From 0cb80682faca00df43c4cac5d07f915c7ca80b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 34/34] fix: ucontext: handles of static or thread-local
 storage duration used the released toplevel-context

---
 src/continuation.cpp | 10 ++++++++++
 src/fiber.cpp        | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..a1af3f6 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -23,6 +26,8 @@ namespace detail {
 // zero-initialization
 thread_local activation_record * current_rec;
 thread_local static std::size_t counter;
+// toplevel-context while objects that outlive `initializer` are destroyed
+thread_local static std::aligned_storage< sizeof( activation_record), alignof( activation_record) >::type late_rec;
 
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
@@ -35,6 +40,7 @@ activation_record_initializer::~activation_record_initializer() {
     if ( 0 == --counter) {
         BOOST_ASSERT( current_rec->is_main_context() );
         delete current_rec;
+        current_rec = nullptr;
     }
 }
 
@@ -46,6 +52,10 @@ activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // handle of static or thread-local storage duration
+        current_rec = new ( & late_rec) activation_record();
+    }
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..9485450 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -23,6 +26,8 @@ namespace detail {
 // zero-initialization
 thread_local fiber_activation_record * fib_current_rec;
 thread_local static std::size_t counter;
+// toplevel-context while objects that outlive `initializer` are destroyed
+thread_local static std::aligned_storage< sizeof( fiber_activation_record), alignof( fiber_activation_record) >::type late_rec;
 
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
@@ -35,6 +40,7 @@ fiber_activation_record_initializer::~fiber_activation_record_initializer() {
     if ( 0 == --counter) {
         BOOST_ASSERT( fib_current_rec->is_main_context() );
         delete fib_current_rec;
+        fib_current_rec = nullptr;
     }
 }
 
@@ -46,6 +52,10 @@ fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // handle of static or thread-local storage duration
+        fib_current_rec = new ( & late_rec) fiber_activation_record();
+    }
     return fib_current_rec;
 }
 
-- 
2.43.0

