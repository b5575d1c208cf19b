#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the text lives here so it can be edited in one place).
import json, os
ASM=["src/asm/jump_x86_64_sysv_elf_gas.S","src/asm/ontop_x86_64_sysv_elf_gas.S","src/asm/make_x86_64_sysv_elf_gas.S"]
H="include/boost/context/"
CTX=[H+"fiber_fcontext.hpp",H+"continuation_fcontext.hpp",H+"fiber_ucontext.hpp",H+"continuation_ucontext.hpp",H+"fiber_winfib.hpp",H+"continuation_winfib.hpp"]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A resumed context finds its machine state exactly as it left it",
"For every suspended context, whenever it is resumed, by a plain switch or by a switch that first runs a function on top of it, execution continues right after the suspending call with the stack pointer, every register the platform ABI makes callee-saved, and (unless built to skip it) the floating-point control words MXCSR and x87 CW as they were when it suspended, no matter what the contexts that ran in between did to them. With the TLS stack-protector option, its canary is restored as well. A switch writes only memory of the suspended stack below its stack pointer.",
["histories","inputs","configurations"],"every suspend/resume pair, all register contents, every combination jump/ontop on either side, each supported ABI and build option",
"Tests run a few optimised call sites whose live registers happen to be a small subset; which register is live across a switch is decided by the compiler, and only the default x86_64 configuration is ever built.",
ASM+["src/asm/*.S","src/asm/*.asm"],[("register save/restore frames","src/asm/jump_*.S, ontop_*.S"),("fp control save","src/asm/jump_x86_64_sysv_elf_gas.S stmxcsr/fnstcw")])
p("C02","A fresh fcontext enters its function once on a conforming stack",
"For every (sp, size, fn), the context that make_fcontext returns, when first jumped to, enters fn exactly once on the supplied stack with ABI-conforming alignment and call frame and with the FP control words its creator had; it receives the jumper's suspended context and the data pointer. Making the context writes no memory outside [sp-size, sp). If fn ever returns, the process ends through _exit(0) instead of running on.",
["inputs","configurations"],"every stack top address (aligned or not), size and entry function; every supported ABI and build option",
"Tests use a handful of stacks whose tops are always aligned the same way and never return from an fcontext entry; misalignment only shows when the compiler emits an aligned vector access.",
["src/asm/make_x86_64_sysv_elf_gas.S","src/asm/make_*.S"],[("initial frame","src/asm/make_*.S"),("trampoline and finish","src/asm/make_*.S trampoline/finish")])
p("C03","A switch delivers data, suspended context and function result",
"When context A jumps to B with pointer p, B's suspending call (or entry function) yields exactly {A suspended, p}; when A switches to suspended B with (p, fn), fn is called exactly once on B's stack, in B's restored environment, with {A suspended, p}, and fn's result becomes the result of B's suspended call. The caller of the switch is resumable through the delivered context and through nothing else. The C++ wrappers of the raw primitives forward the same arguments and results.",
["inputs","histories","configurations"],"every pair of contexts, all pointer values, every suspender/resumer combination, each supported ABI",
"Tests check values on a few fixed call chains on one ABI; a wrong transfer register or frame slot can be masked by a leftover value.",
ASM+["src/asm/*.S","src/fcontext.cpp",H+"detail/fcontext.hpp"],[("transfer registers","src/asm/jump_*.S, ontop_*.S"),("wrappers","src/fcontext.cpp")])
p("C04","A function injected with resume_with runs once, in the right place",
"resume_with(fn) on a suspended or not-yet-started context, with fn passed as lvalue or rvalue, runs fn exactly once, on the target, with a handle to the resumer, before the target's suspended call returns (or before the target's entry function starts), and the handle fn returns is what that call (or the entry function) receives. If fn throws, the exception leaves the target's suspended call and fn is never run again by later resumptions. fn keeps working on its own copy, even if it destroys the resumer's handle.",
["histories","inputs","configurations"],"every history of create/resume/resume_with/destroy, lvalue and rvalue callables, returning or throwing, all three context backends and C++11/14/17 modes",
"Tests inject rvalue lambdas into started contexts and never resume again after a throwing one; lvalue callables, fresh targets and later resumptions are never combined.",
CTX,[("resume_with",H+"fiber_fcontext.hpp"),("ontop trampoline",H+"fiber_fcontext.hpp fiber_ontop"),("pending ontop function",H+"fiber_ucontext.hpp fiber_activation_record::ontop")])
p("C05","Context handles are one-shot, move-only owners",
"A fiber or continuation handle cannot be copied, and resuming or injecting through it empties it before control is transferred, so no suspended context can be resumed twice through the library. Moving from a handle empties the source and transfers the same context; assigning over a handle that owns another context ends that context exactly as destroying the handle would, and self-move-assignment changes nothing. A fiber can be resumed only as an rvalue.",
["programs","histories"],"every program using the handle types, every sequence of moves, swaps, assignments and resumptions, all three backends",
"Tests exercise some moves; that no program can copy a handle or resume through an emptied one is a statement about all programs.",
CTX,[("move members and exchange",H+"fiber_fcontext.hpp class fiber"),("resume",H+"continuation_fcontext.hpp class continuation")])
p("C06","Destroying a suspended context unwinds its stack, then releases it once",
"Destroying (or overwriting) the handle of a suspended, unfinished context runs the destructors of every object living on that context's stack exactly once, then destroys its callable and gives its stack back through its allocator exactly once, before the destruction returns. If the context had not been entered yet, its function is never called. Those destructors may themselves create, resume and destroy other contexts. The destroying context continues unharmed afterwards.",
["histories","programs","configurations"],"every suspension point (plain, with injected function pending, never entered), any set of live objects, every history, all backends",
"Tests destroy two or three contexts at one fixed suspension point each and mostly check a destructor flag; leaks, double destruction or a run body elsewhere go unseen.",
CTX,[("forced unwind",H+"fiber_fcontext.hpp ~fiber, fiber_unwind; fiber_ucontext.hpp ~fiber"),("release",H+"fiber_fcontext.hpp fiber_record::destroy")])
p("C07","A finished context hands over control and is released exactly once",
"When a context function returns a handle, the context that handle denotes is resumed; the resumed side sees an empty (false) handle for the finished context unless that context was given away. The finished context's callable, stored allocator copy and stack are each destroyed or deallocated exactly once, at the latest when the handle handed to the resumed side dies, and its stack is never released while code still runs on it. Nothing that belonged to the context is touched after its stack is given back.",
["histories","configurations"],"every history of contexts creating, resuming and returning to one another, every allocator, all three backends, with and without assertions",
"A stack freed while in use or twice usually goes unnoticed by ordinary tests (and sanitizers do not follow these stacks); tests cover few orders of termination.",
CTX,[("exit on next context",H+"fiber_fcontext.hpp fiber_exit"),("deallocate",H+"fiber_ucontext.hpp fiber_capture_record::deallocate")])
p("C08","Exceptions stop at the context boundary",
"An exception other than the library's internal unwinding exception that leaves a context function terminates the program through std::terminate and never crosses to another context's stack. The internal unwinding exception, whether it starts by destroying the handle or reaches the context function's end after cleanup, is absorbed exactly there and control returns to the context that requested the unwinding. An exception thrown and caught inside a context does not disturb any switch.",
["histories","inputs","configurations"],"every exception type and throwing point, every backend",
"A test cannot survive std::terminate, so this path is never exercised by the existing suite; wrong absorption or propagation shows only in such programs.",
CTX+[H+"detail/exception.hpp"],[("noexcept entry + catch forced_unwind",H+"fiber_fcontext.hpp fiber_entry; fiber_ucontext.hpp run")])
p("C09","Stack allocators hand out the memory they promise and take it back",
"For every requested size, allocate() of each library stack allocator yields a stack_context whose range [sp-size, sp) is memory newly obtained for this call and usable in full, with size at least the requested size, or throws std::bad_alloc and leaves nothing allocated, which happens only if the system refuses the memory or the size is not representable. deallocate() of that stack_context gives exactly that memory back to where it came from, once, with the extent it was obtained with. Copies of an allocator can deallocate each other's stacks.",
["inputs","fault_sequences","configurations"],"every requested size, page size and allocation failure, every allocator",
"Tests allocate one or two default-size stacks and never see allocation fail; an off-by-one-page release or a wrong base leaks or corrupts silently.",
[H+"fixedsize_stack.hpp",H+"posix/protected_fixedsize_stack.hpp",H+"pooled_fixedsize_stack.hpp",H+"posix/segmented_stack.hpp",H+"windows/protected_fixedsize_stack.hpp"],[("allocate/deallocate",H+"fixedsize_stack.hpp")])
p("C10","A protected stack always ends in an inaccessible guard page",
"Every stack obtained from the protected allocator has its lowest page, and only memory below the requested number of usable bytes, made inaccessible before the stack is handed out, so that an overflow faults instead of overwriting other memory. The accessible part is at least the requested size for every request. If the guard cannot be installed, no stack is handed out.",
["inputs","fault_sequences","configurations"],"every requested size, every page size, success or failure of each system call",
"Tests use the default size only, never overflow a stack and never see mprotect fail.",
[H+"posix/protected_fixedsize_stack.hpp",H+"windows/protected_fixedsize_stack.hpp"],[("mmap + mprotect",H+"posix/protected_fixedsize_stack.hpp allocate")])
p("C11","The library stays inside the stack it was given",
"For every stack_context and, when supplied, every preallocated stack pointer into it, the control structure is placed suitably aligned, wholly below the supplied (preallocated) stack pointer and wholly inside the stack; the region the context runs on lies entirely between the stack's lowest address and the control structure, so memory the caller reserved above is never written. The stack later given to the allocator's deallocate is the very stack_context that allocate returned or the caller passed.",
["inputs","configurations"],"every base address, stack size and preallocated pointer, any callable and allocator size, all backends",
"Tests use one allocator layout; whether placement rounds into reserved memory depends on addresses and object sizes not sampled.",
CTX[:4]+[H+"preallocated.hpp"],[("placement",H+"fiber_fcontext.hpp create_fiber1/create_fiber2"),("uc_stack",H+"fiber_ucontext.hpp create_fiber1/2")])
p("C12","Pool memory outlives every allocator copy and stack that uses it",
"The storage behind a pooled stack allocator stays alive as long as any copy of the allocator exists, including the copies stored in running or suspended contexts, and is destroyed exactly once when the last copy goes away, from whichever thread. Returning a context's stack to its pool always happens while an allocator copy still keeps the pool alive.",
["histories","schedules"],"every sequence and interleaving of copying, moving, destroying allocators and finishing contexts",
"Tests drop the user's allocator only after all contexts ended on one thread; a premature or missing release needs a specific order.",
[H+"pooled_fixedsize_stack.hpp",H+"fiber_fcontext.hpp"],[("intrusive reference count",H+"pooled_fixedsize_stack.hpp storage"),("allocator moved out before record destruction",H+"fiber_fcontext.hpp fiber_record::destroy")])
p("C13","A failed creation reports an exception and leaks nothing",
"If obtaining the stack fails, or the operating system refuses to create the context, creating a fiber or continuation reports the failure by an exception to the creator (if the operating system refused, by a std::system_error that carries the system's error code). Everything acquired up to that point - the stack, the stored allocator and the stored callable - is released exactly once, through an allocator object that is still valid, and the creator's own objects remain usable.",
["fault_sequences","configurations"],"each failing call during creation, any allocator type passed as lvalue or rvalue, all backends",
"Tests never make allocation, getcontext or CreateFiber fail.",
CTX,[("creation",H+"fiber_ucontext.hpp create_fiber1; fiber_winfib.hpp create_fiber1")])
p("C14","Contexts may migrate: the running context is tracked per thread",
"A context suspended on one thread may be resumed on another: after every switch the library's notion of the running context, on the thread that actually executes, is the context that executes, and a handle given to a resumed context denotes the context that just suspended on that same thread. Threads that never used the library before are registered on first use, and their per-thread record is released once, at thread end; handles that live as long as their thread or the program end their contexts in order, too. No per-thread location obtained before a switch is used after it.",
["schedules","histories"],"every assignment of resumptions to threads",
"Tests migrate one context once; a stale per-thread reference shows only when the resuming thread differs from the suspending one at that particular point.",
[H+"fiber_ucontext.hpp",H+"continuation_ucontext.hpp",H+"fiber_winfib.hpp",H+"continuation_winfib.hpp","src/fiber.cpp","src/continuation.cpp"],[("current()","src/fiber.cpp, src/continuation.cpp")])
p("C15","Sanitizer, split-stack, Valgrind runtimes are told of every switch and stack",
"With address-sanitizer support every switch is announced before it happens with the target's stack bounds and completed on arrival with what the arriving context saved, and a context that switches away for the last time announces that its fake stack may go. With thread-sanitizer support the target's own sanitizer fiber is made current before the switch and destroyed exactly once when the context is released. With segmented stacks the running context's segment bookkeeping is saved and the target's installed around every switch, and on every exit path a context's segments are released exactly once. With Valgrind support an allocator registers every stack it hands out, over exactly that stack's range, and deregisters it once, before its memory is given back.",
["histories","configurations"],"every switch of every history in the ASan, TSan, segmented-stack and Valgrind builds",
"The sanitizer builds are not part of the test suite at all, and a missing announcement produces wrong reports only in particular programs.",
[H+"fiber_ucontext.hpp",H+"continuation_ucontext.hpp",H+"posix/segmented_stack.hpp",H+"fixedsize_stack.hpp"],[("start/finish_switch_fiber",H+"fiber_ucontext.hpp resume"),("splitstack",H+"fiber_ucontext.hpp resume")])
p("C16","Stack traits agree with the system and with each other",
"The reported page size is the system's page size, and stacks are reported unbounded exactly when the operating system's stack limit is infinite, in which case no maximum is offered; otherwise the maximum equals the operating system's limit. The default size is positive, never below the minimum size and, when stacks are bounded by a limit of at least the built-in default, never above the maximum. The values are the same on every call and from every thread.",
["inputs","configurations","schedules"],"every page size and stack limit the system may report, any calling thread",
"Tests run under the one limit and page size of the build machine.",
["src/posix/stack_traits.cpp","src/windows/stack_traits.cpp",H+"stack_traits.hpp"],[("traits","src/posix/stack_traits.cpp")])
p("C17","C++11 fallbacks behave like the standard facilities they replace",
"In language modes without the standard facility, the library's invoke, apply, exchange and integer-sequence helpers have the same result type, value category, callable forms (including member pointers) and evaluation as the standard ones, and tuple head/tail splitting keeps every element and its reference type. The overload guard never lets a converting constructor hijack copy or move of the handle types.",
["programs","inputs","configurations"],"all types and value categories the helpers can be instantiated with",
"Tests instantiate a few combinations; the guarantee quantifies over types.",
[H+"detail/invoke.hpp",H+"detail/apply.hpp",H+"detail/exchange.hpp",H+"detail/index_sequence.hpp",H+"detail/tuple.hpp",H+"detail/disable_overload.hpp"],[("invoke",H+"detail/invoke.hpp"),("apply",H+"detail/apply.hpp")])
p("C18","An fcontext switch needs no system call, allocation or lock",
"On the assembler-based implementation, resuming a context, plainly or with an injected callable, and suspending again executes no system call, acquires no lock and performs no dynamic memory allocation, apart from what copying the user's callable itself does. Creating a context makes no allocation besides the one stack obtained from the allocator. This holds for every program and history.",
["programs","histories","configurations"],"every resume/resume_with instantiation and every assembler switch routine",
"Tests do not observe system calls or allocations.",
ASM+[H+"fiber_fcontext.hpp",H+"continuation_fcontext.hpp","src/fcontext.cpp"],[("switch path","src/asm/jump_*.S"),("resume",H+"fiber_fcontext.hpp")])
p("C19","Every supported platform gets one complete, well-formed switch object set",
"For every combination of architecture, ABI, binary format and assembler the build offers, the selected assembler sources exist and together define make_fcontext, jump_fcontext and ontop_fcontext exactly once as global functions of that platform. On ELF the objects keep the stack non-executable and do not export the three symbols from a shared library, and their sizes and types are declared.",
["configurations"],"every platform tuple in the build description",
"The suite builds exactly one platform.",
["src/asm/*","CMakeLists.txt","build/Jamfile.v2"],[("source selection","CMakeLists.txt, build/Jamfile.v2"),("symbol directives","src/asm/*")])
p("C20","Handle observers and swap agree with the state of the handle",
"A handle converts to true exactly when it denotes a context that can be resumed, and operator! is always the negation; default-constructed, moved-from and resumed handles, and handles of finished contexts, are false. Swapping exchanges exactly the two contexts; ordering is a strict weak order consistent with identity, and streaming prints the marker text exactly for a handle that owns nothing. None of these observers changes the handle or the context.",
["histories","configurations"],"every reachable handle state, all backends",
"Tests look at a few handles right after creation or termination.",
CTX,[("observers",H+"fiber_fcontext.hpp operator bool, operator!, operator<, swap")])
p("C21","A context owns its own copy of callable and allocator",
"The callable and the stack allocator passed to a constructor or callcc are stored in the context by value: moved from an rvalue, copied from an lvalue, never referenced afterwards, so they may die as soon as creation returns, and an lvalue argument is left unchanged. The stored callable is invoked exactly once per started context and destroyed exactly once; the stack is deallocated through the stored allocator or an object moved or copied from it.",
["programs","histories","configurations"],"every callable and allocator type, lvalue or rvalue, any lifetime of the originals, all backends",
"Tests pass temporaries or objects that outlive the context; a dangling reference is invisible there.",
CTX,[("record members",H+"fiber_fcontext.hpp fiber_record")])
p("C22","callcc starts at once and returns when control comes back",
"callcc(fn), with or without a stack allocator and preallocated stack, enters fn immediately on a new context with a handle to the caller and returns only when control comes back to the caller. The returned continuation is valid exactly if the context that gave control back is still suspended. Constructing a fiber, in contrast, does not call its function; the first resume does.",
["histories","configurations"],"every body behaviour (suspend, return, destroy), every overload, all backends",
"Tests follow the usual ping-pong order on one configuration.",
[CTX[1],CTX[3],CTX[5],CTX[0]],[("callcc",H+"continuation_fcontext.hpp callcc")])
p("C23","Public headers stand alone, compose, and match the library",
"Every documented header can be the first and only one a translation unit includes, and any selection of them compiles in any order, in every supported language mode (C++11 to C++20), backend (fcontext, ucontext, WinFiber) and build option. Including them in several translation units of one program defines nothing twice, and everything a program uses from them that they do not define is defined exactly once by the library's sources built with the same options.",
["programs","configurations"],"every selection and order of documented headers, every language mode, backend and option",
"Each test includes a fixed selection in one order in a single translation unit, always after other headers.",
[H+"*.hpp",H+"detail/*.hpp","src/*.cpp"],[("includes and include guards",H+"*.hpp"),("inline and template definitions",H+"fiber_fcontext.hpp, continuation_*.hpp")])
p("C24","Every backend accepts the same programs",
"A program written against the documented interface (creating fibers and continuations from any callable of the documented signature, with any stack allocator and with preallocated stacks, resuming them with and without an injected copyable function, and using handles as movable values) is accepted by every backend (fcontext, ucontext, WinFiber) in every language mode (C++11 to C++20), with the same result types and exception specifications. A program that would copy a handle, resume or change a constant one, resume a fiber that is not an rvalue, or use a handle as a bool, integer or pointer implicitly is rejected by every backend.",
["programs","configurations"],"every callable, allocator and handle use the documentation allows, every language mode and backend",
"Each test program is one use on one backend in one language mode; a use that does not compile cannot be a test.",
CTX,[("constructors, resume, resume_with, callcc",H+"fiber_*.hpp, continuation_*.hpp"),("overload guard",H+"detail/disable_overload.hpp")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
