// vocabulary of the client drivers; nothing here is ever executed, the
// functions are interpreted by the analysis (irflow/natives.py)
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <new>
#include <utility>
extern "C" {
int vf_choose(int n);
void vf_check(bool c, const char* rule);
[[noreturn]] void vf_fail(const char* rule);
void vf_assume(bool c);
[[noreturn]] void vf_end();
void vf_born(const void* p, const char* kind) noexcept;
void vf_die(const void* p, const char* kind) noexcept;
void vf_alive(const void* p, const char* kind) noexcept;
int vf_count(const char* kind);
void vf_point(int id);
int vf_opt(const char* k, long v);
long vf_get(const char* k);
void vf_phase(const char* k);
void vf_note(const char* k);
std::size_t vf_sym(const char* name, std::size_t lo, std::size_t hi, std::size_t mult);
void* vf_region(std::size_t n, std::size_t align);
void vf_unregion(void*);
void vf_reserve(const void*);
void vf_reserve_below(const void*);
void vf_wrap(int on);
std::size_t vf_obj_size(const void*);
std::size_t vf_obj_off(const void*);
bool vf_same_obj(const void*, const void*);
bool vf_obj_is(const void*, const char* kind);
std::size_t vf_obj_meta(const void*, const char* key);
int vf_kind_count(const char* kind);
const void* vf_on_stack_of();
const void* vf_self();
const void* vf_denotes(const void* handle);
int vf_spawn(void (*fn)(void*), void* arg);
bool vf_yield(int tid);
bool vf_done(int tid);
int vf_thread();
int vf_out();
int vf_handled();
long vf_fp();
}

// the same again, any number of times: state the library keeps between the rounds counts
#define VF_AGAIN for (bool vf_again = true; vf_again; vf_again = vf_choose(2) && (vf_point(90), true))

// an object whose life the analysis follows
struct N_callable { static constexpr const char* n() { return "callable"; } };
struct N_allocator { static constexpr const char* n() { return "allocator copy"; } };
struct N_local { static constexpr const char* n() { return "local object of a context"; } };
struct N_ontop { static constexpr const char* n() { return "injected function"; } };
struct N_exc { static constexpr const char* n() { return "exception payload"; } };
struct N_arg { static constexpr const char* n() { return "caller's argument"; } };

template <class N>
struct Tr {
    int from;              // 0 built, 1 copied, 2 moved, 3 moved-from
    Tr() noexcept : from(0) { vf_born(this, N::n()); }
    Tr(Tr const& o) noexcept : from(1) { vf_alive(&o, N::n()); vf_check(o.from != 3, "C21: an object is copied after it was moved from"); vf_born(this, N::n()); }
    Tr(Tr&& o) noexcept : from(2) { vf_alive(&o, N::n()); o.from = 3; vf_born(this, N::n()); }
    Tr& operator=(Tr const& o) noexcept { vf_alive(this, N::n()); vf_alive(&o, N::n()); from = 1; return *this; }
    Tr& operator=(Tr&& o) noexcept { vf_alive(this, N::n()); vf_alive(&o, N::n()); from = 2; o.from = 3; return *this; }
    ~Tr() { vf_die(this, N::n()); }
    void use() const noexcept { vf_alive(this, N::n()); }
    void use_value() const noexcept { vf_alive(this, N::n()); vf_check(from != 3, "C21: an object is used after it was moved from"); }
};
#endif
