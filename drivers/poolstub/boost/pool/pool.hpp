// stands in for Boost.Pool: every chunk is a block of the UserAllocator the library chose, so that its sizes and addresses are decided for every request
#ifndef VF_POOLSTUB
#define VF_POOLSTUB
#include <cstddef>
#include <cstdlib>
#include <new>
#include <boost/pool/poolfwd.hpp>
namespace boost {
struct default_user_allocator_new_delete {
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    static char* malloc(size_type n) { return new (std::nothrow) char[n]; }
    static void free(char* p) { delete[] p; }
};
struct default_user_allocator_malloc_free {
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    static char* malloc(size_type n) { return static_cast<char*>(std::malloc(n)); }
    static void free(char* p) { std::free(p); }
};
template <typename UserAllocator> class pool {
    std::size_t n_;
    char* p_[4];
    pool(pool const&);
    pool& operator=(pool const&);
public:
    typedef UserAllocator user_allocator;
    typedef typename UserAllocator::size_type size_type;
    typedef typename UserAllocator::difference_type difference_type;
    explicit pool(size_type n, size_type = 32, size_type = 0) : n_(n) { for (int i = 0; i != 4; ++i) p_[i] = nullptr; }
    ~pool() { purge_memory(); }
    void* malloc() {
        char* p = UserAllocator::malloc(n_);
        if (!p) return nullptr;
        for (int i = 0; i != 4; ++i) if (!p_[i]) { p_[i] = p; return p; }
        std::abort();
    }
    void* ordered_malloc() { return malloc(); }
    void free(void* v) { for (int i = 0; i != 4; ++i) if (p_[i] == v) { p_[i] = nullptr; break; } UserAllocator::free(static_cast<char*>(v)); }
    void ordered_free(void* v) { free(v); }
    bool is_from(void* v) const { for (int i = 0; i != 4; ++i) if (p_[i] == v) return true; return false; }
    bool release_memory() { return false; }
    bool purge_memory() { for (int i = 0; i != 4; ++i) if (p_[i]) { UserAllocator::free(p_[i]); p_[i] = nullptr; } return true; }
    size_type get_requested_size() const { return n_; }
    size_type get_next_size() const { return 1; }
    size_type get_max_size() const { return 0; }
};
}
#endif
