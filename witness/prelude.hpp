// Types and effect markers used by the generated witness programs.
// Everything named ev_* is only declared: the analysis sees each call as an effect of the program.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <type_traits>
#include <utility>
#include <memory>
#include <atomic>
#include <functional>

extern "C" {
void ev_ctor(void* self, const char* type);                        // default construction, may throw
void ev_args(void* self, const char* type, const void*, const void*, const void*, long); // construction from arguments, may throw
void ev_copy(void* self, const char* type, const void* from);      // may throw
void ev_move(void* self, const char* type, void* from);            // may throw
void evn_ctor(void* self, const char* type) noexcept;               // the same, but never throwing
void evn_copy(void* self, const char* type, const void* from) noexcept;
void evn_move(void* self, const char* type, void* from) noexcept;
void ev_dtor(void* self, const char* type) noexcept;               // runs user code: anything may happen to memory it can reach
void ev_del(const void* p, long id, const char* type) noexcept;    // a user deleter got p
void ev_dcopy(void* self, const void* from) noexcept;
void ev_dmove(void* self, void* from) noexcept;
void ev_dassign(void* self, void* from, int move) noexcept;
void* ev_alloc(long id, std::size_t n, std::size_t size, std::size_t align); // user allocator, may throw
void ev_dealloc(long id, void* p, std::size_t n, std::size_t size, std::size_t align) noexcept;
void ev_acopy(void* self, const void* from);                       // user allocator copy, may throw
void ev_reg(const void* cb, const void* who, int kind) noexcept;   // tracking: 0 +strong 1 -strong 2 +weak 3 -weak
void ev_tr(const void* cb, const void* dst, const void* src, int kind) noexcept; // 0 strong 2 weak
void ev_mark(int) noexcept;
const void* ev_printed() noexcept;                                 // the one pointer which was printed
}

#define W extern "C" __attribute__((used))

#define EV_SPECIAL(N) \
    N() { ev_ctor(this, #N); } \
    N(const N& o) { ev_copy(this, #N, std::addressof(o)); } \
    N(N&& o) { ev_move(this, #N, std::addressof(o)); }

struct A { int x; EV_SPECIAL(A) ~A() { ev_dtor(this, "A"); } };
struct B1 { int b1; EV_SPECIAL(B1) virtual ~B1() { ev_dtor(this, "B1"); } };
struct B2 { int b2; EV_SPECIAL(B2) virtual ~B2() { ev_dtor(this, "B2"); } };
struct D : B1, B2 { int d; EV_SPECIAL(D) ~D() override { ev_dtor(this, "D"); } };
// not polymorphic, base at a non-zero offset
struct N1 { int n1; EV_SPECIAL(N1) ~N1() { ev_dtor(this, "N1"); } };
struct N2 { int n2; EV_SPECIAL(N2) ~N2() { ev_dtor(this, "N2"); } };
struct ND : N1, N2 { int nd; EV_SPECIAL(ND) ~ND() { ev_dtor(this, "ND"); } };
// virtual base: the upcast reads the object
struct V { int v; EV_SPECIAL(V) virtual ~V() { ev_dtor(this, "V"); } };
struct VD : virtual V { int vd; EV_SPECIAL(VD) ~VD() override { ev_dtor(this, "VD"); } };
// overloads operator&
struct Amp { int x; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } EV_SPECIAL(Amp) ~Amp() { ev_dtor(this, "Amp"); } };
struct Pod { int a; int b; };
struct alignas(64) Over { int x; EV_SPECIAL(Over) ~Over() { ev_dtor(this, "Over"); } };
// what a library may tell apart by traits: size, emptiness, finality, non-throwing and trivial special members
#define EV_NOTHROW(N) \
    N() noexcept { evn_ctor(this, #N); } \
    N(const N& o) noexcept { evn_copy(this, #N, std::addressof(o)); } \
    N(N&& o) noexcept { evn_move(this, #N, std::addressof(o)); } \
    N& operator=(const N&) noexcept { return *this; } // an object is constructed, not assigned
struct Big { char x[5000]; EV_SPECIAL(Big) ~Big() { ev_dtor(this, "Big"); } };
struct Emp { EV_SPECIAL(Emp) ~Emp() { ev_dtor(this, "Emp"); } };
struct Ntc { int x; EV_NOTHROW(Ntc) ~Ntc() { ev_dtor(this, "Ntc"); } };
struct Fin final { int x; EV_SPECIAL(Fin) virtual ~Fin() { ev_dtor(this, "Fin"); } };
struct Tdt { int x; EV_SPECIAL(Tdt) Tdt& operator=(const Tdt&) { return *this; } }; // trivial destructor
struct Ntd { int x; EV_NOTHROW(Ntd) }; // ... and non-throwing construction
struct Mvo { int x; Mvo() { ev_ctor(this, "Mvo"); } Mvo(Mvo&& o) noexcept { evn_move(this, "Mvo", std::addressof(o)); } ~Mvo() { ev_dtor(this, "Mvo"); } }; // moves only
struct Args {
    int x;
    Args(A& a, const A& b, A&& c, long i) { ev_args(this, "Args", std::addressof(a), std::addressof(b), std::addressof(c), i); }
    template <typename X, typename Y, typename Z, typename N> // arguments of another category or type
    Args(X&& a, Y&& b, Z&& c, N&&) { ev_args(this, "Args", std::addressof(c), std::addressof(b), std::addressof(a), -1); }
    Args(const Args&) = delete;
    ~Args() { ev_dtor(this, "Args"); }
};

// deleters: the type of the object is fixed by the deleter
template <typename T> struct type_name;
#define TN(N) template <> struct type_name<N> { static const char* get() { return #N; } };
TN(A) TN(B1) TN(B2) TN(D) TN(N1) TN(N2) TN(ND) TN(V) TN(VD) TN(Amp) TN(Pod) TN(Over) TN(Args) TN(Big) TN(Emp) TN(Ntc) TN(Fin) TN(Tdt) TN(Ntd) TN(Mvo)
template <typename T> struct type_name<const T> : type_name<T> {};

template <typename T> struct IdDel { // trivially copyable with state
    long id;
    explicit IdDel(long i) : id(i) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> IdDel(const IdDel<U>& o) : id(o.id) {}
    IdDel() : id(0) {}
    void operator()(T* p) const noexcept { ev_del(p, id, type_name<T>::get()); }
};
template <typename T> struct MDel { // state, moves and copies are effects
    long id;
    explicit MDel(long i) : id(i) {}
    MDel(const MDel& o) noexcept : id(o.id) { ev_dcopy(this, std::addressof(o)); }
    MDel(MDel&& o) noexcept : id(o.id) { o.id = -1; ev_dmove(this, std::addressof(o)); }
    MDel& operator=(const MDel& o) noexcept { id = o.id; ev_dassign(this, (void*)std::addressof(o), 0); return *this; }
    MDel& operator=(MDel&& o) noexcept { auto i = o.id; o.id = -1; id = i; ev_dassign(this, std::addressof(o), 1); return *this; }
    void operator()(T* p) noexcept { ev_del(p, id, type_name<T>::get()); }
};
template <typename T> struct BDel { // large and aligned
    alignas(32) long id;
    char more[200];
    explicit BDel(long i) : id(i) {}
    void operator()(T* p) const noexcept { ev_del(p, id, type_name<T>::get()); }
};
template <typename T> struct EDel { // empty
    void operator()(T* p) const noexcept { ev_del(p, 77, type_name<T>::get()); }
};

// allocators
template <typename T> struct IdAlloc { // with state
    using value_type = T;
    long id;
    explicit IdAlloc(long i) noexcept : id(i) {}
    IdAlloc(const IdAlloc& o) noexcept : id(o.id) {}
    template <typename U> IdAlloc(const IdAlloc<U>& o) noexcept : id(o.id) {}
    ~IdAlloc() { id = -2; } // an allocator which was destroyed cannot be used
    T* allocate(std::size_t n) { return static_cast<T*>(ev_alloc(id, n, sizeof(T), alignof(T))); }
    void deallocate(T* p, std::size_t n) { ev_dealloc(id, p, n, sizeof(T), alignof(T)); }
};
template <typename T> struct ThAlloc { // no state, copying may throw
    using value_type = T;
    ThAlloc() noexcept {}
    ThAlloc(const ThAlloc& o) { ev_acopy(this, std::addressof(o)); }
    template <typename U> ThAlloc(const ThAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) { return static_cast<T*>(ev_alloc(5, n, sizeof(T), alignof(T))); }
    void deallocate(T* p, std::size_t n) { ev_dealloc(5, p, n, sizeof(T), alignof(T)); }
};
