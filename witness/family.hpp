// The three control block families under analysis, selected by FAM_T, FAM_L or FAM_A.
#pragma once
#include "prelude.hpp"
#include <xmem/common_control_block.hpp>
#include <xmem/local_ref_count.hpp>
#include <xmem/atomic_ref_count.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/ostream.hpp>

// a user-supplied control block which tracks its pointers
template <typename RC>
struct tracking_cb : xmem::control_block_base<RC> {
    using super = xmem::control_block_base<RC>;
    void init_strong(const void* s) noexcept { super::init_strong(s); ev_reg(this, s, 0); }
    void inc_strong_ref(const void* s) noexcept { super::inc_strong_ref(s); ev_reg(this, s, 0); }
    void dec_strong_ref(const void* s) noexcept { ev_reg(this, s, 1); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept {
        if (super::inc_strong_ref_nz(s)) { ev_reg(this, s, 0); return true; }
        return false;
    }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) noexcept { super::transfer_strong(d, s); ev_tr(this, d, s, 0); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); ev_reg(this, s, 2); }
    void dec_weak_ref(const void* s) noexcept { ev_reg(this, s, 3); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) noexcept { super::transfer_weak(d, s); ev_tr(this, d, s, 2); }
};

#if defined FAM_T
using CBF = xmem::control_block_factory<tracking_cb<xmem::local_ref_count>>;
template <typename T, typename... Args>
xmem::basic_shared_ptr<CBF, T> MAKE(Args&&... args) {
    return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<Args>(args)...));
}
template <typename T>
auto MAKE_PTR(T&& t) { return MAKE<std::remove_reference_t<T>>(std::forward<T>(t)); }
template <typename T>
xmem::basic_shared_ptr<CBF, T> MAKE_OW() { return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
using ESF = xmem::basic_enable_shared_from<CBF>;
template <typename T> using ESFT = xmem::basic_enable_shared_from_this<CBF, T>;
template <typename T> using ST = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
#elif defined FAM_L
using CBF = xmem::local_control_block_factory;
#define MAKE xmem::make_local_shared
#define MAKE_PTR xmem::make_local_shared_ptr
#define MAKE_OW xmem::make_local_shared_for_overwrite
template <typename T> using SP = xmem::local_shared_ptr<T>;
template <typename T> using WP = xmem::local_weak_ptr<T>;
using ESF = xmem::enable_local_shared_from;
template <typename T> using ESFT = xmem::enable_local_shared_from_this<T>;
template <typename T> using ST = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
#elif defined FAM_A
using CBF = xmem::atomic_control_block_factory;
#define MAKE xmem::make_shared
#define MAKE_PTR xmem::make_shared_ptr
#define MAKE_OW xmem::make_shared_for_overwrite
template <typename T> using SP = xmem::shared_ptr<T>;
template <typename T> using WP = xmem::weak_ptr<T>;
using ESF = xmem::enable_shared_from;
template <typename T> using ESFT = xmem::enable_shared_from_this<T>;
template <typename T> using ST = xmem::atomic_shared_ptr_storage<T>;
#endif

using CB = typename CBF::cb_type;
template <typename T> using PAIR = xmem::cb_ptr_pair<CB, std::remove_extent_t<T>>;

// objects which give out their owner
struct EF : ESF {
    int x;
    EF() { ev_ctor(this, "EF"); }
    EF(const EF& o) : ESF(o) { ev_copy(this, "EF", std::addressof(o)); }
    EF& operator=(const EF& o) = default;
    ~EF() { ev_dtor(this, "EF"); }
    using ESF::shared_from_this;
    using ESF::weak_from_this;
    using ESF::shared_from;
    using ESF::weak_from;
};
struct EFT : ESFT<EFT> {
    int x;
    EFT() { ev_ctor(this, "EFT"); }
    EFT(const EFT& o) : ESFT<EFT>(o) { ev_copy(this, "EFT", std::addressof(o)); }
    EFT& operator=(const EFT& o) = default;
    ~EFT() { ev_dtor(this, "EFT"); }
};
// the shared-from base is not at the start of the object, and the class is polymorphic
struct EFD : B1, EF {
    int y;
    EFD() { ev_ctor(this, "EFD"); }
    ~EFD() { ev_dtor(this, "EFD"); }
};
// never throwing, trivially destructible
struct EFN final : ESF {
    int x;
    EFN() noexcept { evn_ctor(this, "EFN"); }
    EFN(const EFN& o) noexcept : ESF(o) { evn_copy(this, "EFN", std::addressof(o)); }
    using ESF::shared_from_this;
    using ESF::weak_from_this;
};
// large, a second level of derivation
struct EFB : EFT {
    char y[5000];
    EFB() { ev_ctor(this, "EFB"); }
    ~EFB() { ev_dtor(this, "EFB"); }
};
// aggregate with a shared-from base: value initialization
TN(EF) TN(EFT) TN(EFD) TN(EFN) TN(EFB)
