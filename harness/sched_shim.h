// Forced include: replaces the synchronisation primitives used by the code under test by versions that
// hand every visible operation to a controlled scheduler (see vsched.h).  Sequentially consistent
// interleavings are explored; weak-memory reorderings are not (stated assumption).
#pragma once
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <memory>
#include <string>
#include <sstream>
#include <iostream>
#include <functional>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <future>
#include <tuple>
#include <ctime>
#include <unistd.h>
#include <sys/types.h>

namespace vsched {
void point(char const *what);               // a visible operation is about to happen
void block_until(std::function<bool()> ready, char const *what); // disabled until ready()
pid_t getpid_();
time_t time_(time_t *);
long gethostid_();
}
namespace std {
template <class T> struct vatomic {
    T v;
    vatomic() noexcept : v() {}
    constexpr vatomic(T x) noexcept : v(x) {}
    vatomic(vatomic const &) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const { vsched::point("load"); return v; }
    void store(T x, std::memory_order = std::memory_order_seq_cst) { vsched::point("store"); v = x; }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) { vsched::point("xchg"); T o = v; v = x; return o; }
    bool compare_exchange_strong(T &e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
        vsched::point("cas"); if (v == e) { v = d; return true; } e = v; return false; }
    bool compare_exchange_weak(T &e, T d, std::memory_order a = std::memory_order_seq_cst, std::memory_order b = std::memory_order_seq_cst) { return compare_exchange_strong(e, d, a, b); }
    template <class U> T fetch_add(U d, std::memory_order = std::memory_order_seq_cst) { vsched::point("fetch_add"); T o = v; v = v + d; return o; }
    template <class U> T fetch_sub(U d, std::memory_order = std::memory_order_seq_cst) { vsched::point("fetch_sub"); T o = v; v = v - d; return o; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator+=(T d) { return fetch_add(d) + d; }
};
struct vmutex {
    bool held = false;
    constexpr vmutex() noexcept {}
    vmutex(vmutex const &) = delete;
    void lock() { vsched::point("lock"); vsched::block_until([this] { return !held; }, "lock"); held = true; }
    bool try_lock() { vsched::point("trylock"); if (held) return false; held = true; return true; }
    void unlock() { vsched::point("unlock"); held = false; }
};
struct vsmutex {
    int readers = 0; bool held = false;
    void lock() { vsched::point("lock"); vsched::block_until([this] { return !held && !readers; }, "lock"); held = true; }
    bool try_lock() { vsched::point("trylock"); if (held || readers) return false; held = true; return true; }
    void unlock() { vsched::point("unlock"); held = false; }
    void lock_shared() { vsched::point("lock_shared"); vsched::block_until([this] { return !held; }, "lock_shared"); ++readers; }
    bool try_lock_shared() { if (held) return false; ++readers; return true; }
    void unlock_shared() { vsched::point("unlock_shared"); --readers; }
};
struct vonce { int st = 0; constexpr vonce() noexcept {} };
template <class F, class... A> void vcall_once(vonce &o, F &&f, A &&...a) {
    vsched::point("call_once");
    vsched::block_until([&] { return o.st != 1; }, "call_once");
    if (o.st == 2) return;
    o.st = 1;
    try { std::forward<F>(f)(std::forward<A>(a)...); } catch (...) { o.st = 0; throw; }
    vsched::point("once_done");
    o.st = 2;
}
inline void vfence(std::memory_order) noexcept {}
}
#define atomic vatomic
#define mutex vmutex
#define shared_mutex vsmutex
#define once_flag vonce
#define call_once vcall_once
#define atomic_thread_fence vfence
#ifndef VSCHED_NO_PID
#define getpid() vsched::getpid_()
#define time(x) vsched::time_(x)
#define gethostid() vsched::gethostid_()
#endif
