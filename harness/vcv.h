// Observable condition variables and sleeps: replaces std::condition_variable and sleep_for in the code included after this header.
// A thread is quiet when it waits with nobody having woken it, or sleeps a long (virtual) sleep. Semantics are those of the standard:
// a notification wakes waiters that wait at that moment; notify_one wakes one of them.
#pragma once
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <list>
#include <map>
#include <atomic>
#include <functional>
namespace vcv {
    using real_cv = std::condition_variable;
    struct Thread { std::atomic<int> quiet{0}; };                    // 0 running, 1 waiting, 2 sleeping
    inline thread_local Thread* self = nullptr;
    inline std::mutex g; inline real_cv sleep_cv; inline uint64_t ticks = 0;
    inline std::atomic<int> block_delay_ms{0};                       // held between a false predicate and blocking, with the mutex locked
    inline std::function<void(void*)> on_block;                      // called there too
    inline void tick() { std::lock_guard<std::mutex> lk(g); ticks++; sleep_cv.notify_all(); }
    template <class D> void sleep(const D& d) {
        if (d < std::chrono::seconds(10)) { std::this_thread::sleep_for(d); return; }
        std::unique_lock<std::mutex> lk(g); uint64_t t = ticks; if (self) self->quiet = 2; while (ticks == t) sleep_cv.wait(lk); if (self) self->quiet = 0;
    }
    struct Node { bool woken = false; real_cv cv; Thread* t; };
}
namespace std {
    class vcv_condition_variable {
        std::list<vcv::Node*> nodes;
        template <class W> void block(std::unique_lock<std::mutex>& lk, W w) {
            if (vcv::on_block) vcv::on_block(this);
            if (int d = vcv::block_delay_ms) std::this_thread::sleep_for(std::chrono::milliseconds(d));
            vcv::Node n; n.t = vcv::self;
            std::unique_lock<std::mutex> gl(vcv::g); nodes.push_back(&n); if (n.t) n.t->quiet = 1;
            lk.unlock(); w(n, gl); nodes.remove(&n); if (n.t) n.t->quiet = 0; gl.unlock(); lk.lock();
        }
      public:
        bool all_wait() { std::lock_guard<std::mutex> gl(vcv::g); for (auto n : nodes) if (n->woken) return false; return !nodes.empty(); }
        void notify_all() { std::lock_guard<std::mutex> gl(vcv::g); for (auto n : nodes) { n->woken = true; if (n->t) n->t->quiet = 0; n->cv.notify_one(); } }
        void notify_one() { std::lock_guard<std::mutex> gl(vcv::g); for (auto n : nodes) if (!n->woken) { n->woken = true; if (n->t) n->t->quiet = 0; n->cv.notify_one(); break; } }
        void wait(std::unique_lock<std::mutex>& lk) { block(lk, [](vcv::Node& n, std::unique_lock<std::mutex>& gl) { while (!n.woken) n.cv.wait(gl); }); }
        template <class P> void wait(std::unique_lock<std::mutex>& lk, P p) { while (!p()) wait(lk); }
        template <class C, class D> std::cv_status wait_until(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<C, D>& t) {
            bool late = false; block(lk, [&](vcv::Node& n, std::unique_lock<std::mutex>& gl) { if (n.t) n.t->quiet = 0; while (!n.woken && !late) late = n.cv.wait_until(gl, t) == std::cv_status::timeout; });
            return late ? std::cv_status::timeout : std::cv_status::no_timeout; }
        template <class C, class D, class P> bool wait_until(std::unique_lock<std::mutex>& lk, const std::chrono::time_point<C, D>& t, P p) { while (!p()) if (wait_until(lk, t) == std::cv_status::timeout) return p(); return true; }
        template <class R, class D> std::cv_status wait_for(std::unique_lock<std::mutex>& lk, const std::chrono::duration<R, D>& d) { return wait_until(lk, std::chrono::steady_clock::now() + d); }
        template <class R, class D, class P> bool wait_for(std::unique_lock<std::mutex>& lk, const std::chrono::duration<R, D>& d, P p) { return wait_until(lk, std::chrono::steady_clock::now() + d, p); }
    };
    namespace this_thread { template <class D> void vcv_sleep_for(const D& d) { vcv::sleep(d); } }
}
