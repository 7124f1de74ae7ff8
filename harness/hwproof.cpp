// Drives the hardware prover's software engine (hw_proof.cpp) the way the client's event loop does.  One command per line, one reply line each:
//   start D form-hex T aux proofs   new session                      -> target
//   add iters a b                   a status read from the board     -> rc [pos a,b]   (after a refusal: restart there, as the client does)
//   adds i0 h..                     see below
//   req iters | tick | gate 0/1 | fin n | started | get | stop | jitter seed prob span | slow pc n us | watch 0/1 | sites | scale n
#include <atomic>
#include "hw_proof.hpp"
#include "chia_driver.hpp"
#include "watched.h"
#include "fakedev.h"

#include <algorithm>
#include <iostream>
#include <sstream>
#include <condition_variable>
#include <pthread.h>
int chia_vdf_is_emu = 0;
static void dev_spi(uint8_t*, int, uint8_t*, int) {}
static int dev_i2c(int, int, uint8_t*, int) { return 0; }
static void dev_gpio(int, int) {}
extern void hw_proof_process_work(struct vdf_state* vdf);
static std::atomic<int> scale{20};
extern "C" int nanosleep(const struct timespec* t, struct timespec*) {
    uint64_t us = (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000;
    sched::nap(us / scale + 1); return 0;
}
extern "C" int usleep(useconds_t us) { sched::nap(us / scale + 1); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }

// copying a number takes a moment: what is copied must not be replaced meanwhile
extern "C" void __gmpz_set(mpz_ptr r, mpz_srcptr x) {
    auto* v = (const volatile __mpz_struct*)x;
    mp_limb_t* d = v->_mp_d; int n = v->_mp_size, m = n < 0 ? -n : n;
    sched::at(__builtin_return_address(0), 6);
    if (v->_mp_d != d || v->_mp_size != n) sched::dead("a number is replaced while it is being copied, its storage", x);
    if (m) sched::mem(d, m * sizeof *d, 0);
    if (r->_mp_alloc < m) mpz_realloc2(r, m * 64);
    for (int i = 0; i < m; i++) r->_mp_d[i] = d[i];
    r->_mp_size = n;
}
#ifdef KNOWN_ORDER
// Quick proofs from the known order of the group, so that schedules with long segments take no time; each stored value is compared with
// the power it must be.  (Takes the place of the weak definition in vdf_base.cpp.)
static mpz_t order; static std::atomic<int> wrong{0}; static std::atomic<uint64_t> wrong_at{0};
static form fpow(form x, integer e, integer& D, integer& L, PulmarkReducer& r) { return mpz_sgn(e.impl) ? FastPowFormNucomp(x, D, e, L, r) : form::from_abd(integer(1), integer(1), D); }
void ParallelProver::GenerateProof() {
    PulmarkReducer r; integer N(D); mpz_neg(N.impl, N.impl); integer L = root(N, 4), B = GetB(D, segm.x, segm.y), m, e, two(2);
    mpz_mul(m.impl, B.impl, order); mpz_powm_ui(e.impl, two.impl, num_iterations, m.impl); mpz_fdiv_q(e.impl, e.impl, B.impl);
    uint64_t n = num_iterations / ((uint64_t)k * l), at = 0; integer q(1);
    for (uint64_t i = 0; i <= n; i++) {
        if (!PerformExtraStep()) return;
        if (i * k * l >= num_iterations && i) break;
        form f = GetForm(i);
        if (!PerformExtraStep()) return;
        form w = fpow(segm.x, q, D, L, r); r.reduce(w); r.reduce(f);
        if (mpz_cmp(w.a.impl, f.a.impl) || mpz_cmp(w.b.impl, f.b.impl)) { wrong++; wrong_at = segm.start + i * k * l; }
        mpz_mul_2exp(q.impl, q.impl, k * l);
        mpz_mod(q.impl, q.impl, order);
    }
    proof = fpow(segm.x, e, D, L, r); r.reduce(proof);
    OnFinish();
}
// threads know the order in which they were created
#include <dlfcn.h>
static std::atomic<int> created{0};
static thread_local int birth = -1;
struct Boot { void* (*f)(void*); void* a; int n; };
static void* boot(void* p) { Boot b = *(Boot*)p; delete (Boot*)p; birth = b.n; return b.f(b.a); }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    return real(t, at, boot, new Boot{f, a, created++});
}
#else
static int birth = 0; static std::atomic<int> wrong{0}; static std::atomic<uint64_t> wrong_at{0};
#endif
// proof threads: numbered as they enter hw_compute_proof; held there while the gate is closed
static std::mutex gm; static std::condition_variable gc;
static bool gate = false; static int n_started = 0, n_ended = 0; static bool released[4096], ended[4096]; static int born[4096];
struct Mine { int id = -1; ~Mine() { if (id >= 0) { std::lock_guard<std::mutex> l(gm); ended[id] = true; n_ended++; gc.notify_all(); } } };
static thread_local Mine mine;
static void entered(uintptr_t pc) {
    if (pc - (uintptr_t)&hw_compute_proof >= 96 || mine.id >= 0) return;
    std::unique_lock<std::mutex> l(gm);
    mine.id = n_started++ % 4096; born[mine.id] = birth; released[mine.id] = false; ended[mine.id] = false;
    gc.notify_all();
    while (gate && !released[mine.id]) gc.wait(l);
}
static std::string hex(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
static std::string num(mpz_t z) { char* p = mpz_get_str(nullptr, 16, z); std::string s = p; void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(p, s.size() + 1); return s; }
static struct vdf_state vdf;      // one engine, used for one session after another
static struct vdf_value val;
static std::string add() {
    std::ostringstream o;
    int rc = hw_proof_add_value(&vdf, &val);
    o << rc;
    if (rc < 0) {
        size_t pos = 0; form* f = hw_proof_last_good_form(&vdf, &pos);
        vdf.iters_offset = pos * vdf.interval;
        o << " " << vdf.iters_offset << " " << num(f->a.impl) << " " << num(f->b.impl) << " " << vdf.target_iters - vdf.iters_offset;
    }
    return o.str();
}
int main() {
    VdfBaseInit();
    sched::entered = entered;
    std::string line; bool init = false;
    init_vdf_value(&val);
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op; is >> op;
        std::ostringstream o;
        if (op == "start") {
            std::string D, f; uint64_t T; int aux, pr; is >> D >> f >> T >> aux >> pr;
            uint8_t fb[BQFC_FORM_SIZE] = {0};
            for (size_t i = 0; i < BQFC_FORM_SIZE && 2 * i < f.size(); i++) fb[i] = strtoul(f.substr(2 * i, 2).c_str(), nullptr, 16);
            struct vdf_proof_opts po = {(uint8_t)aux, (uint8_t)pr};
            { std::lock_guard<std::mutex> l(gm); n_started = n_ended = 0; }
            init_vdf_state(&vdf, &po, D.c_str(), fb, T, 0);
            val.iters = 0; init = true;
            o << vdf.target_iters << " " << num(vdf.last_val.a) << " " << num(vdf.last_val.b);
        } else if (op == "add") {
            std::string a, b; is >> val.iters >> a >> b;
            mpz_set_str(val.a, a.c_str(), 16); mpz_set_str(val.b, b.c_str(), 16);
            o << add();
        } else if (op == "adds") {      // several reports; stops at the first refusal: i a b i a b ...
            std::string a, b; int n = 0; std::string r = "0"; uint64_t it;
            while (is >> it >> a >> b) { val.iters = it; mpz_set_str(val.a, a.c_str(), 16); mpz_set_str(val.b, b.c_str(), 16); r = add(); n++; if (r != "0") break; }
            o << n << " " << r;
        } else if (op == "req") { uint64_t i; is >> i; hw_request_proof(&vdf, i, false); o << "ok"; }
        else if (op == "tick") { hw_proof_process_work(&vdf); o << "ok"; }
        else if (op == "gate") { std::lock_guard<std::mutex> l(gm); is >> gate; gc.notify_all(); o << "ok"; }
        else if (op == "fin") {          // let the n-th proof thread go on, wait until it has ended
            int n; is >> n; std::unique_lock<std::mutex> l(gm);
            int id = -1;
            if (n < n_started) { std::vector<std::pair<int, int>> v; for (int i = 0; i < n_started; i++) v.push_back({born[i], i}); std::sort(v.begin(), v.end()); id = v[n].second; }
            if (id >= 0) { released[id] = true; gc.notify_all(); o << (gc.wait_for(l, std::chrono::milliseconds(1500), [&] { return ended[id]; }) ? "ok" : "hang"); }
            else o << "absent";
        } else if (op == "free") { std::lock_guard<std::mutex> l(gm); gate = false; gc.notify_all(); o << "ok"; }
        else if (op == "settle") {       // no value is being filled in any more, and the proof threads have got going
            int ok = 0;
            for (int i = 0; i < 20000 && !ok; i++) { { std::lock_guard<std::mutex> l(gm); ok = __builtin_popcountll(vdf.aux_threads_busy) == n_started - n_ended; } if (!ok) sched::nap(1000); }
            o << (ok ? "ok" : "hang");
        }
        else if (op == "wrong") { o << wrong << " " << wrong_at; }
        else if (op == "order") { std::string h; is >> h;
#ifdef KNOWN_ORDER
            mpz_init_set_str(order, h.c_str(), 16);
#endif
            o << "ok"; }
        else if (op == "started") { sched::nap(3000); std::lock_guard<std::mutex> l(gm); o << n_started; }
        else if (op == "busy") o << (vdf.aux_threads_busy ? 1 : 0);
        else if (op == "get") {
            struct vdf_proof* p; int i, n = 0; std::string r;
            while ((i = hw_retrieve_proof(&vdf, &p)) >= 0) {
                n++; std::ostringstream q; q << " " << p->iters << ":" << hex(p->y, BQFC_FORM_SIZE) << ":" << p->seg_iters << ":" << hex(p->proof, BQFC_FORM_SIZE);
                int cnt = i;
                while (i--) { p = &vdf.proofs[p->prev]; q << ":" << p->seg_iters << ":" << hex(p->B, sizeof p->B) << ":" << hex(p->proof, BQFC_FORM_SIZE); }
                r += q.str();
            }
            o << n << r;
        } else if (op == "stop") { { std::lock_guard<std::mutex> l(gm); gate = false; gc.notify_all(); } hw_stop_proof(&vdf); clear_vdf_state(&vdf); init = false; o << "ok"; }
        else if (op == "completed") o << vdf.completed;
        else if (op == "jitter") { uint32_t s, p, w; is >> s >> p >> w; sched::seed = s; sched::prob = p; sched::span = w; o << "ok"; }
        else if (op == "slow") { uintptr_t pc; int skip, n; uint64_t us; is >> std::hex >> pc >> std::dec >> skip >> n >> us; sched::target = 0; sched::skip = skip; sched::hits = n; sched::hold = us; sched::target = pc; o << "ok"; }
        else if (op == "watch") { int w; is >> w; sched::watch = w; o << "ok"; }
        else if (op == "sites") { for (auto& s : sched::sites) if (s.pc) o << std::hex << s.pc << ":" << (int)s.kind << std::dec << ":" << s.n << " "; }
        else if (op == "scale") { int n; is >> n; scale = n; o << "ok"; }
        else if (op == "nap") { uint64_t us; is >> us; sched::nap(us); o << "ok"; }
        else o << "?";
        std::cout << o.str() << std::endl;
    }
    return 0;
}
