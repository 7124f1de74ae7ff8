// n-Wesolowski mode: the manager of segment provers and requests, driven step by step. One script per input line:
//   <D> <a,b> <order multiple> <segments> <threads> <fake|real|fakefast|realfast> <block delay ms> <commands...>
// commands: A<n> squaring loop reaches n; F<start>:<length> that segment's prover finishes; f<start>:<length> the same, seen late by the manager;
//   Q<iters> request; q<iters> request without waiting for anything; T long sleeps end; S stop; D finish everything and go on squaring until all requests are answered; W settle;
//   R<seed>:<segments>:<ms> free run
// every command except R prints one line: {"c":cmd,"run":[[start,length]..],"idle":[..],"ans":[[iters,type,hex]..],"quiet":0/1}
#include <boost/asio.hpp>
#include <cstdint>
#include <vector>
#include <set>
#include <string>
#include <random>
#include <future>
#include "vcv.h"
#define condition_variable vcv_condition_variable
#define CHIAVDF_VERIF_PROVERS "scripted.h"
#define sleep_for vcv_sleep_for
#include "vdf.h"
#undef InterruptableProver
#undef sleep_for
#include "hcommon.h"
#include "ff.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/syscall.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;
static void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
// no other thread of this process is running or waiting for a processor
static bool others_asleep() {
    DIR* d = opendir("/proc/self/task"); if (!d) return true; long me = syscall(SYS_gettid); bool ok = true;
    while (dirent* e = readdir(d)) { long t = atol(e->d_name); if (t <= 0 || t == me) continue;
        char path[64], b[400]; snprintf(path, sizeof path, "/proc/self/task/%ld/stat", t); FILE* f = fopen(path, "r"); if (!f) continue; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
        char* r = strrchr(b, ')'); if (r && (r[2] == 'R' || r[2] == 'D')) { ok = false; break; } }
    closedir(d); return ok; }

int main() {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode(); fast_algorithm = true;
    std::ostream real(std::cout.rdbuf()); std::cout.rdbuf(nullptr);
    std::string line; integer lastD; std::string lastf;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string Ds, fs, hs, mode; int segs, threads, delay; is >> Ds >> fs >> hs >> segs >> threads >> mode >> delay;
        integer D = I(Ds); form x = F(fs, D); PulmarkReducer red; red.reduce(x); order = I(hs); fake = mode.substr(0, 4) == "fake"; bool fast = mode.size() > 4;
        if (!(lastD == D) || lastf != fs) ff.init(D, x); lastD = D; lastf = fs;
        started.clear(); proved.clear(); maxrun = 0; oddities.clear(); new_event = false; vcv::block_delay_ms = delay;
        FastAlgorithmCallback* cb = new FastAlgorithmCallback(segs, D, x, fast);
        FastStorage* fstore = fast ? new FastStorage(cb) : nullptr; uint64_t submitted = 0;
        ProverManager* pm = new ProverManager(D, cb, fstore, segs, threads);
        struct Rq { uint64_t iters; vcv::Thread t; std::thread th; std::atomic<bool> done{false}; bool told = false; Proof p; std::string err; };
        std::list<Rq> reqs; uint64_t n = 0; bool stopped = false, stop_hang = false;
        bool loop_seen = false; auto began = std::chrono::steady_clock::now();
        pm->start();
        auto quiet_once = [&] {
            { std::lock_guard<std::mutex> lk(new_event_mutex); if (!stopped && new_event) return false; }
            // the manager's own thread waits for events and nothing has woken it (once it is known to wait at all)
            if (!stopped) { bool w = new_event_cv.all_wait(); loop_seen = loop_seen || w; if (!w && (loop_seen || std::chrono::steady_clock::now() - began < std::chrono::seconds(3))) return false; }
            for (auto& r : reqs) if (!r.done && !r.t.quiet) return false;
            if (!fake && !stopped) { std::lock_guard<std::mutex> lk(reg_m); for (auto p : reg) if (p->allowed && !p->f_paused && !p->f_stop && !p->InterruptableProver::IsFullyFinished()) return false; }
            if (!stopped && !others_asleep()) return false;
            return true; };
        // quiet: no event pending, every request blocked or done, and nothing changes any more
        auto snapshot = [&] { std::lock_guard<std::mutex> lk(reg_m); uint64_t h = reg.size() * 1000003; for (auto p : reg) h = h * 31 + p->sg.start + p->sg.length * 7 + (p->f_paused ? 1 : 0) + (p->ended() ? 2 : 0); for (auto& r : reqs) h = h * 31 + (r.done ? 1 : r.t.quiet.load() + 2); return h; };
        auto settle = [&](int limit_ms) {
            auto t0 = std::chrono::steady_clock::now(); int same = 0; uint64_t last = 0;
            while (std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(limit_ms)) {
                bool q = quiet_once(); uint64_t s = snapshot();
                if (q && s == last) same++; else same = 0; last = s;
                if (same >= (fast ? 40 : delay ? 3 * delay + 10 : 8)) return true;
                nap(q ? 300 : 100);
            }
            return false; };
        auto event = [&] { { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_all(); };
        auto advance = [&](uint64_t m) {
            if (!fake && !fast) for (uint64_t e = n + 1; e <= m; e++) { if (e % 2 == 0 && (e % 10 == 0 || e % 12 == 0 || e % 65536 % 10 == 0 || e % 262144 % 12 == 0)) cb->OnIteration(NL_FORM, &ff.v[e % ff.per], e - 1); }
            for (uint64_t c = n / 65536; c <= m / 65536; c++) cb->checkpoints[c] = ff.at(c * 65536);
            bool ev = n / 65536 != m / 65536; n = m; cb->iterations = n;
            if (fast) for (; submitted <= n; submitted += 32768) fstore->SubmitCheckpoint(ff.at(submitted), submitted);
            else if (ev) event(); };
        auto request = [&](uint64_t it) { reqs.emplace_back(); Rq& r = reqs.back(); r.iters = it; r.th = std::thread([&r, pm] { vcv::self = &r.t; try { r.p = pm->Prove(r.iters); } catch (std::exception& e) { r.err = e.what(); } r.done = true; }); };
        auto find = [&](uint64_t s, uint64_t l) -> ScriptedProver* { for (auto p : reg) if (p->sg.start == s && p->sg.length == l) return p; return nullptr; };
        auto report = [&](const std::string& c, bool q) {
            std::ostringstream o; o << "{\"c\":\"" << c << "\",\"quiet\":" << (q ? 1 : 0);
            { std::lock_guard<std::mutex> lk(reg_m);
              for (int idle = 0; idle < 2; idle++) { o << (idle ? ",\"idle\":[" : ",\"run\":["); bool first = true; for (auto p : reg) if (!p->ended() && p->f_paused == (idle == 1)) { o << (first ? "" : ",") << "[" << p->sg.start / 65536 << "," << p->sg.length / 65536 << "]"; first = false; } o << "]"; }
              o << ",\"odd\":["; for (size_t i = 0; i < oddities.size(); i++) o << (i ? "," : "") << "\"" << oddities[i] << "\""; o << "],\"maxrun\":" << maxrun; oddities.clear(); }
            o << ",\"ans\":["; bool first = true;
            for (auto& r : reqs) if (r.done && !r.told) { r.told = true; std::vector<uint8_t> b = r.p.y; b.insert(b.end(), r.p.proof.begin(), r.p.proof.end()); o << (first ? "" : ",") << "[" << r.iters << "," << (r.err.size() ? -1 : (int)r.p.witness_type) << ",\"" << hexs(b) << "\"]"; first = false; }
            o << "],\"n\":" << n / 65536 << ",\"asked\":["; first = true; for (auto& r : reqs) { o << (first ? "" : ",") << r.iters; first = false; }
            o << "],\"open\":["; first = true; for (auto& r : reqs) if (!r.done) { o << (first ? "" : ",") << r.iters; first = false; }
            o << "],\"sleep\":["; first = true; for (auto& r : reqs) if (!r.done && r.t.quiet == 2) { o << (first ? "" : ",") << r.iters; first = false; }
            o << "]}"; real << o.str() << std::endl; };
        auto finish_all = [&] { std::vector<ScriptedProver*> v; { std::lock_guard<std::mutex> lk(reg_m); for (auto p : reg) if (!p->ended() && !p->f_paused) v.push_back(p); } for (auto p : v) p->finish(false); return v.size(); };
        std::string c; std::mt19937_64 g0(delay * 77 + segs);
        while (is >> c && !stop_hang) {
            uint64_t a = c.size() > 1 ? std::stoull(c.substr(1)) : 0, b = 0, c3 = 0; size_t p = c.find(':'); if (p != std::string::npos) { b = std::stoull(c.substr(p + 1)); p = c.find(':', p + 1); if (p != std::string::npos) c3 = std::stoull(c.substr(p + 1)); }
            bool q = true;
            if (c[0] == 'A') { advance(a); q = settle(20000); }
            else if (c[0] == 'F' || c[0] == 'f') { ScriptedProver* pr; { std::lock_guard<std::mutex> lk(reg_m); pr = find(a, b); } if (!pr || pr->ended() || (!fake && pr->f_paused)) { real << "{\"c\":\"" << c << "\",\"skip\":1}\n"; continue; }
                if (!fake) proved.insert({a, b}); pr->finish(c[0] == 'f'); q = settle(30000); if (fake && c[0] == 'f') { std::lock_guard<std::mutex> lk(reg_m); if ((pr = find(a, b))) pr->f_full = true; } }
            else if (c[0] == 'Q') { request(a); q = settle(20000); }
            else if (c[0] == 'q') { request(a); nap(g0() % 3000 + (delay > 20 ? 15000 : 0)); continue; }
            else if (c[0] == 'T') { vcv::tick(); q = settle(20000); }
            else if (c[0] == 'W') { q = settle(20000); }
            else if (c[0] == 'D') {
                // squaring goes on: everything that is stored gets proved, and new segments keep arriving
                for (int k = 0; k < 6; k++) { for (int i = 0; i < 4000 && (finish_all() || i < 1); i++) { q = settle(30000) && q; { std::lock_guard<std::mutex> lk(reg_m); bool any = false; for (auto p : reg) if (!p->ended()) any = true; if (!any) break; } } vcv::tick(); q = settle(20000) && q;
                    bool open = false; for (auto& r : reqs) if (!r.done && r.iters <= n) open = true; if (!open && k) break; advance((n / 65536 + 1) * 65536); q = settle(20000) && q; }
                while (finish_all()) settle(20000);
            } else if (c[0] == 'S') {
                auto t0 = std::chrono::steady_clock::now(); std::promise<void> pr; auto fu = pr.get_future();
                stopped = true; std::thread st([&] { pm->stop(); pr.set_value(); });
                std::string hang; if (fu.wait_for(std::chrono::seconds(20)) != std::future_status::ready) hang = "manager";
                for (int i = 0; i < 400 && hang.empty(); i++) { vcv::tick(); bool all = true; for (auto& r : reqs) if (!r.done) all = false; if (all) break; nap(50000); if (i == 399) hang = "request"; }
                for (auto& r : reqs) if (!r.done && hang.empty()) hang = "request";
                if (!hang.empty()) { real << "{\"c\":\"S\",\"hang\":\"" << hang << "\"}\n"; stop_hang = true; real.flush(); _exit(7); }
                st.join(); for (auto& r : reqs) r.th.join();
                report(c, true); continue;
            } else if (c[0] == 'R') {
                // everything at once: the loop goes on, provers end and requests arrive at random moments
                std::mt19937_64 g(a); uint64_t total = b * 65536, gap = c3; std::atomic<bool> over{false}; std::vector<uint64_t> want;
                std::thread fin([&] { std::mt19937_64 h(a + 1); while (!over) { ScriptedProver* v = nullptr; { std::lock_guard<std::mutex> lk(reg_m); std::vector<ScriptedProver*> w; for (auto p : reg) if (!p->ended() && !p->f_paused && !p->allowed) w.push_back(p); if (w.size()) { v = w[h() % w.size()]; v->allowed = true; } } if (v) { bool late = h() % 4 == 0; v->finish(late); if (fake && late) { nap(h() % 300); v->f_full = true; } } nap(h() % (gap * 400 + 1)); if (h() % 50 == 0) vcv::tick(); } });
                while (n < total) { advance(n + 1 + g() % (2 * 65536)); if (g() % 3 == 0) request(1 + g() % (total - 1)); nap(g() % (gap * 1000 + 1)); }
                over = true; fin.join(); q = settle(30000);
            }
            if (c[0] != 'S') report(c, q);
        }
        if (!stopped) { stopped = true; pm->stop(); for (int i = 0; i < 400; i++) { vcv::tick(); bool all = true; for (auto& r : reqs) if (!r.done) all = false; if (all) break; nap(20000); if (i == 399) { real << "{\"c\":\"S\",\"hang\":\"request\"}\n"; real.flush(); _exit(7); } } for (auto& r : reqs) r.th.join(); }
        delete pm; delete fstore; delete cb; reqs.clear();
        real << "end" << std::endl;
    }
    _exit(0);
}
