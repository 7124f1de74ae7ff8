// Runs every witness generator of the repository on scripted segments. Line protocol, one reply per line:
//   seq D a,b T k l stop      sequential generator (Prover) on the powers of (a,b); stop<0: never, else stop at that extra step
//   par D a,b T k l stop      two-part generator (ParallelProver)
//   one D a,b T stop          OneWesolowskiProver (simple mode parameters)
//   two D a,b start T stop    TwoWesolowskiProver on a TwoWesolowskiCallback (squarings stored from 0 to start+T)
//   int D a,b start T pauses stop   InterruptableProver on a FastAlgorithmCallback; pauses = comma list of read numbers or "-"
// reply: <xa,xb> <finished> <pa,pb> <disc ok> [notes]
#include <cstdint>
#include <vector>
#include <string>
#include "vdf.h"
#include "hcommon.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

static std::atomic<uint64_t> steps;
static int64_t stop_at = -1;
static bool extra() { uint64_t s = steps++; return stop_at < 0 || (int64_t)s < stop_at; }

template <class Base> struct Scripted : Base {
    std::vector<form>* st;
    Scripted(Segment s, integer D, uint32_t kk, uint32_t ll, std::vector<form>* st) : Base(s, D), st(st) { this->k = kk; this->l = ll; }
    form GetForm(uint64_t i) { return st->at(i); }
    void start() { this->GenerateProof(); }
    void stop() {}
    bool PerformExtraStep() { return extra(); }
    void OnFinish() { this->is_finished = true; }
};

struct One : OneWesolowskiProver {
    One(Segment s, integer D, form* f, std::atomic<bool>& st) : OneWesolowskiProver(s, D, f, st), sig(st) {}
    uint64_t step() { return (uint64_t)k * l; }
    std::atomic<bool>& sig; uint64_t n = 0;
    form GetForm(uint64_t i) { if (stop_at >= 0 && (int64_t)n++ == stop_at) sig = true; return OneWesolowskiProver::GetForm(i); }
};

struct Two : TwoWesolowskiProver {
    Two(Segment s, integer D, TwoWesolowskiCallback* w, std::atomic<bool>& st) : TwoWesolowskiProver(s, D, w, st), sig(st) {}
    std::atomic<bool>& sig; uint64_t n = 0;
    form GetForm(uint64_t i) { if (stop_at >= 0 && (int64_t)n++ == stop_at) sig = true; return TwoWesolowskiProver::GetForm(i); }
};

struct Intr : InterruptableProver {
    std::vector<uint64_t> pauses; std::atomic<uint64_t> reads{0}; std::atomic<bool> held{false}; std::atomic<bool> stopreq{false};
    size_t next = 0;
    Intr(Segment s, integer D, FastAlgorithmCallback* w) : InterruptableProver(s, D, w) {}
    form GetForm(uint64_t i) {
        uint64_t r = reads++;
        if (stop_at >= 0 && (int64_t)r == stop_at) { stopreq = true; }
        if (next < pauses.size() && pauses[next] == r) { next++; pause(); held = true; }
        return InterruptableProver::GetForm(i);
    }
};

static std::string rep(const form& x, bool fin, form p, const integer& D, const std::string& note = "") {
    bool ok = !fin || (p.b * p.b - (p.a * p.c << 2) == D);
    return FS(x) + " " + (fin ? "1" : "0") + " " + (fin ? FS(p) : "-") + " " + (ok ? "1" : "0") + (note.empty() ? "" : " " + note);
}

int main() {
    std::streambuf* real = std::cout.rdbuf();
    std::ostream out(real);
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    std::string line;
    TwoWesolowskiCallback* two = nullptr;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string op, Ds, fs; is >> op >> Ds >> fs;
        std::string res;
        sink.str("");
        try {
            integer D = I(Ds); form f = F(fs, D);
            integer L = root(-D, 4);
            PulmarkReducer red;
            steps = 0;
            auto sq = [&](form& g) { nudupl_form(g, g, D, L); red.reduce(g); };
            if (op == "seq" || op == "par") {
                uint64_t T; uint32_t k, l; is >> T >> k >> l >> stop_at;
                std::vector<form> st; form y = f;
                for (uint64_t i = 0; i < T; i++) { if (i % ((uint64_t)k * l) == 0) st.push_back(y); sq(y); }
                Segment s(0, T, f, y);
                if (op == "seq") { Scripted<Prover> p(s, D, k, l, &st); p.start(); res = rep(f, p.IsFinished(), p.GetProof(), D); }
                else { Scripted<ParallelProver> p(s, D, k, l, &st); p.start(); res = rep(f, p.IsFinished(), p.GetProof(), D); }
            } else if (op == "one") {
                uint64_t T; is >> T >> stop_at;
                std::atomic<bool> sig{false}; uint64_t step;
                { Segment s0(0, T, f, f); One q(s0, D, nullptr, sig); step = q.step(); }
                std::vector<form> st; form y = f;
                for (uint64_t i = 0; i < T; i++) { if (i % step == 0) st.push_back(y); sq(y); }
                Segment s(0, T, f, y);
                One p(s, D, st.data(), sig); p.start();
                res = rep(f, p.IsFinished(), p.GetProof(), D);
            } else if (op == "two") {
                uint64_t start, T; is >> start >> T >> stop_at;
                if (two) delete two;
                two = new TwoWesolowskiCallback(D, f);
                std::atomic<bool> sig{false};
                form y = f, x = f; vdf_original::form v;
                for (uint64_t i = 0; i < start + T; i++) {
                    sq(y);
                    v.a[0] = y.a.impl[0]; v.b[0] = y.b.impl[0]; v.c[0] = y.c.impl[0];
                    two->OnIteration(NL_FORM, &v, i);
                    if (i + 1 == start) x = y;
                }
                Segment s(start, T, x, y);
                Two p(s, D, two, sig);
                p.start(); p.stop();
                res = rep(x, p.IsFinished(), p.GetProof(), D);
            } else if (op == "int") {
                uint64_t start, T; std::string ps; is >> start >> T >> ps >> stop_at;
                int segs = 1; while ((1ull << (16 + 2 * (segs - 1))) < T) segs++;
                FastAlgorithmCallback w(segs, D, f, false);
                form y = f, x = f; vdf_original::form v;
                for (uint64_t i = 0; i < start + T; i++) {
                    sq(y);
                    v.a[0] = y.a.impl[0]; v.b[0] = y.b.impl[0]; v.c[0] = y.c.impl[0];
                    w.OnIteration(NL_FORM, &v, i);
                    if (i + 1 == start) x = y;
                }
                Segment s(start, T, x, y);
                Intr p(s, D, &w);
                if (ps != "-") { std::stringstream ss(ps); std::string t; while (std::getline(ss, t, ',')) p.pauses.push_back(std::stoull(t)); }
                { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = false; }
                std::string note;
                bool stopped = false;
                p.start();
                for (;;) {
                    if (p.stopreq) { p.stop(); stopped = true; break; }
                    if (p.IsFullyFinished()) break;
                    if (p.held) {
                        // let it settle, then it must make no progress while paused
                        usleep(2000); uint64_t a = p.reads; usleep(15000); uint64_t b = p.reads;
                        if (a != b) note = "progress-while-paused";
                        if (p.IsRunning()) note = "paused-reported-running";
                        p.held = false;
                        p.resume();
                        if (!p.IsRunning()) note = "resumed-reported-paused";
                    } else usleep(200);
                }
                if (stopped) res = rep(x, false, f, D, note);
                else {
                    form pr = p.GetProof(); bool fin = p.IsFinished();
                    { std::lock_guard<std::mutex> lk(new_event_mutex); if (!new_event) note += ",finish-not-signalled"; }
                    res = rep(x, fin, pr, D, note);
                    if (0) p.stop();
                }
            } else res = "throw unknown";
        } catch (std::exception& e) { res = std::string("throw ") + e.what(); }
        out << res << std::endl;
    }
    std::cout.rdbuf(real);
    _exit(0);
}
