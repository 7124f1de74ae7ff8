// Runs the two-thread squaring pipeline under imposed schedules, faults and delays; prints every distinct outcome of a set of runs.
// usage: pipe <out.ndjson>; commands on stdin: <D> <a,b> <iters> <mode> <args...>
//   seq                    the same phases in one thread
//   one <stride>           every schedule with a single preemption (at every stride-th point), both starting threads
//   two <n> <seed>         n schedules with two or three preemptions at random points
//   rand <n> <seed> <pm>   n schedules switching at each point with probability pm/1000
//   bits <01...>           the schedule: at each point the thread that goes on
//   fault <n> <seed> <pm>  random schedule and a failing synchronisation point
//   delay <n> <seed> <ns>  free running with random delays
//   value <n> <seed>       free running with one corrupted intermediate value
#include <cstdint>
#include <vector>
#include <string>
#include <map>
#include "vdf.h"
#include "hcommon.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng { uint64_t s; uint64_t operator()() { return mix(s++); } };

// ---- token scheduler: one thread runs at a time, switching only at synchronisation points
static std::atomic<int> turn{0};                 // 0 master, 1 slave
static std::atomic<bool> gone[2];
static std::atomic<uint64_t> seen[2];
static std::atomic<uint64_t> points{0};          // points passed in this run
static std::function<bool(uint64_t, bool)> decide;   // (point, is_slave) -> switch to the other thread?
static std::atomic<uint64_t> fault_at{~0ull};
static uint64_t iters_run, last_slave_value;
static std::atomic<bool> failed{false};

static void wait_turn(int me) {
    // hand-over normally takes a moment; a thread that ended without a word is noticed after a pause
    uint64_t n = 0, other_seen = seen[1 - me]; auto t0 = std::chrono::steady_clock::now();
    while (turn != me) {
        if (gone[1 - me]) { turn = me; break; }
        if (++n % 64 == 0) {
            std::this_thread::yield();
            if (seen[1 - me] != other_seen) { other_seen = seen[1 - me]; t0 = std::chrono::steady_clock::now(); }
            if (failed && std::chrono::steady_clock::now() - t0 > std::chrono::microseconds(200)) { turn = me; break; }
            if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(20)) { turn = me; break; }
        }
    }
}
static bool token_hook(bool is_slave, int kind, uint64 value) {
    int me = is_slave; seen[me]++;
    wait_turn(me);
    bool ok = true;
    if (kind == 1) { turn = 1 - me; wait_turn(me); return true; }     // nothing to do but wait: the other one goes on
    uint64_t p = points++;
    if (decide(p, is_slave)) { turn = 1 - me; wait_turn(me); }
    if (p == fault_at) { ok = false; failed = true; }
    if (is_slave && kind == 2 && value == last_slave_value) { gone[1] = true; }   // the slave has nothing left to synchronise
    return ok;
}
static std::atomic<uint64_t> dctr{0}; static uint64_t dmax, dseed;
static bool delay_hook(bool is_slave, int kind, uint64) {
    if (kind == 1) { return true; }
    uint64_t r = mix(dseed ^ mix(dctr++)); points++;
    if (r % 8 == 0) { auto t = std::chrono::steady_clock::now() + std::chrono::nanoseconds((r >> 8) % dmax); while (std::chrono::steady_clock::now() < t); }
    return true;
}
static std::atomic<uint64_t> vctr{0}; static uint64_t vat, vseed;
static void value_hook(mpz_struct* z) {
    uint64_t p = vctr++; if (p != vat || mpz_sgn(z) <= 0) return;
    uint64_t n = mpz_sizeinbase(z, 2); mp_bitcnt_t b = mpz_scan1(z, mix(vseed) % n); if (b < n) mpz_clrbit(z, b);
}

static PulmarkReducer* red;
struct Lis : INUDUPLListener {
    std::string forms; uint64_t n = 0, base = 0; bool order = true; WesolowskiCallback* w; uint64_t total;
    void OnIteration(int type, void* data, uint64_t it) override {
        if (it != base + n) order = false; n++;
        form f; w->SetForm(type, data, &f); red->reduce(f);
        forms += (n == 1 ? "" : ",") + ("[\"" + H(f.a) + "\",\"" + H(f.b) + "\"]");
        if (n == total) gone[0] = true;
    }
};

int main(int argc, char** argv) {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode();
    FILE* out = fopen(argv[1], "w");
    red = new PulmarkReducer();
    static square_state_type st;
    std::string line; uint64_t seqn = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string Ds, fs, mode; uint64_t iters; is >> Ds >> fs >> iters >> mode;
        integer D = I(Ds), L = root(-D, 4); form x = F(fs, D); std::vector<uint64_t> arg; std::string bits;
        if (mode == "bits") is >> bits; else { uint64_t v; while (is >> v) arg.push_back(v); }
        WesolowskiCallback* cb; struct PC : WesolowskiCallback { using WesolowskiCallback::WesolowskiCallback; void OnIteration(int, void*, uint64_t) override {} }; PC pc(D); cb = &pc;
        std::map<std::string, uint64_t> outcomes; uint64_t npoints = 0, total = 0, hits = 0;
        auto run = [&](bool single, bool must) {
            form f = x; Lis l; l.w = cb; l.total = iters; l.base = 1000; st.pairindex = 0;
            points = 0; gone[0] = gone[1] = false; seen[0] = seen[1] = 0; failed = false; iters_run = iters;
            last_slave_value = (iters - 1) * square_state_type::counter_end + square_state_type::counter_start_phase_4;
            uint64 res = single ? repeated_square_fast_single_thread(st, f, D, L, l.base, iters, &l) : repeated_square_fast_multithread(st, f, D, L, l.base, iters, &l);
            npoints = points;
            std::string o = "\"n\":" + (res == ~uint64(0) ? std::string("-1") : std::to_string(res)) + ",\"lis\":" + std::to_string(l.order ? (long)l.n : -1) + ",\"f\":[\"" + H(f.a) + "\",\"" + H(f.b) +
                "\",\"" + H(f.c) + "\"],\"lf\":[" + l.forms + "],\"must\":" + (must ? "true" : "false");
            outcomes[o]++; total++;
            if (getenv("PIPE_LOG")) fprintf(stderr, "%s points %lu res %ld\n", mode.c_str(), npoints, (long)res);
            return res;
        };
        chiavdf_verif_sync = nullptr; chiavdf_verif_value = nullptr; fault_at = ~0ull;
        if (mode == "seq") { seqn = run(true, false); }
        else if (mode == "one") {
            chiavdf_verif_sync = token_hook;
            for (int start = 0; start < 2; start++) {
                uint64_t n = 1;
                for (uint64_t p = 0; p < n; p += arg[0]) { turn = start; decide = [&](uint64_t q, bool) { return q == p; }; run(false, true); n = npoints; hits++; }
            }
        } else if (mode == "pair") {          // every schedule with exactly two preemptions, the second one within a window of the first
            chiavdf_verif_sync = token_hook;
            for (int start = 0; start < 2; start++) {
                uint64_t n = 1;
                for (uint64_t p = 0; p < n; p += arg[0]) for (uint64_t r = p + 1; r < n + 1 && r <= p + arg[1]; r++) {
                    turn = start; decide = [&](uint64_t q, bool) { return q == p || q == r; }; run(false, true); n = npoints; hits++; }
            }
        } else if (mode == "two") {
            chiavdf_verif_sync = token_hook; Rng g{mix(arg[1])}; uint64_t n = 60 * iters;
            for (uint64_t i = 0; i < arg[0]; i++) {
                uint64_t a = g() % n, b = g() % n, c = g() % 3 == 0 ? g() % n : a; turn = g() % 2;
                decide = [=](uint64_t q, bool) { return q == a || q == b || q == c; }; run(false, true); n = std::max<uint64_t>(npoints, 1); }
        } else if (mode == "rand") {
            chiavdf_verif_sync = token_hook; Rng g{mix(arg[1])};
            for (uint64_t i = 0; i < arg[0]; i++) { uint64_t k = g(), pm = arg[2]; turn = g() % 2; decide = [=](uint64_t q, bool) { return mix(k + q) % 1000 < pm; }; run(false, true); }
        } else if (mode == "bits") {
            chiavdf_verif_sync = token_hook; turn = bits[0] - '0';
            decide = [=](uint64_t q, bool s) { return bits[q % bits.size()] - '0' != (int)s; }; run(false, true);
        } else if (mode == "fault") {
            chiavdf_verif_sync = token_hook; Rng g{mix(arg[1])}; uint64_t n = 60 * iters, k0 = 0;
            for (uint64_t i = 0; i < arg[0]; i++) {
                uint64_t k = g(), pm = arg[2]; turn = g() % 2; fault_at = ~0ull; decide = [=](uint64_t q, bool) { return mix(k + q) % 1000 < pm; };
                fault_at = g() % n; run(false, false); if (npoints > n) n = npoints; if (failed) hits++; }
        } else if (mode == "delay") {
            chiavdf_verif_sync = delay_hook; dseed = mix(arg[1]); dmax = arg[2];
            for (uint64_t i = 0; i < arg[0]; i++) run(false, false);
        } else if (mode == "value") {
            chiavdf_verif_value = value_hook; Rng g{mix(arg[1])}; uint64_t n = 11 * iters;
            for (uint64_t i = 0; i < arg[0]; i++) { vctr = 0; vat = g() % n; vseed = g(); run(false, false); }
        }
        chiavdf_verif_sync = nullptr; chiavdf_verif_value = nullptr;
        for (auto& o : outcomes)
            fprintf(out, "{\"e\":\"%s\",\"D\":\"%s\",\"x\":[\"%s\",\"%s\",\"%s\"],\"iters\":%lu,\"seqn\":%lu,%s,\"times\":%lu,\"points\":%lu,\"hits\":%lu}\n", mode.c_str(), Ds.c_str(), H(x.a).c_str(), H(x.b).c_str(), H(x.c).c_str(),
                    iters, seqn, o.first.c_str(), o.second, npoints, hits);
        fflush(out);
    }
    fclose(out);
    _exit(0);
}
