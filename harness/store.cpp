// n-Wesolowski intermediate storage. Line protocol; each run prints records and then "end".
//   run <D> <a,b> <segments> <script> <total> <per batch samples> <seed>          squaring loop stores while squaring
//   fs  <D> <a,b> <segments> <script> <total> <samples> <seed>                    background workers store (FastStorage)
//   deliver <D> <a,b> <segments> <bucket> <first segment> <count> <samples> <seed>   direct deliveries around one range of large segments
//   slots <segments> <D> <a,b> <n> <seed>                                        storage slots of lookups that may be live at once
// records: need bucket start i e a b | cp e a b | slot bucket e pos cap
#include <cstdint>
#include <vector>
#include <string>
#include "vdf.h"
#include "hcommon.h"
#include "ff.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

// what a prover of a segment reads, through the prover's own lookup
struct Look : InterruptableProver {
    Look(Segment s, integer D, FastAlgorithmCallback* w) : InterruptableProver(s, D, w) {}
    uint64_t step() { return (uint64_t)k * l; }
};
static FastAlgorithmCallback* cb; static std::vector<Look*> keep; static integer gD; static form gx; static std::ostream* out;
static Look* look(int bucket, uint64_t start) { return new Look(Segment(start, 1ull << (16 + 2 * bucket), gx, gx), gD, cb); }   // leaked on purpose: never started
static uint64_t nreads(Look* l, int bucket) { return ((1ull << (16 + 2 * bucket)) + l->step() - 1) / l->step(); }
static void need(int bucket, uint64_t start, uint64_t i, uint64_t e, form f) { *out << "need " << bucket << " " << start << " " << i << " " << e << " " << H(f.a) << " " << H(f.b) << "\n"; }

int main() {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode(); fast_algorithm = true;
    std::ostream real(std::cout.rdbuf()); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf()); out = &real;
    std::string line; integer lastD; std::string lastf;
    auto setD = [&](const std::string& Ds, const std::string& fs) {
        gD = I(Ds); gx = F(fs, gD); PulmarkReducer red; red.reduce(gx);
        if (!(lastD == gD) || lastf != fs) ff.init(gD, gx); lastD = gD; lastf = fs; };
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op, Ds, fs, sc; is >> op;
        if (op == "run" || op == "fs") {
            int segments; uint64_t total, samples, seed; is >> Ds >> fs >> segments >> sc >> total >> samples >> seed; setD(Ds, fs); ff.set_script(sc);
            bool multi = op == "fs"; std::mt19937_64 g(seed);
            cb = new FastAlgorithmCallback(segments, gD, gx, multi); chiavdf_verif_fast = ff_fast;
            FastStorage* st = multi ? new FastStorage(cb) : nullptr; integer L = root(-gD, 4);
            std::atomic<bool> stopped{false}; uint64_t done_all = 0, gate = 0;
            // samples: for random buckets and segments whose window has not been passed, powers that a prover reads
            auto sample = [&](uint64_t n, uint64_t count, uint64_t front) {     // powers up to n are stored, nothing after front was written
                for (uint64_t s = 0; s < count && n; s++) {
                    int b = g() % segments; uint64_t len = 1ull << (16 + 2 * b), lo = 0;
                    // e is overwritten when the loop reaches e + W * len
                    uint64_t W = (uint64_t)kWindowSize * len; if (front + 1 > W) lo = front + 1 - W; if (lo > n) continue;
                    uint64_t e0 = lo + g() % (n - lo + 1), start = e0 - e0 % len;
                    if (g() % 4 == 0) { start = (lo + len - 1) / len * len; if (start > n) continue; }         // the oldest one still there
                    static std::map<std::pair<int, uint64_t>, Look*> cache; if (cache.size() > 4000) cache.clear();
                    Look* l = look(b, start);
                    uint64_t hi = n > start + len ? nreads(l, b) - 1 : (n - start) / l->step(); if (start + hi * l->step() > n) continue;
                    uint64_t first = lo > start ? (lo - start + l->step() - 1) / l->step() : 0; if (first > hi) continue;
                    for (uint64_t i : {first, hi, first + g() % (hi - first + 1)}) need(b, start, i, start + i * l->step(), l->GetForm(i));
                    if (g() % 8 == 0 && !multi) { uint64_t c = g() % (n / 65536 + 1); form f = cb->checkpoints[c]; *out << "cp " << c * 65536 << " " << H(f.a) << " " << H(f.b) << "\n"; }
                }
            };
            if (!multi) ff.on_batch = [&](uint64_t base) { sample(base, samples, base); };
            else ff.on_batch = [&](uint64_t base) {
                // everything the storage claims to be finished must be there at once; the loop may run at most half a window ahead
                if (base < gate) return; gate = base + 65536;
                for (;;) { uint64_t fin = st->GetFinishedSegment(); if (fin) sample(fin - 1, samples, base + 65536); if (base < fin + 65536 * (kWindowSize / 2)) break; std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
            };
            repeated_square(total, gx, gD, L, cb, st, stopped);
            if (multi) {
                uint64_t fin = 0, last = (uint64_t)cb->iterations / 65536 * 65536; auto t0 = std::chrono::steady_clock::now();
                last = total / 65536 * 65536;
                while ((fin = st->GetFinishedSegment()) < last && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60)) std::this_thread::sleep_for(std::chrono::milliseconds(20));
                if (fin < last) *out << "note the storage workers finished only " << fin << " of " << last << " iterations\n";
                if (fin) sample(fin - 1, samples * 20, total + 65536);
                for (uint64_t c = 0; c * 65536 <= total; c++) { form f = cb->checkpoints[c]; *out << "cp " << c * 65536 << " " << H(f.a) << " " << H(f.b) << "\n"; }
                // the whole first 2^16 segment
                if (fin >= 65536 && fin <= 65536ull * kWindowSize) { Look* l = look(0, fin - 65536); for (uint64_t i = 0; i < nreads(l, 0); i++) need(0, fin - 65536, i, fin - 65536 + i * l->step(), l->GetForm(i)); }
                auto td = std::chrono::steady_clock::now(); delete st; double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - td).count();
                if (ms > 20000) *out << "note stopping the storage workers took " << ms << " ms\n";
            } else {
                uint64_t n = (uint64_t)cb->iterations;
                // every power of the most recent complete segment of each length
                for (int b = 0; b < segments; b++) { uint64_t len = 1ull << (16 + 2 * b); if (n < len) break; uint64_t start = n / len * len - len; Look* l = look(b, start);
                    uint64_t stride = b == 0 ? 1 : 5; for (uint64_t i = g() % stride; i < nreads(l, b); i += stride) need(b, start, i, start + i * l->step(), l->GetForm(i)); }
            }
            ff.on_batch = nullptr; chiavdf_verif_fast = nullptr; delete cb;
        } else if (op == "deliver") {
            int segments, bucket; uint64_t s0, count, samples, seed; is >> Ds >> fs >> segments >> bucket >> s0 >> count >> samples >> seed; setD(Ds, fs); std::mt19937_64 g(seed);
            cb = new FastAlgorithmCallback(segments, gD, gx, false);
            uint64_t len = 1ull << (16 + 2 * bucket), step = look(bucket, 0)->step();
            // only iterations that are stored for this or a longer segment length are delivered (in increasing order, as the loop does)
            for (uint64_t s = s0; s < s0 + count; s++) {
                for (uint64_t e = s * len; e < (s + 1) * len; e += step) { if (e == 0) continue; uint64_t r = e; cb->OnIteration(NL_FORM, &ff.v[r % ff.per], e - 1); }
                // then lookups in the whole window behind
                for (uint64_t q = 0; q < samples; q++) {
                    uint64_t lo = s + 1 > s0 + kWindowSize ? s + 1 - kWindowSize : s0, seg = lo + g() % (s - lo + 1); if (q < 3) seg = lo;
                    Look* l = look(bucket, seg * len); uint64_t m = nreads(l, bucket), i = q % 5 == 0 ? 0 : q % 5 == 1 ? m - 1 : g() % m; if (seg == 0 && i == 0) continue;
                    need(bucket, seg * len, i, seg * len + i * l->step(), l->GetForm(i));
                }
            }
            delete cb;
        } else if (op == "slots") {
            int segments; uint64_t n, seed; is >> segments >> Ds >> fs >> n >> seed; setD(Ds, fs); std::mt19937_64 g(seed);
            cb = new FastAlgorithmCallback(segments, gD, gx, true);
            for (uint64_t q = 0; q < n; q++) {
                int b = g() % segments; uint64_t len = 1ull << (16 + 2 * b); Look* l = look(b, 0); uint64_t step = l->step();
                // segments of one window, placed anywhere below 2^34 squarings
                static uint64_t w0[16]; if (q == 0) for (int i = 0; i < 16; i++) w0[i] = g() % (1ull << (18 - 2 * (i > 8 ? 8 : i)));
                uint64_t seg = w0[b] + g() % kWindowSize, m = nreads(l, b), i = g() % 3 == 0 ? m - 1 - g() % 3 : g() % 3 == 0 ? g() % 3 : g() % m, e = seg * len + i * step;
                *out << "slot " << b << " " << e << " " << (cb->GetForm(e, b) - cb->forms.get()) << " " << cb->forms_capacity << "\n";
            }
            delete cb;
        }
        real << "end" << std::endl; sink.str("");
    }
    _exit(0);
}
