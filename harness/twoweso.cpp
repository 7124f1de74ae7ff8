// 2-Wesolowski mode: storage with growing stride, squaring loop, proofs. One run per input line:
//   <D> <a,b> <limit> <script> <samples> <seed> <requests>
//   limit: the loop is stopped when a batch begins at or after it (0: only by itself)
//   requests: - or comma list of <iters>[@<base>[h<ms>][s<ms>]]: asked when a batch begins at or after base (the loop is then held for h ms);
//             with s it is stopped after that many ms
// records: need e a b | proof iters hex | stopped iters ms hex | bad text ; then "end <iterations>"
#include <cstdint>
#include <vector>
#include <list>
#include <string>
#include "vdf.h"
#include "verifier.h"
#include "hcommon.h"
#include "ff.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

struct Req { uint64_t iters = 0, base = 0, hold = 0, stopms = ~0ull; std::thread th, killer; std::atomic<bool> stop{false}; Proof p; double ms = 0; bool started = false; std::string err; };

int main() {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode(); two_weso = true;
    std::ostream real(std::cout.rdbuf()); std::ostringstream sink; std::cout.rdbuf(nullptr);
    std::string line; integer lastD; std::string lastf;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string Ds, fs, sc, rq; uint64_t limit, samples, seed; is >> Ds >> fs >> limit >> sc >> samples >> seed >> rq;
        integer D = I(Ds); form x = F(fs, D); PulmarkReducer red; red.reduce(x); integer L = root(-D, 4);
        if (!(lastD == D) || lastf != fs) ff.init(D, x); lastD = D; lastf = fs; ff.set_script(sc);
        chiavdf_verif_fast = ff_fast;
        std::list<Req> reqs;
        if (rq != "-") { std::stringstream ss(rq); std::string t; while (std::getline(ss, t, ',')) { reqs.emplace_back(); Req& r = reqs.back(); size_t n; r.iters = std::stoull(t, &n);
            while (n < t.size()) { char c = t[n]; size_t m; uint64_t v = std::stoull(t.substr(n + 1), &m); n += 1 + m; if (c == '@') r.base = v; else if (c == 'h') r.hold = v; else r.stopms = v; } } }
        std::atomic<bool> stopped{false}, over{false};
        TwoWesolowskiCallback* cb = new TwoWesolowskiCallback(D, x);
        auto start = [&](Req& r) { r.started = true;
            r.th = std::thread([&] { integer DD = D; try { r.p = ProveTwoWeso(DD, x, r.iters, 0, cb, 0, r.stop); } catch (std::exception& e) { r.err = e.what(); } });
            if (r.stopms != ~0ull) r.killer = std::thread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(r.stopms)); auto t0 = std::chrono::steady_clock::now(); r.stop = true; r.th.join(); r.ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count(); }); };
        ff.on_batch = [&](uint64_t base) {
            for (auto& r : reqs) if (!r.started && base >= r.base) { start(r); if (r.hold) std::this_thread::sleep_for(std::chrono::milliseconds(r.hold)); }
            if ((limit && base >= limit) || base > 900000000) stopped = true;
        };
        // a reader that looks powers up all the time, among them the most recent ones
        std::vector<std::pair<uint64_t, form>> seen; std::string rerr;
        auto look = [&](std::mt19937_64& g) {
            uint64_t n = (int64_t)cb->iterations, p;
            switch (g() % 5) { case 0: p = n; break; case 1: p = n - std::min<uint64_t>(n, g() % 2000); break; case 2: p = std::min<uint64_t>(n, 90990000 + g() % 200000); break; default: p = n ? g() % n : 0; }
            p -= p % (p < 91000000 && g() % 2 ? 10 : 100);
            if (g() % 20 == 0 && p < 91000000) p -= p % 1000;
            seen.emplace_back(p, cb->GetFormCopy(p));
        };
        std::thread reader([&] { std::mt19937_64 g(seed); try { for (uint64_t i = 0; i < samples && !over; i++) { look(g); if (i > samples / 4) std::this_thread::sleep_for(std::chrono::microseconds(200)); } } catch (std::exception& e) { rerr = e.what(); } });
        std::string lerr;
        try { repeated_square(0, x, D, L, cb, nullptr, stopped); } catch (std::exception& e) { lerr = e.what(); }
        over = true; reader.join();
        for (auto& r : reqs) if (!r.started && r.base == ~0ull) start(r);
        for (auto& r : reqs) { if (r.killer.joinable()) r.killer.join(); else if (r.th.joinable()) { if (r.iters > (uint64_t)cb->iterations) r.stop = true; r.th.join(); } }
        if (lerr.size()) real << "bad squaring loop: " << lerr << "\n";
        if (rerr.size()) real << "bad lookup: " << rerr << "\n";
        std::mt19937_64 g(seed + 1); try { for (uint64_t i = 0; i < samples; i++) look(g); } catch (std::exception& e) { real << "bad lookup: " << e.what() << "\n"; }
        for (auto& s : seen) { real << "need " << s.first << " " << H(s.second.a) << " " << H(s.second.b) << "\n"; }
        for (auto& r : reqs) if (r.started) {
            if (r.err.size()) { real << "bad request " << r.iters << ": " << r.err << "\n"; continue; }
            std::vector<uint8_t> b = r.p.y; b.insert(b.end(), r.p.proof.begin(), r.p.proof.end());
            if (r.stop) { real << "stopped " << r.iters << " " << (uint64_t)r.ms << " -" << hexs(b) << "\n"; continue; }
            std::vector<uint8_t> xs = SerializeForm(x, D.num_bits());
            integer DD = D; bool ok = CheckProofOfTimeNWesolowski(DD, xs.data(), b.data(), b.size(), r.iters, D.num_bits(), 2);
            real << "proof " << r.iters << " " << (int)r.p.witness_type << " " << (ok ? 1 : 0) << " " << hexs(b) << "\n";
        }
        real << "end " << (int64_t)cb->iterations << std::endl;
        delete cb;
    }
    _exit(0);
}
