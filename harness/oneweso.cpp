// Simple (1-Wesolowski) mode end to end: callback storage, squaring loop, proof. One run per input line:
//   <D> <a,b> <T> <script> <stop> <par> <samples> <seed>
//   stop: - | b<n> before batch n | w<ms> after ms milliseconds | p<n> at the n-th read of a stored power while proving | h<ms> none; the loop rests when it has published almost all
//   par 1: prove concurrently with the squaring loop
// output line: {"kl":..,"stored":[[index,a,b]..],"res":[a,b],"proof":hex,"stopped":0/1,"ms":..}
#include <cstdint>
#include <vector>
#include <string>
#include "vdf.h"
#include "hcommon.h"
#include "ff.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

int main() {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode();
    std::ostream real(std::cout.rdbuf()); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
    std::string line; integer lastD; std::string lastf;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string Ds, fs, sc, st; uint64_t T, samples, seed; int par; is >> Ds >> fs >> T >> sc >> st >> par >> samples >> seed;
        integer D = I(Ds); form x = F(fs, D); PulmarkReducer red; form xr = x; red.reduce(xr); integer L = root(-D, 4);
        bool real_pipe = sc == "R";
        if (!real_pipe) { if (!(lastD == D) || lastf != fs) ff.init(D, xr); lastD = D; lastf = fs; ff.set_script(sc); }
        chiavdf_verif_fast = real_pipe ? nullptr : ff_fast;
        std::atomic<bool> stopped{false};
        uint64_t nb = 0, sb = st[0] == 'b' ? std::stoull(st.substr(1)) : ~0ull;         auto t0 = std::chrono::steady_clock::now();
        OneWesolowskiCallback* cb = new OneWesolowskiCallback(D, xr, T);
        uint64_t hold = st[0] == 'h' ? std::stoull(st.substr(1)) : 0;
        ff.on_batch = [&](uint64_t) { if (nb++ == sb) stopped = true; uint64_t p = cb->iterations; if (hold && p < T && p + 40 >= T && nb > 1) std::this_thread::sleep_for(std::chrono::milliseconds(hold)); };
        Proof proof; double ms = -1;
        try {
            std::thread killer, pt;
            auto prove = [&] { integer DD = D; proof = ProveOneWesolowski(T, DD, xr, cb, stopped); };
            if (st[0] == 'w') killer = std::thread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(std::stoull(st.substr(1)))); stopped = true; t0 = std::chrono::steady_clock::now(); });
            if (par) pt = std::thread(prove);
            repeated_square(T, xr, D, L, cb, nullptr, stopped);
            if (!par) prove(); else pt.join();
            if (killer.joinable()) killer.join();
            ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
        } catch (std::exception& e) { real << "throw " << e.what() << std::endl; continue; }
        real << "{\"kl\":" << cb->kl << ",\"stopped\":" << (stopped ? 1 : 0) << ",\"ms\":" << (uint64_t)ms << ",\"pub\":" << (int64_t)cb->iterations << ",\"wt\":" << (int)proof.witness_type << ",\"proof\":\"";
        std::vector<uint8_t> bytes = proof.y; bytes.insert(bytes.end(), proof.proof.begin(), proof.proof.end());
        real << hexs(bytes) << "\",\"stored\":[";
        // every stored power of a short run, a sample of a long one (first and last ones included)
        std::mt19937_64 g(seed); uint64_t n = T / cb->kl + 1; bool first = true;
        if (!stopped) {
            for (uint64_t i = 0, j = 0; i < n && j < samples; j++) {
                const form& f = cb->forms[i]; real << (first ? "" : ",") << "[" << i << ",\"" << H(f.a) << "\",\"" << H(f.b) << "\"]"; first = false;
                if (n <= samples || j < 3) i++; else if (i < n - 3) i = std::min<uint64_t>(n - 3, i + 1 + g() % (2 * n / samples + 1)); else i++;
            }
        }
        real << "],\"res\":[\"" << H(cb->result.a) << "\",\"" << H(cb->result.b) << "\"]}" << std::endl;
        delete cb; sink.str("");
    }
    _exit(0);
}
