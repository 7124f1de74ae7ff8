// Drives repeated_square() (the squaring loop) with scripted or faulted fast batches and records every observable.
// usage: loop <out.ndjson>, runs on stdin, one per line: <mode plain|nweso> <D> <a,b> <requested> <script> <stop> <every> <seed>
//   script: comma list, last entry repeats: C complete; E<p> stop early after p permille of the batch; e<n> after n; X<p> report corruption after
//           p permille deliveries of which the later ones are wrong; R real pipeline; S<ppm> real pipeline with failing synchronisation points;
//           V<ppm> real pipeline with faulty intermediate values
//   stop:   n = request stop when iteration n is delivered; c<n> = during the n-th batch call; - = never
#include <cstdint>
#include <vector>
#include <string>
#include "vdf.h"
#include "hcommon.h"
#include <unistd.h>
int gcd_base_bits = 50;
int gcd_128_max_iter = 3;

static FILE* out;
static std::atomic<bool> stopped{false};
static uint64_t every, after, batch_no, stop_iter = 0, stop_call = 0, requested;
static std::string script_s; static std::vector<std::string> script;
static WesolowskiCallback* cb; static PulmarkReducer* red;
static uint64_t rs = 1, fresh = 0;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static std::atomic<uint64_t> ppm_sync{0}, ppm_val{0}; static std::atomic<uint64_t> ctr{1};
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static uint64_t r_from = 0, r_to = 0, r_pub = 0;      // consecutive notifications recorded without their form
static void flush_range() { if (r_from) { fprintf(out, "{\"e\":\"its\",\"i\":%lu,\"j\":%lu,\"pub\":%lu}\n", r_from, r_to, r_pub); r_from = 0; } }
static uint64_t pubd() { return (uint64_t)cb->iterations; }
static void emit_it(uint64_t i, const form& f0, bool force) {
    // forms are recorded for every `every`-th iteration and the first ones of a run; the number of the iteration always
    if (force || i % every == 0) {
        flush_range();
        form f = f0; red->reduce(f); fprintf(out, "{\"e\":\"it\",\"i\":%lu,\"f\":[\"%s\",\"%s\"],\"pub\":%lu}\n", i, H(f.a).c_str(), H(f.b).c_str(), pubd()); return; }
    if (r_from && (r_to + 1 != i || r_pub != pubd())) flush_range();
    if (!r_from) { r_from = i; r_pub = pubd(); }
    r_to = i;
}
static void seen(WesolowskiCallback* self, int type, void* data, uint64_t iteration) {
    uint64_t i = iteration + 1;
    form f; self->SetForm(type, data, &f);
    emit_it(i, f, i < 4 || i < fresh + 3);
    if (stop_iter && i == stop_iter && !stopped) { stopped = true; flush_range(); fprintf(out, "{\"e\":\"stop\"}\n"); }
}
struct Plain : WesolowskiCallback { using WesolowskiCallback::WesolowskiCallback; void OnIteration(int t, void* d, uint64_t i) override { seen(this, t, d, i); } };
struct NW : FastAlgorithmCallback { using FastAlgorithmCallback::FastAlgorithmCallback;
    void OnIteration(int t, void* d, uint64_t i) override { FastAlgorithmCallback::OnIteration(t, d, i); seen(this, t, d, i); } };

static bool sync_hook(bool, int, uint64) { return mix(ctr++ + rs) % 1000000 >= ppm_sync; }
static void value_hook(mpz_struct* z) {
    if (mix(ctr++ * 7 + rs) % 1000000 >= ppm_val || mpz_sgn(z) == 0) return;
    // clear one set bit: sizes and the ordering of the gcd operands stay as the code assumes
    uint64_t n = mpz_sizeinbase(z, 2), p = mix(ctr++) % n;
    mp_bitcnt_t b = mpz_scan1(z, p); if (mpz_sgn(z) < 0) return;
    if (b < n) mpz_clrbit(z, b);
}

static uint64 fast(square_state_type& st, form& f, const integer& D, const integer& L, uint64 base, uint64 n, INUDUPLListener* l) {
    form r = f; red->reduce(r); flush_range(); fresh = base;
    fprintf(out, "{\"e\":\"call\",\"base\":%lu,\"n\":%lu,\"f\":[\"%s\",\"%s\"],\"pub\":%lu}\n", base, n, H(r.a).c_str(), H(r.b).c_str(), (uint64_t)cb->iterations);
    // far beyond where it had to end, or no headway at all
    if (batch_no > base + 5 || (requested && base > requested + 200000) || (stop_iter && base > stop_iter + 200000) || (stopped && ++after > 5)) {
        fprintf(out, "{\"e\":\"runaway\"}\n"); fclose(out); _exit(0); }
    std::string s = script[std::min<size_t>(batch_no, script.size() - 1)];
    batch_no++;
    if (stop_call && batch_no == stop_call && !stopped) { stopped = true; flush_range(); fprintf(out, "{\"e\":\"stop\"}\n"); }
    uint64_t arg = s.size() > 1 ? std::stoull(s.substr(1)) : 0, res;
    auto run = [&](uint64_t cnt, bool bogus_tail, uint64_t from) {
        vdf_original::form v; form g = f;
        for (uint64_t i = 0; i < cnt; i++) {
            nudupl_form(g, g, D, const_cast<integer&>(L)); if (i % 3 == 2 || g.a.impl->_mp_size > 8) red->reduce(g);
            form d = g; if (bogus_tail && i >= from) { d = form::generator(D); }
            v.a[0] = d.a.impl[0]; v.b[0] = d.b.impl[0]; v.c[0] = d.c.impl[0];
            if (l) l->OnIteration(NL_FORM, &v, base + i);
        }
        if (!bogus_tail) f = g;
    };
    switch (s[0]) {
        case 'C': run(n, false, 0); res = n; break;
        case 'E': res = n * arg / 1000; if (res >= n) res = n - 1; run(res, false, 0); break;
        case 'e': res = std::min<uint64_t>(arg, n - 1); run(res, false, 0); break;
        case 'X': { uint64_t c = n * arg / 1000; run(c, true, c - c / 3); res = ~uint64(0); break; }
        default: {
            ppm_sync = s[0] == 'S' ? arg : 0; ppm_val = s[0] == 'V' ? arg : 0;
            chiavdf_verif_sync = s[0] == 'S' ? sync_hook : nullptr; chiavdf_verif_value = s[0] == 'V' ? value_hook : nullptr;
            auto me = chiavdf_verif_fast; chiavdf_verif_fast = nullptr;
            res = repeated_square_fast(st, f, D, L, base, n, l);
            chiavdf_verif_fast = me; chiavdf_verif_sync = nullptr; chiavdf_verif_value = nullptr;
        }
    }
    flush_range();
    fresh = res == ~uint64(0) ? base : base + res;
    if (res == ~uint64(0)) fprintf(out, "{\"e\":\"ret\",\"n\":-1}\n"); else fprintf(out, "{\"e\":\"ret\",\"n\":%lu}\n", res);
    return res;
}

int main(int argc, char** argv) {
    init_gmp();
    if (hasAVX2()) { gcd_base_bits = 63; gcd_128_max_iter = 2; }
    set_rounding_mode();
    std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
    out = fopen(argv[1], "w");
    red = new PulmarkReducer();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string mode, Ds, fs, sc, st; uint64_t seed; is >> mode >> Ds >> fs >> requested >> sc >> st >> every >> seed;
        integer D = I(Ds); form f = F(fs, D); script.clear(); stop_call = stop_iter = batch_no = 0; stopped = false; fresh = after = 0; r_from = 0;
        { std::stringstream ss(sc); std::string t; while (std::getline(ss, t, ',')) script.push_back(t); }
        if (st[0] == 'c') stop_call = std::stoull(st.substr(1)); else if (st[0] != '-') stop_iter = std::stoull(st);
        rs = seed * 2654435761u + 88172645463325252ull; ctr = rnd();
        integer L = root(-D, 4);
        fast_algorithm = mode == "nweso";
        if (fast_algorithm) cb = new NW(1, D, f, false); else cb = new Plain(D);
        form x = f; red->reduce(x);
        fprintf(out, "{\"e\":\"start\",\"D\":\"%s\",\"x\":[\"%s\",\"%s\"],\"req\":%lu,\"run\":\"%s %s\"}\n", Ds.c_str(), H(x.a).c_str(), H(x.b).c_str(), requested, sc.c_str(), st.c_str());
        chiavdf_verif_fast = fast;
        repeated_square(requested, f, D, L, cb, nullptr, stopped);
        flush_range();
        fprintf(out, "{\"e\":\"end\",\"pub\":%lu}\n", pubd());
        fflush(out);
        delete cb;
        sink.str("");
    }
    fclose(out);
    _exit(0);
}
