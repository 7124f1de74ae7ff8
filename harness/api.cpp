// Line-protocol driver of the verifier / slow-prover / group layer: one operation per input line, one reply line.
#include "include.h"
#include "verifier.h"
#include "prover_slow.h"
#include "vdf_original.h"
#include "alloc.hpp"
#include "hcommon.h"
#include <thread>
#include <atomic>

static std::string full(const form& f, const integer& D) {   // a,b and whether c is consistent
    integer d = f.b * f.b - integer(4) * f.a * f.c;
    return FS(f) + (d == D ? " ok" : " badc"); }

static std::string run(const std::string& line) {
    std::istringstream in(line); std::string op; in >> op;
    auto tok = [&]() { std::string s; in >> s; return s; };
    try {
        if (op == "nucomp") { integer D = I(tok()); form f = F(tok(), D), g = F(tok(), D), r; integer L = root(-D, 4); nucomp_form(r, f, g, D, L); return full(r, D); }
        if (op == "nucompa") { integer D = I(tok()); form f = F(tok(), D), g = F(tok(), D); integer L = root(-D, 4); nucomp_form(f, f, g, D, L); return full(f, D); }
        if (op == "nucompb") { integer D = I(tok()); form f = F(tok(), D), g = F(tok(), D); integer L = root(-D, 4); nucomp_form(g, f, g, D, L); return full(g, D); }
        if (op == "nudupl") { integer D = I(tok()); form f = F(tok(), D), r; integer L = root(-D, 4); nudupl_form(r, f, D, L); return full(r, D); }
        if (op == "nudupla") { integer D = I(tok()); form f = F(tok(), D); integer L = root(-D, 4); nudupl_form(f, f, D, L); return full(f, D); }
        if (op == "mul") { integer D = I(tok()); form f = F(tok(), D), g = F(tok(), D); form r = f * g; return full(r, D); }
        if (op == "square") { integer D = I(tok()); form f = F(tok(), D); form r = square(f); return full(r, D); }
        if (op == "pulmark") { integer D = I(tok()); form f = F(tok(), D); PulmarkReducer red; red.reduce(f); return full(f, D); }
        if (op == "reduce") { integer D = I(tok()); form f = F(tok(), D); f.reduce(); return full(f, D) + (f.is_reduced() ? " red" : " unred"); }
        if (op == "isred") { integer D = I(tok()); form f = F(tok(), D); return f.is_reduced() ? "1" : "0"; }
        if (op == "inverse") { integer D = I(tok()); form f = F(tok(), D); form r = f.inverse(); return full(r, D); }
        if (op == "pow") { integer D = I(tok()); form f = F(tok(), D); integer e = I(tok()); integer L = root(-D, 4); PulmarkReducer red; form r = FastPowFormNucomp(f, D, e, L, red); return full(r, D); }
        if (op == "orig") { // n squarings with the reference implementation
            integer D = I(tok()); form f = F(tok(), D); int n = std::stoi(tok()); vdf_original v; vdf_original::form w, *p; mpz_init_set(w.a, f.a.impl); mpz_init_set(w.b, f.b.impl); mpz_init_set(w.c, f.c.impl); p = &w;
            for (int i = 0; i < n; i++) p = v.square(*p);
            form r; mpz_set(r.a.impl, p->a); mpz_set(r.b.impl, p->b); mpz_set(r.c.impl, p->c); return full(r, D); }
        if (op == "chain") { // n squarings nudupl + reducer, unreduced input carried
            integer D = I(tok()); form f = F(tok(), D); int n = std::stoi(tok()); int every = std::stoi(tok()); integer L = root(-D, 4); PulmarkReducer red;
            for (int i = 0; i < n; i++) { nudupl_form(f, f, D, L); if ((i + 1) % every == 0) red.reduce(f); }
            red.reduce(f); return full(f, D); }
        if (op == "fastpow") { uint64_t b = std::stoull(tok()), e = std::stoull(tok(), nullptr, 16); integer m = I(tok()); return H(FastPow(b, e, m)); }
        if (op == "ser") { integer D = I(tok()); form f = F(tok(), D); return hexs(SerializeForm(f, D.num_bits())); }
        if (op == "serbits") { integer D = I(tok()); form f = F(tok(), D); size_t bits = std::stoul(tok()); std::vector<uint8_t> o(BQFC_FORM_SIZE); int r = bqfc_serialize(o.data(), f.a.impl, f.b.impl, bits); return std::to_string(r) + " " + hexs(o); }
        if (op == "deser") { integer D = I(tok()); bool strict = tok() == "1"; auto b = unhex(tok()); form f = DeserializeForm(D, b.data(), b.size(), strict); return full(f, D); }
        if (op == "deserbits") { integer D = I(tok()); bool strict = tok() == "1"; size_t bits = std::stoul(tok()); auto b = unhex(tok()); integer a, c; int r = bqfc_deserialize(a.impl, c.impl, D.impl, b.data(), b.size(), bits, strict); return r ? std::string("reject") : H(a) + "," + H(c); }
        if (op == "prime") { return I(tok()).prime() ? "1" : "0"; }
        if (op == "primes") { int lo = std::stoi(tok()), hi = std::stoi(tok()); std::string r; for (int i = lo; i <= hi; i++) if (integer(i).prime()) r += " " + std::to_string(i); return r.empty() ? "none" : r.substr(1); }
        if (op == "hashprime") { auto s = unhex(tok()); int len = std::stoi(tok()); std::vector<int> m; std::string x; while (in >> x) m.push_back(std::stoi(x)); return H(HashPrime(s, len, m)); }
        if (op == "disc") { auto s = unhex(tok()); int len = std::stoi(tok()); return H(CreateDiscriminant(s, len)); }
        if (op == "getb") { integer D = I(tok()); form x = F(tok(), D), y = F(tok(), D); return H(GetB(D, x, y)); }
        if (op == "verify1") { integer D = I(tok()); auto xs = unhex(tok()), ys = unhex(tok()), ps = unhex(tok()); uint64_t it = std::stoull(tok(), nullptr, 16); bool v = false;
            form x = DeserializeForm(D, xs.data(), xs.size()), y = DeserializeForm(D, ys.data(), ys.size()), p = DeserializeForm(D, ps.data(), ps.size());
            VerifyWesolowskiProof(D, x, y, p, it, v); return v ? "1" : "0"; }
        if (op == "verifyn") { integer D = I(tok()); auto xs = unhex(tok()), bl = unhex(tok()); uint64_t it = std::stoull(tok(), nullptr, 16), bits = std::stoull(tok()), dep = std::stoull(tok(), nullptr, 16);
            return CheckProofOfTimeNWesolowski(D, xs.data(), bl.data(), bl.size(), it, bits, dep) ? "1" : "0"; }
        if (op == "discverifyn") { auto seed = unhex(tok()); uint32_t bits = std::stoul(tok()); auto xs = unhex(tok()), bl = unhex(tok()); uint64_t it = std::stoull(tok(), nullptr, 16), dep = std::stoull(tok(), nullptr, 16);
            return CreateDiscriminantAndCheckProofOfTimeNWesolowski(seed, bits, xs.data(), bl.data(), bl.size(), it, dep) ? "1" : "0"; }
        if (op == "verifyb") { integer D = I(tok()); integer B = I(tok()); auto xs = unhex(tok()), bl = unhex(tok()); uint64_t it = std::stoull(tok(), nullptr, 16), dep = std::stoull(tok(), nullptr, 16);
            auto r = CheckProofOfTimeNWesolowskiWithB(D, B, xs.data(), bl.data(), bl.size(), it, dep); return (r.first ? "1 " : "0 ") + (r.second.empty() ? std::string("-") : hexs(r.second)); }
        if (op == "getbproof") { integer D = I(tok()); auto xs = unhex(tok()), bl = unhex(tok()); uint64_t it = std::stoull(tok(), nullptr, 16), dep = std::stoull(tok(), nullptr, 16);
            return H(GetBFromProof(D, xs.data(), bl.data(), bl.size(), it, dep)); }
        if (op == "prove") { integer D = I(tok()); form x = F(tok(), D); uint64_t it = std::stoull(tok(), nullptr, 16); std::string p = tok(); auto r = ProveSlow(D, x, it, p == "-" ? "" : p); return r.empty() ? "empty" : hexs(r); }
        if (op == "approx") { int k, l; ApproximateParameters(std::stoull(tok(), nullptr, 16), l, k); return std::to_string(k) + " " + std::to_string(l); }
        return "badop";
    } catch (std::exception& e) { return std::string("throw ") + e.what(); }
    catch (...) { return "throw ?"; }
}

int main(int argc, char** argv) {
    init_gmp();
    std::string line;
    while (std::getline(std::cin, line)) std::cout << run(line) << std::endl;
}
