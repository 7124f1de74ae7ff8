// Scripted accelerated batches over a small group whose powers x^(2^i) form a known cycle: whole lives of the squaring loop in seconds.
// Tokens (comma list, last repeats): J complete; E<p> early stop after p permille; e<n> early stop after n; X<p> corruption after p permille deliveries
#pragma once
#include <random>
struct FF {
    integer D; form x; std::vector<form> tab; std::vector<vdf_original::form> v; uint64_t pre = 0, per = 0;
    std::vector<std::string> script; uint64_t batch_no = 0; std::function<void(uint64_t)> on_batch;   // called before each batch
    void init(const integer& D_, const form& x_, uint64_t limit = 1 << 22) {
        for (auto& t : v) { mpz_init(t.a); mpz_init(t.b); mpz_init(t.c); }     // the entries borrow storage of tab
        D = D_; x = x_; tab.clear(); v.clear();
        PulmarkReducer red; integer L = root(-D, 4);
        form f = x; red.reduce(f); form g = f;
        do { tab.push_back(g); form h = g; nudupl_form(h, h, D, L); red.reduce(h); g = h; } while (!(g == f) && tab.size() < limit);
        per = tab.size();
        if (!(g == f)) { fprintf(stderr, "no cycle\n"); _exit(3); }
        v.resize(per); for (uint64_t i = 0; i < per; i++) { v[i].a[0] = tab[i].a.impl[0]; v[i].b[0] = tab[i].b.impl[0]; v[i].c[0] = tab[i].c.impl[0]; }
    }
    const form& at(uint64_t i) const { return tab[i % per]; }
    void set_script(const std::string& s) { script.clear(); std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) script.push_back(t); batch_no = 0; }
    uint64 fast(form& f, uint64 base, uint64 n, INUDUPLListener* l) {
        if (on_batch) on_batch(base);
        const std::string& s = script[std::min<size_t>(batch_no++, script.size() - 1)];
        uint64_t arg = s.size() > 1 ? std::stoull(s.substr(1)) : 0, cnt = n; uint64 res = n;
        if (s[0] == 'E' || s[0] == 'e') { cnt = std::min<uint64_t>(s[0] == 'E' ? n * arg / 1000 : arg, n - 1); res = cnt; }
        if (s[0] == 'X') { cnt = n * arg / 1000; res = ~uint64(0); }
        uint64_t p = (base + 1) % per;
        for (uint64_t i = 0; i < cnt; i++) {
            if (l) l->OnIteration(NL_FORM, res == ~uint64(0) && i > cnt / 2 ? &v[(p + 7) % per] : &v[p], base + i);
            if (++p == per) p = 0;
        }
        if (res != ~uint64(0)) f = at(base + cnt);
        return res;
    }
};
static FF ff;
static uint64 ff_fast(square_state_type&, form& f, const integer&, const integer&, uint64 base, uint64 n, INUDUPLListener* l) { return ff.fast(f, base, n, l); }
