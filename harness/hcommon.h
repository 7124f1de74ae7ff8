// Helpers shared by the harnesses (no knowledge of the code under test beyond form/integer).
#pragma once
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
static inline std::string H(const mpz_struct* z) { char* s = mpz_get_str(nullptr, 16, z); std::string r(s); void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(s, r.size() + 1); return r; }
static inline std::string H(const integer& i) { return H(i.impl); }
static inline integer I(const std::string& s) { integer r; mpz_set_str(r.impl, s.c_str(), 16); return r; }
static inline std::vector<uint8_t> unhex(const std::string& s) {
    std::vector<uint8_t> r; if (s == "-") return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16)); return r; }
static inline std::string hexs(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; } return r; }
static inline std::string hexs(const std::vector<uint8_t>& v) { return hexs(v.data(), v.size()); }
// "a,b" -> unreduced form (c exact)
static inline form F(const std::string& s, const integer& D) {
    size_t p = s.find(','); form f; f.a = I(s.substr(0, p)); f.b = I(s.substr(p + 1));
    integer num = f.b * f.b - D; integer den = f.a << 2;
    mpz_fdiv_q(f.c.impl, num.impl, den.impl); return f; }
static inline std::string FS(const form& f) { return H(f.a) + "," + H(f.b); }
