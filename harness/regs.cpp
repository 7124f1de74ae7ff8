// Register codec, job start, status read-back and board settings of the hardware driver, over a recording transport.
#include "hw_interface.hpp"
#include "chia_driver.hpp"
#include "pll_freqs.hpp"
#include "vdf_base.hpp"
#include "fakedev.h"
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <cfenv>
#include <cmath>
#include <unistd.h>
#include <time.h>
int chia_vdf_is_emu = 0;
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
using std::string;
static std::unordered_map<uint32_t, uint8_t> mem;
static std::ostringstream rec;          // transfers of the current call
static bool first = true;
static string hex(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
static void put(const string &s) { if (!first) rec << ","; first = false; rec << s; }
static void dev_spi(uint8_t *out, int nout, uint8_t *in, int nin) {
    string o = hex(out, nout);
    if (nout >= 4) {
        uint32_t a = ((out[1] << 16) | (out[2] << 8) | out[3]) << 2;
        if (out[0] & 0x80) for (int i = 4; i < nout; i++) { mem[a + i - 4] = out[i]; if (a + i - 4 == 0x1f) {} }
        else for (int i = 0; i < nin; i++) { auto it = mem.find(a + i - 4); in[i] = i < 4 ? 0xa5 : it == mem.end() ? 0 : it->second; }
    }
    put("{\"k\":\"spi\",\"w\":\"" + o + "\",\"r\":\"" + hex(in, nin) + "\"}");
}
static std::unordered_map<int, uint8_t> i2cmem; static int i2creg;
static int dev_i2c(int rd, int addr, uint8_t *b, int n) {
    if (!rd) { i2creg = b[0]; for (int i = 1; i < n; i++) i2cmem[addr * 256 + i2creg + i - 1] = b[i]; }
    else for (int i = 0; i < n; i++) b[i] = i2cmem[addr * 256 + i2creg + i];
    put(string("{\"k\":\"i2c\",\"rd\":") + (rd ? "1" : "0") + ",\"a\":" + std::to_string(addr) + ",\"w\":\"" + hex(b, n) + "\"}");
    return n;
}
static void dev_gpio(int p, int v) { put("{\"k\":\"gpio\",\"p\":" + std::to_string(p) + ",\"v\":" + std::to_string(v) + "}"); }
static string num(mpz_t v) { std::vector<char> b(mpz_sizeinbase(v, 16) + 3); mpz_get_str(b.data(), 16, v); return string(b.data()); }
static void unhex(const string &s, uint8_t *b) { for (size_t i = 0; i + 1 < s.size() + 0 || i + 1 == s.size(); i += 2) b[i / 2] = strtoul(s.substr(i, 2).c_str(), NULL, 16); }
int main() {
    VdfBaseInit();
    ChiaDriver *drv = new ChiaDriver();
    if (drv->ftdi.Open()) return 3;
    string line;
    struct vdf_value vals[N_HW_VDFS]; for (auto &v : vals) init_vdf_value(&v);
    mpz_t a, b, d, l; mpz_inits(a, b, d, l, NULL);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); string c; in >> c; rec.str(""); first = true; string res;
        auto big = [&](mpz_t z) { string s; in >> s; mpz_set_str(z, s.c_str(), 16); };
        if (c == "enc") { size_t size, n; in >> size >> n; big(a); std::vector<uint8_t> buf(size + 64, 0xee);
            size_t r = drv->write_bytes(size, 16, buf.data(), a, n);
            bool clean = true; for (int i = 0; i < 16; i++) clean &= buf[i] == 0xee; for (size_t i = size + 16; i < buf.size(); i++) clean &= buf[i] == 0xee;
            res = "\"img\":\"" + hex(&buf[16], size) + "\",\"len\":" + std::to_string(r) + ",\"clean\":" + (clean ? "true" : "false") + ",\"after\":\"" + num(a) + "\"";
        } else if (c == "dec") { size_t size, n; string h; in >> size >> n >> h; std::vector<uint8_t> buf(size + 32, 0xee); unhex(h, &buf[8]); mpz_set_si(a, -77);
            size_t r = drv->read_bytes(size, 8, buf.data(), a, n);
            res = "\"v\":\"" + num(a) + "\",\"len\":" + std::to_string(r);
        } else if (c == "deser") { string h; in >> h; std::vector<uint8_t> buf(h.size() / 2 + 8); unhex(h, buf.data()); uint32_t id = 1; uint64_t it = 2;
            drv->DeserializeJob(buf.data(), id, it, a, b); char t[64]; sprintf(t, "\"id\":\"%x\",\"it\":\"%lx\"", id, it);
            res = string(t) + ",\"a\":\"" + num(a) + "\",\"f\":\"" + num(b) + "\"";
        } else if (c == "job") { int idx; string n; in >> idx >> n; big(d); big(a); big(b);
            string before = num(d) + num(a) + num(b);
            int r = start_hw_vdf(drv, d, a, b, strtoull(n.c_str(), NULL, 16), idx);
            res = "\"rc\":" + std::to_string(r) + ",\"kept\":" + (before == num(d) + num(a) + num(b) ? "true" : "false");
        } else if (c == "stop") { int idx; in >> idx; stop_hw_vdf(drv, idx); res = "\"rc\":0";
        } else if (c == "mem") { string ad, h; in >> ad >> h; uint32_t x = strtoul(ad.c_str(), NULL, 16); std::vector<uint8_t> t(h.size() / 2 + 1); unhex(h, t.data()); for (size_t i = 0; i < h.size() / 2; i++) mem[x + i] = t[i]; res = "\"rc\":0";
        } else if (c == "status") { int mask; in >> mask; for (int i = 0; i < N_HW_VDFS; i++) { vals[i].iters = 7 + i; mpz_set_si(vals[i].a, -5 - i); mpz_set_si(vals[i].b, 50 + i); }
            int r = read_hw_status(drv, mask, vals); res = "\"rc\":" + std::to_string(r) + ",\"vals\":[";
            for (int i = 0; i < N_HW_VDFS; i++) { char t[40]; sprintf(t, "%lx", vals[i].iters); res += string(i ? "," : "") + "{\"it\":\"" + t + "\",\"a\":\"" + num(vals[i].a) + "\",\"f\":\"" + num(vals[i].b) + "\"}"; }
            res += "]";
        } else if (c == "freq") { string f; unsigned i; in >> f >> i; bool r = drv->SetPLLFrequency(strtod(f.c_str(), NULL), i); res = string("\"rc\":") + (r ? "1" : "0") + ",\"fidx\":" + std::to_string(drv->freq_idx);
        } else if (c == "adjust") { int m, dir; in >> m >> dir; adjust_hw_freq(drv, m, dir); res = "\"rc\":0,\"fidx\":" + std::to_string(drv->freq_idx);
        } else if (c == "getfreq") { double f = drv->GetPLLFrequency(); char t[64]; snprintf(t, 64, "%lld", (long long)floor(f * 1e6 + 0.5)); res = string("\"uhz\":\"") + t + "\"";
        } else if (c == "volt") { string v; in >> v; int r = drv->SetBoardVoltage(strtod(v.c_str(), NULL)); res = "\"rc\":" + std::to_string(r);
        } else if (c == "getvolt") { double f = drv->GetBoardVoltage(); char t[64]; snprintf(t, 64, "%lld", (long long)floor(f * 1e5 + 0.5)); res = string("\"v5\":\"") + t + "\"";
        } else if (c == "alarm") { string k, v; in >> k >> v; bool r = k == "e" ? drv->SetTempAlarmEngine(strtod(v.c_str(), NULL)) : drv->SetTempAlarmExternal(strtod(v.c_str(), NULL)); res = string("\"rc\":") + (r ? "1" : "0");
        } else res = "\"rc\":-1";
        std::cout << "{" << res << ",\"io\":[" << rec.str() << "]}" << std::endl;
    }
}
