// The real hardware client (hw_vdf_client.cpp) against a board that squares by the known order of the group.
// Standard input: commands of the scenario; descriptor 3: what the board sees, with times.
#include "hw_interface.hpp"
#include "hw_proof.hpp"
#include "hw_util.hpp"
#include <cstdint>
// shorter sessions for the runs that reach the end of one (VDF_TARGET): the board's capacity, 2e9, is too far away for squarings in software
static uint64_t g_target = 0;
template <class T> static T cut_target(T v) { return v; }
static uint64_t cut_target(uint64_t v) { return g_target && v > g_target ? g_target : v; }
template <class... A> static void short_init_vdf_state(A... a) { init_vdf_state(cut_target(a)...); }
#define init_vdf_state short_init_vdf_state
#define main hw_client_main
#include "hw/hw_vdf_client.cpp"
#undef main
#undef init_vdf_state
#include "fakedev.h"
#include <atomic>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_map>
#include <sys/syscall.h>
#include <time.h>
int chia_vdf_is_emu = 0;
using std::string;
static std::atomic<int> pace_us{3000};
static std::atomic<long long> ahead{0};      // added to the wall clock, microseconds
static void nap(uint64_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); }
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { nap(((uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000) / 20 + 1); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }
extern "C" int usleep(useconds_t us) { nap(us / 20 + 1); return 0; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept {
    struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    return system_clock::time_point(system_clock::duration((long long)t.tv_sec * 1000000000 + t.tv_nsec + ahead * 1000));
} } } }
static std::mutex mx;
static std::unordered_map<uint32_t, uint8_t> mem;
struct Engine { bool clk = false, on = false; uint64_t n = 0, at = 0, next = 0; int bad = 0, still = 0, step = 4000; bool late = false; integer D, L; form x; string Dh; };
static Engine eng[N_HW_VDFS];
static std::map<string, integer> order;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static ChiaDriver* codec;
static string num(const mpz_t z) { std::vector<char> b(mpz_sizeinbase(z, 16) + 3); mpz_get_str(b.data(), 16, z); return b.data(); }
static void say(const string& s) {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); char b[40]; snprintf(b, sizeof b, "%lld ", (long long)t.tv_sec * 1000000000 + t.tv_nsec);
    string l = b + s + "\n"; if (write(3, l.data(), l.size()) < 0) _exit(9); }
static form power(Engine& e, uint64_t it) {
    integer q(1), two(2); form f; PulmarkReducer r; auto o = order.find(e.Dh);
    if (o == order.end() || it < 64) { f = e.x; for (uint64_t i = 0; i < it; i++) { nudupl_form(f, f, e.D, e.L); r.reduce(f); } return f; }
    mpz_powm_ui(q.impl, two.impl, it, o->second.impl);
    if (mpz_sgn(q.impl) == 0) q = o->second;
    f = FastPowFormNucomp(e.x, e.D, q, e.L, r); r.reduce(f); return f;
}
static void job(int i) {
    Engine& e = eng[i]; std::vector<uint8_t> b(codec->CmdSize() + 64); uint32_t base = CHIA_VDF_CMD_JOB_ID_REG_OFFSET + 0x10000 * i;
    for (size_t k = 0; k < codec->CmdSize(); k++) b[k] = mem[base + k];
    size_t o = 4; uint64_t n; integer a, f;
    o += codec->read_bytes(8, o, b.data(), n);
    o += codec->read_bytes(4 * CHIA_VDF_CMD_A_MULTIREG_COUNT, o, b.data(), a.impl, ChiaDriver::NUM_2X_COEFFS);
    o += codec->read_bytes(4 * CHIA_VDF_CMD_F_MULTIREG_COUNT, o, b.data(), f.impl, ChiaDriver::NUM_2X_COEFFS);
    o += codec->read_bytes(4 * CHIA_VDF_CMD_D_MULTIREG_COUNT, o, b.data(), e.D.impl, ChiaDriver::NUM_4X_COEFFS);
    integer N(e.D); mpz_neg(N.impl, N.impl); e.L = root(N, 4); e.Dh = num(e.D.impl);
    say("job " + std::to_string(i) + " " + (e.clk ? "1" : "0") + " " + std::to_string(n) + " " + e.Dh + " " + num(a.impl) + " " + num(f.impl));
    e.on = true; e.n = n; e.at = 0; e.next = 0; e.bad = 0; e.still = 0;
    integer c; mpz_mul(c.impl, f.impl, f.impl); mpz_sub(c.impl, c.impl, e.D.impl); bool ok = mpz_sgn(a.impl) > 0; integer a4 = a; mpz_mul_2exp(a4.impl, a4.impl, 2);
    ok = ok && mpz_divisible_p(c.impl, a4.impl);
    if (!ok) { say("badjob"); e.on = false; return; }
    e.x = form::from_abd(a, f, e.D); PulmarkReducer r; r.reduce(e.x);
}
static void status(int i, bool temp = false) {
    Engine& e = eng[i]; nap(pace_us);
    std::vector<uint8_t> b(HW_VDF_STATUS_SIZE + 64); uint64_t it; integer A, B; size_t o = 4;
    if (!e.on || !e.clk) { if (!temp) say("dark " + std::to_string(i)); }   // (the temperature is read together with the first engine's status)
    else {
        bool good = true;
        if (e.bad) {
            form f = power(e, it = std::min(e.n, e.at + 1 + rnd() % 5000)); A = f.a; B = f.b; good = false;
            switch (e.bad) {
            case 1: mpz_add_ui(B.impl, B.impl, 1); break;
            case 2: A = integer(0); break;
            case 3: it = e.n + 1 + rnd() % 100000; break;
            case 4: mpz_neg(A.impl, A.impl); break;
            case 5: it = ~0ull - rnd() % 3; break;
            case 6: mpz_mul_2exp(A.impl, A.impl, 40); mpz_add_ui(A.impl, A.impl, 12); break;
            default: mpz_add_ui(A.impl, A.impl, 2); break; }
            integer c, a4 = A; mpz_mul(c.impl, B.impl, B.impl); mpz_sub(c.impl, c.impl, e.D.impl); mpz_mul_2exp(a4.impl, a4.impl, 2);
            if (it <= e.n && mpz_sgn(A.impl) > 0 && mpz_divisible_p(c.impl, a4.impl)) { good = true; A = f.a; B = f.b; }
            e.bad = 0;
        } else {
            if (e.still > 0) e.still--;
            else { e.at = e.next > e.at ? e.next : e.at + 1 + rnd() % e.step; if (e.at > e.n) e.at = e.n; }
            form f = power(e, it = e.at); A = f.a; B = f.b;
            if (rnd() % 3 == 0) { integer t = A; mpz_mul_si(t.impl, t.impl, 2 * (long)(rnd() % 5) - 4); mpz_add(B.impl, B.impl, t.impl); mpz_set(B.impl, B.impl); }
        }
        say("rep " + std::to_string(i) + " " + (good ? "1 " : "0 ") + std::to_string(good ? it : 0));
        o += codec->write_bytes(8, o, b.data(), it);
        o += codec->write_bytes(4 * CHIA_VDF_STATUS_A_MULTIREG_COUNT, o, b.data(), A.impl, ChiaDriver::NUM_2X_COEFFS);
        o += codec->write_bytes(4 * CHIA_VDF_STATUS_F_MULTIREG_COUNT, o, b.data(), B.impl, ChiaDriver::NUM_2X_COEFFS);
    }
    uint32_t base = CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 * i;
    for (size_t k = 0; k < HW_VDF_STATUS_SIZE; k++) { mem[base + k] = b[k]; if (i == 0) mem[0x300014 + k] = b[k]; }
}
static void dev_spi(uint8_t* out, int nout, uint8_t* in, int nin) {
    std::lock_guard<std::mutex> lk(mx);
    if (nout < 4) { memset(in, 0, nin); return; }
    uint32_t a = ((out[1] << 16) | (out[2] << 8) | out[3]) << 2;
    if (out[0] & 0x80) {
        for (int i = 4; i < nout; i++) mem[a + i - 4] = out[i];
        uint32_t z = a + nout - 4;
        for (int i = 0; i < N_HW_VDFS; i++) {
            uint32_t c = CHIA_VDF_CONTROL_REG_OFFSET + 0x10000 * i, s = CHIA_VDF_CMD_START_REG_OFFSET + 0x10000 * i;
            if (a <= c && c < z) {        // control: clock and reset (values are big-endian words)
                uint32_t v = mem[c] << 24 | mem[c + 1] << 16 | mem[c + 2] << 8 | mem[c + 3];
                bool clk = v & 1, rst = v >> 4 & 1;
                if (eng[i].clk != (clk && !rst)) say("clk " + std::to_string(i) + " " + (clk && !rst ? "1" : "0"));
                eng[i].clk = clk && !rst;
                if (rst) { eng[i].on = false; say("halt " + std::to_string(i)); }
            }
            if (a <= s && s < z) job(i);
        }
        return;
    }
    for (int i = 0; i < N_HW_VDFS; i++) { uint32_t s = CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + 0x10000 * i; if (a <= s && s < a + nin - 4) status(i); }
    if (a == 0x300000) status(0, true);
    for (int i = 0; i < nin; i++) { auto it = mem.find(a + i - 4); in[i] = i < 4 ? 0 : it == mem.end() ? 0 : it->second; }
}
static std::unordered_map<int, uint8_t> i2cmem; static int i2creg;
static int dev_i2c(int rd, int addr, uint8_t* b, int n) {
    std::lock_guard<std::mutex> lk(mx);
    if (!rd) { i2creg = b[0]; for (int i = 1; i < n; i++) i2cmem[addr * 256 + i2creg + i - 1] = b[i]; }
    else for (int i = 0; i < n; i++) b[i] = i2cmem[addr * 256 + i2creg + i];
    return n;
}
static void dev_gpio(int, int) {}
static int sndbuf = 0;
extern "C" int socket(int d, int t, int p) noexcept { int f = syscall(SYS_socket, d, t, p); if (f >= 0 && sndbuf) setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf); return f; }
static std::atomic<bool> started{false};
static void control() {
    string all, line;
    while (std::getline(std::cin, all)) { std::lock_guard<std::mutex> lk(mx); std::istringstream parts(all); while (std::getline(parts, line, ';')) {
        std::istringstream is(line); string op; is >> op; int i = 0;
        if (op == "order") { string D, h; is >> D >> h; integer o; mpz_set_str(o.impl, h.c_str(), 16); order[D] = o; }
        else if (op == "go") started = true;
        else if (op == "pace") { int u; is >> u; pace_us = u; }
        else if (op == "step") { int n; is >> i >> n; eng[i].step = n; }
        else if (op == "bad") { int k; is >> i >> k; eng[i].bad = k; }
        else if (op == "still") { int n; is >> i >> n; eng[i].still = n; }
        else if (op == "goto") { uint64_t n; is >> i >> n; eng[i].next = n; }
        else if (op == "clock") { long long s; is >> s; ahead = ahead + s * 1000000; }
        else if (op == "seed") { is >> rs; }
        else if (op == "set") { string a, v; is >> a >> v; uint32_t x = strtoul(a.c_str(), 0, 16); for (size_t k = 0; k + 1 < v.size(); k += 2) mem[x + k / 2] = strtoul(v.substr(k, 2).c_str(), 0, 16); }
        } say("ack");
    }
}
__attribute__((noinline)) static void dirty() { volatile uint8_t b[1 << 18]; for (auto& x : b) x = 0xa5; }
int main(int argc, char** argv) {
    codec = new ChiaDriver();
    setvbuf(stderr, nullptr, _IOLBF, 0);
    std::thread(control).detach();
    if (const char* b = getenv("VDF_SNDBUF")) sndbuf = atoi(b);
    if (const char* b = getenv("VDF_TARGET")) g_target = strtoull(b, 0, 10);
    while (!started) nap(500);
    dirty();
    int rc = hw_client_main(argc, argv);
    say("exit " + std::to_string(rc)); _exit(rc);
}
