// The timelord client of the repository with time scaled down and a delay before each socket operation:
//   client <host> <port> <counter>;  VDF_JITTER=<seed>:<max ms> delays, VDF_SCALE=<n> divides every sleep,
//   VDF_CPUS=<n> processors the client believes to have; SIGUSR1: from now on arithmetic is slow (a proof takes minutes);
//   VDF_SLOW=<us> arithmetic of every thread but the squaring one is slow from the start of the squaring,
//   VDF_HOLD=<n> the squaring all but stands still once it has done n iterations (until SIGUSR2)
#include <boost/asio.hpp>
#include <thread>
#include <random>
#include <cstdlib>
#include <dlfcn.h>
#include <csignal>
#include <time.h>
#include <gmp.h>
#include <sys/socket.h>
namespace {
    int scale() { static int v = [] { const char* s = getenv("VDF_SCALE"); return s ? atoi(s) : 1; }(); return v; }
    void jitter() {
        static int top = 0; static uint64_t seed = [] { const char* s = getenv("VDF_JITTER"); if (!s) return 0ull; top = atoi(strchr(s, ':') + 1); return strtoull(s, nullptr, 10); }();
        if (!top) return;
        static std::mutex m; static std::mt19937_64 g(seed); int us; { std::lock_guard<std::mutex> lk(m); us = g() % 3 ? 0 : g() % (top * 1000 + 1); }
        if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
    }
}
// the C library's socket calls, with the delay
template <class F> static F real(const char* n, F) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { static auto f = real("sendmsg", (ssize_t(*)(int, const struct msghdr*, int))nullptr); jitter(); return f(fd, m, fl); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { static auto f = real("send", (ssize_t(*)(int, const void*, size_t, int))nullptr); jitter(); return f(fd, b, n, fl); }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) { static auto f = real("recv", (ssize_t(*)(int, void*, size_t, int))nullptr); auto r = f(fd, b, n, fl); jitter(); return r; }
extern "C" ssize_t recvmsg(int fd, struct msghdr* m, int fl) { static auto f = real("recvmsg", (ssize_t(*)(int, struct msghdr*, int))nullptr); auto r = f(fd, m, fl); jitter(); return r; }
// SIGUSR1: every multiplication takes a tenth of a millisecond, and more
static volatile sig_atomic_t slow = 0, go_on = 0;
static struct Slow { Slow() { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) { slow = 1; }; a.sa_flags = SA_RESTART; sigaction(SIGUSR1, &a, nullptr); a.sa_handler = [](int) { go_on = 1; }; sigaction(SIGUSR2, &a, nullptr); } } slow_init;
static std::atomic<int> slow_us{0}; static thread_local bool squaring = false;
extern "C" void __gmpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) {
    static auto f = real("__gmpz_mul", (void (*)(mpz_ptr, mpz_srcptr, mpz_srcptr))nullptr);
    if (slow && !squaring) { struct timespec t{0, 100000}; nanosleep(&t, nullptr); }
    int us = slow_us; if (us && !squaring) { struct timespec t{us / 1000000, us % 1000000 * 1000}; nanosleep(&t, nullptr); }
    f(r, a, b); }
// VDF_CPUS: the number of processors the client believes to have
extern "C" unsigned _ZNSt6thread20hardware_concurrencyEv() { const char* s = getenv("VDF_CPUS"); return s ? atoi(s) : 8; }
namespace std { namespace this_thread { template <class D> void scaled_sleep_for(const D& d) { std::this_thread::sleep_for(std::chrono::duration_cast<std::chrono::nanoseconds>(d) / scale()); } } }
#define sleep_for scaled_sleep_for
#include "vdf_client.cpp"
static uint64 hold(square_state_type& s, form& f, const integer& D, const integer& L, uint64 base, uint64 n, INUDUPLListener* l) {
    static const uint64 at = [] { const char* e = getenv("VDF_HOLD"); return e ? strtoull(e, nullptr, 10) : ~uint64(0); }();
    static const int us = [] { const char* e = getenv("VDF_SLOW"); return e ? atoi(e) : 0; }();
    squaring = true; slow_us = us;
    if (base >= at && !go_on) std::this_thread::sleep_for(std::chrono::milliseconds(100));
    // a tiny discriminant: the pipeline gives up after every squaring anyhow, and starts a thread each time
    if ((at != ~uint64(0) || us) && D.num_bits() < 64) return 0;
    return enable_threads ? repeated_square_fast_multithread(s, f, D, L, base, n, l) : repeated_square_fast_single_thread(s, f, D, L, base, n, l); }
static bool hold_init = (chiavdf_verif_fast = hold, true);
