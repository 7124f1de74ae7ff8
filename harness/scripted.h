// Stand-in for the segment provers of the n-Wesolowski manager (included at the end of provers.h)
#include <list>
#include <set>
#include <mutex>
struct ScriptedProver; static std::mutex reg_m; static std::list<ScriptedProver*> reg; static std::set<std::pair<uint64_t, uint64_t>> started, proved; static int maxrun; static std::vector<std::string> oddities;
static bool fake; static integer order; static std::mutex go_m; static vcv::real_cv go_cv;
// the manager's prover: the real class, whose end is decided by the script; in fake mode its witness comes from the known group order
struct ScriptedProver : InterruptableProver {
    Segment sg; integer D_; std::atomic<bool> allowed{false}, f_done{false}, f_full{false}, f_paused{false}, f_stop{false}, gone{false}; form f_proof; bool ended() { return fake ? f_done.load() : InterruptableProver::IsFinished(); }
    ScriptedProver(Segment s, integer D, FastAlgorithmCallback* w) : InterruptableProver(s, D, w), sg(s), D_(D) {}
    static void go(std::atomic<bool>& b) { { std::lock_guard<std::mutex> lk(go_m); b = true; } go_cv.notify_all(); }
    ~ScriptedProver() { std::unique_lock<std::mutex> lk(reg_m); reg.remove(this); if (!ended() && !f_stop) oddities.push_back("an unfinished prover was dropped"); lk.unlock(); go(allowed); if (!f_stop) { go(f_stop); InterruptableProver::stop(); } }
    bool PerformExtraStep() { if (fake) return false; { std::unique_lock<std::mutex> lk(go_m); while (!allowed && !f_stop) go_cv.wait(lk); } if (f_stop) return false; return InterruptableProver::PerformExtraStep(); }
    static void count() { int n = 0; for (auto p : reg) if (!p->f_paused && !p->ended()) n++; maxrun = std::max(maxrun, n); }
    void start() { { std::lock_guard<std::mutex> lk(reg_m); reg.push_back(this); if (!started.insert({sg.start, sg.length}).second) oddities.push_back("segment started twice: " + std::to_string(sg.start) + "+" + std::to_string(sg.length)); count(); } InterruptableProver::start(); }
    void pause() { { std::lock_guard<std::mutex> lk(reg_m); f_paused = true; } if (!fake) InterruptableProver::pause(); }
    void resume() { { std::lock_guard<std::mutex> lk(reg_m); f_paused = false; count(); } if (!fake) InterruptableProver::resume(); }
    void stop() { go(f_stop); InterruptableProver::stop(); }
    bool IsRunning() { return fake ? !f_paused : InterruptableProver::IsRunning(); }
    bool IsFinished() { return fake ? f_done.load() : InterruptableProver::IsFinished(); }
    bool IsFullyFinished() { return fake ? f_full.load() : InterruptableProver::IsFullyFinished(); }
    form GetProof() { return fake ? f_proof : InterruptableProver::GetProof(); }
    void finish(bool late) {
        if (!fake) { go(allowed); return; }
        // x ^ (2^T / B) with the exponent taken modulo a multiple of the order of x
        integer B = GetB(D_, sg.x, sg.y), m = B * order, e; mpz_set_ui(e.impl, 2); mpz_powm_ui(e.impl, e.impl, sg.length, m.impl); e = e / B; mpz_mod(e.impl, e.impl, order.impl);
        integer L = root(-D_, 4); PulmarkReducer red; f_proof = FastPowFormNucomp(sg.x, D_, e, L, red); red.reduce(f_proof);
        f_done = true; if (!late) f_full = true;
        { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_one();
    }
};
#define InterruptableProver ScriptedProver
