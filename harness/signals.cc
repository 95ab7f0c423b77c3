#include "net.h"
#include "cppev/utils.h"
#include "cppev/runnable.h"
#include <signal.h>
using namespace cppev;
static bool reserved(int g) { return g == SIGKILL || g == SIGSTOP || g == 32 || g == 33; }
static uint64_t bit(int g) { return 1ULL << (g - 1); }
static int anysig(const char *n) { int g = (int)vk_val(7, n); vk_assume((g >= 1) & (g <= 64) & (g != 32) & (g != 33)); return g; }       // any signal
static const uint64_t UNMASKABLE = 1ULL << (SIGKILL - 1) | 1ULL << (SIGSTOP - 1), INTERNAL = 3ULL << 31;
static void setmask(uint64_t m) { sigset_t s; sigemptyset(&s); memcpy(&s, &m, 8); pthread_sigmask(SIG_SETMASK, &s, nullptr); }
static const int POOL[] = {SIGUSR1, SIGUSR2, SIGTERM, 34, 64, SIGHUP};   // where a signal is really sent
static int pick(const char *n, int k) { return POOL[choose(k, n)]; }
static int hits[65], others; static void h1(int g) { if (g >= 1 && g <= 64) ++hits[g]; } static void h2(int) { ++others; }
static void clear() { memset(hits, 0, sizeof hits); others = 0; }

// ---- masks: exactly the signals named, for every previous mask
static uint64_t other_mask; static bool other_go; static bool go(void *) { return other_go; }
static void *other(void *) { uint64_t m = vkw_sigmask(); vkw_block_until(go, nullptr); VK_ASSERT(vkw_sigmask() == m, "other threads keep their signal masks"); return nullptr; }
ENTRY sig_mask() {
    calm(); uint64_t m = vk_val(64, "mask") & ~UNMASKABLE & ~INTERNAL; Thr t; setmask(m); other_go = false; t.start(other, nullptr);
    for (int i = 0; i < param("ops", 2); ++i) {
        bool block = choose(2, "block"); int n = choose(param("list", 3) + 2, "how many") - 1;   // -1: the form for one signal
        uint64_t set = 0; std::vector<int> v; for (int k = 0; k < (n < 0 ? 1 : n); ++k) { int g = anysig("sig"); v.push_back(g); set |= bit(g); }
        if (n < 0) { if (block) thread_block_signal(v[0]); else thread_unblock_signal(v[0]); } else { if (block) thread_block_signal(v); else thread_unblock_signal(v); }
        m = block ? m | (set & ~UNMASKABLE) : m & ~set;
        VK_ASSERT(vkw_sigmask() == m, "blocking and unblocking change exactly the signals named");
        int q = anysig("query"); VK_ASSERT(thread_check_signal_mask(q) == !!(m & bit(q)), "asking for the mask answers the truth"); VK_ASSERT(!thread_check_signal_pending(q), "nothing is pending that did not arrive"); VK_ASSERT(vkw_sigmask() == m, "asking changes nothing");
        vk_reach(n < 0 ? "one signal" : n == 0 ? "empty list" : "list");
    }
    other_go = true; t.join();
}
ENTRY sig_many() {      // lists of many signals, with repetitions
    calm(); clear(); static const int N[] = {8, 15, 16, 17, 31, 32, 33, 60, 100, 300}; int n = N[choose(10, "how many")], back = choose(2, "order"); std::vector<int> v; uint64_t set = 0, only = choose(2, "few") ? bit(SIGUSR1) | bit(SIGHUP) | bit(64) : ~(UNMASKABLE | INTERNAL | bit(SIGALRM) | bit(40)), m = choose(2, "mask") ? bit(SIGALRM) | bit(SIGHUP) : bit(40);
    for (int g = 1; (int)v.size() < n; g = g % 64 + 1) if (only >> (g - 1) & 1) { v.insert(back ? v.begin() : v.end(), g); set |= bit(g); }
    setmask(m); thread_block_signal(v); VK_ASSERT(vkw_sigmask() == (m | set), "blocking and unblocking change exactly the signals named"); int g = v[choose(2, "which") ? n - 1 : n / 2]; handle_signal(g, h1); handle_signal(SIGALRM, h2);
    thread_raise_signal(g); VK_ASSERT(hits[g] == 0 && thread_check_signal_pending(g), "a blocked signal is not handled");
    if (choose(2, "wait")) { VK_ASSERT(thread_wait_for_signal(v) == g && hits[g] == 0, "waiting for a set returns a signal of it that arrived"); vk_reach("waited"); } else { thread_suspend_for_signal(v); VK_ASSERT(hits[g] == 1, "suspending lets exactly the signals named be handled"); vk_reach("suspended"); }
    VK_ASSERT(!thread_check_signal_pending(g) && vkw_sigmask() == (m | set), "suspending leaves the mask as it was"); thread_unblock_signal(v); VK_ASSERT(vkw_sigmask() == (m & ~set), "blocking and unblocking change exactly the signals named"); VK_ASSERT(others == 0, "no other handler runs");
}
// ---- signals that arrive while blocked are kept, and each reaches the handler or the waiter once
ENTRY sig_pending() {
    calm(); clear(); int a = pick("a", param("pool", 4)), b = pick("b", param("pool", 4)); vk_assume(a != b); uint64_t before = vk_val(64, "mask") & ~UNMASKABLE & ~INTERNAL & ~(bit(a) | bit(b)); setmask(before);
    handle_signal(a, h1); handle_signal(b, h1); bool listform = choose(2, "list");
    if (listform) thread_block_signal(std::vector<int>{a, b}); else { thread_block_signal(a); thread_block_signal(b); }
    bool sa = choose(2, "raise a"), sb = choose(2, "raise b"), twice = sa && choose(2, "twice"); bool byproc = choose(2, "to the process");
    auto send = [&](int g) { if (byproc) send_signal(getpid(), g); else thread_raise_signal(g); };
    if (sa) send(a); if (twice) send(a); if (sb) send(b);
    VK_ASSERT(hits[a] == 0 && hits[b] == 0, "a blocked signal is not handled");
    int q = anysig("query"); VK_ASSERT(thread_check_signal_pending(q) == ((q == a && sa) || (q == b && sb)), "asking for pending signals answers the truth");
    int how = choose(5, "how");
    if (how == 0 && sa) { thread_wait_for_signal(a); VK_ASSERT(!thread_check_signal_pending(a) && thread_check_signal_pending(b) == sb, "waiting takes the signal waited for and no other"); sa = false; vk_reach("waited"); }
    else if (how == 1 && (sa || sb)) { int other = SIGALRM; int r = thread_wait_for_signal(std::vector<int>{a, other, b}); VK_ASSERT((r == a && sa) || (r == b && sb), "waiting for a set returns a signal of it that arrived"); (r == a ? sa : sb) = false; VK_ASSERT(thread_check_signal_pending(a) == sa && thread_check_signal_pending(b) == sb, "waiting takes one signal of the set"); vk_reach("waited for a set"); }
    else if (how == 2 && sa) { bool l = choose(2, "list"); if (l) thread_suspend_for_signal(std::vector<int>{a, SIGALRM}); else thread_suspend_for_signal(a); VK_ASSERT(hits[a] == 1 && hits[b] == 0, "suspending lets exactly the signals named be handled"); VK_ASSERT(vkw_sigmask() == (before | bit(a) | bit(b)), "suspending leaves the mask as it was"); VK_ASSERT(!thread_check_signal_pending(a) && thread_check_signal_pending(b) == sb, "a signal not named stays pending"); sa = false; hits[a] = 0; vk_reach("suspended"); }
    else if (how == 3) { thread_unblock_signal(a); VK_ASSERT(hits[a] == sa && hits[b] == 0, "unblocking lets exactly the signals named be handled"); VK_ASSERT(thread_check_signal_pending(b) == sb && !thread_check_signal_pending(a), "a signal still blocked stays pending"); thread_block_signal(a); hits[a] = 0; sa = false; vk_reach("unblocked one"); }
    VK_ASSERT(hits[a] == 0 && hits[b] == 0, "a signal waited for is not handled as well");
    thread_unblock_signal(std::vector<int>{a, b}); VK_ASSERT(hits[a] == sa && hits[b] == sb, "a kept signal is handled once when it is unblocked"); VK_ASSERT(vkw_sigmask() == before, "unblocking what was blocked restores the mask"); VK_ASSERT(others == 0, "no other handler runs");
}
// ---- handlers: a history of settings applies to the signals named only
ENTRY sig_handlers() {
    calm(); clear(); setmask(0); int k = param("pool", 3); int st[3] = {0, 0, 0};   // 0 default 1 h1 2 h2 3 ignored
    for (int i = 0; i < k; ++i) reset_signal(POOL[i]);
    for (int i = 0; i < param("ops", 3); ++i) {
        int x = choose(k, "which"), g = POOL[x], op = choose(5, "op"); clear();
        if (op == 0) { handle_signal(g, h1); st[x] = 1; } else if (op == 1) { handle_signal(g, h2); st[x] = 2; } else if (op == 2) { ignore_signal(g); st[x] = 3; } else if (op == 3) { reset_signal(g); st[x] = 0; }
        else { if (st[x] == 0) return; bool proc = choose(2, "to the process"); if (proc) send_signal(getpid(), g); else thread_raise_signal(g); VK_ASSERT(hits[g] == (st[x] == 1) && others == (st[x] == 2), "a signal goes to the handler set last for it"); vk_reach(st[x] == 3 ? "ignored" : "handled"); continue; }
        VK_ASSERT(hits[g] == 0 && others == 0, "setting a handler does not run one");
    }
    for (int i = 0; i < k; ++i) { struct sigaction o; sigaction(POOL[i], nullptr, &o); VK_ASSERT(o.sa_handler == (st[i] == 0 ? SIG_DFL : st[i] == 1 ? h1 : st[i] == 2 ? h2 : SIG_IGN), "each signal has the handler set last for it"); VK_ASSERT(!(o.sa_flags & (int)SA_RESETHAND), "a handler stays set"); }
    struct sigaction o; sigaction(SIGCHLD, nullptr, &o); VK_ASSERT(o.sa_handler == SIG_DFL, "other signals keep their handlers");
}
static uint64_t in_handler; static void h3(int g) { if (g >= 1 && g <= 64) ++hits[g]; in_handler = vkw_sigmask(); }
ENTRY sig_handler_each() {   // every signal: handled each time, nothing else changes
    calm(); clear(); uint64_t before = choose(2, "mask") ? 0x8000 : 0; setmask(before); int g = anysig("sig"); vk_assume((g != SIGKILL) & (g != SIGSTOP) & (g != 16)); g = (int)vk_conc((uint64_t)g);
    handle_signal(g, h3); for (int i = 1; i <= 3; ++i) { thread_raise_signal(g); VK_ASSERT(hits[g] == i, "a handler set stays set"); VK_ASSERT((in_handler & ~(1ULL << (g - 1))) == (before & ~(1ULL << (g - 1))), "a handler runs with no other signal blocked"); VK_ASSERT(vkw_sigmask() == before, "handling a signal leaves the mask as it was"); }
    for (int i = 1; i <= 64; ++i) if (i != g && !reserved(i)) { struct sigaction o; sigaction(i, nullptr, &o); VK_ASSERT(o.sa_handler == SIG_DFL, "other signals keep their handlers"); }
    int op = choose(3, "then"); if (op == 0) ignore_signal(g); else if (op == 1) reset_signal(g); else handle_signal(g, h2);
    struct sigaction o; sigaction(g, nullptr, &o); VK_ASSERT(o.sa_handler == (op == 0 ? SIG_IGN : op == 1 ? SIG_DFL : h2), "each signal has the handler set last for it"); if (op != 1) { thread_raise_signal(g); thread_raise_signal(g); VK_ASSERT(hits[g] == 3 && others == (op == 2 ? 2 : 0), "a signal goes to the handler set last for it"); } vk_reach("each");
}
ENTRY sig_default_handler() { calm(); setmask(0); int g = pick("sig", 6); handle_signal(g); thread_raise_signal(g); thread_raise_signal(g); vk_reach("survived"); }   // the handler by default survives the signal
// ---- a thread waits while another sends
static int w_how, w_a, w_b, w_got; static Cnt w_done, w_sent;
static void *waiter(void *) {
    if (w_how == 0) { thread_wait_for_signal(w_a); w_got = w_a; } else if (w_how == 1) w_got = thread_wait_for_signal(std::vector<int>{w_b, w_a}); else if (w_how == 2) { thread_suspend_for_signal(w_a); w_got = w_a; } else { thread_suspend_for_signal(std::vector<int>{w_a, w_b}); w_got = w_a; }
    VK_ASSERT(w_sent == 1, "waiting ends only when the signal arrives"); w_done = 1; return nullptr;
}
ENTRY sig_wait_thread() {
    calm(); clear(); w_a = pick("a", param("pool", 3)); w_b = SIGUSR2 == w_a ? SIGUSR1 : SIGUSR2; w_how = choose(4, "how"); w_done = 0; w_sent = 0; handle_signal(w_a, h1); handle_signal(w_b, h1); handle_signal(SIGALRM, h2);
    bool open = w_how >= 2 && choose(2, "another signal is not blocked"); thread_block_signal(std::vector<int>{w_a, w_b}); if (!open) thread_block_signal(SIGALRM); vkw.preempt_ops = VKP_THREAD | VKP_IO; vkw.preempt = param("preempt", 1);
    Thr t; t.start(waiter, nullptr); bool settle = choose(2, "settle"); if (settle) { vkw_pause(); VK_ASSERT(!w_done, "waiting does not end without a signal"); }
    bool noise = choose(2, "another signal first"); if (noise && open) vk_reach("unblocked noise"); if (noise) { pthread_kill(t.t, SIGALRM); if (settle) { vkw_pause(); VK_ASSERT(!w_done && others == 0, "a signal not waited for does not end the wait"); } }
    w_sent = 1; if (choose(2, "to the process")) send_signal(getpid(), w_a); else pthread_kill(t.t, w_a);
    t.join(); VK_ASSERT(w_done && w_got == w_a, "the signal sent ends the wait"); VK_ASSERT(hits[w_a] == (w_how >= 2) && hits[w_b] == 0 && (open ? others <= 1 : others == 0), "suspending runs the handler, waiting does not"); vk_reach(w_how >= 2 ? "suspended" : "waited");
}
// ---- a runnable gets the signals sent to it
struct Sigr : runnable { void run_impl() override { thread_wait_for_signal(w_a); w_done = 1; } };
ENTRY sig_runnable() { calm(); clear(); w_a = pick("a", 4); w_done = 0; handle_signal(w_a, h1); thread_block_signal(w_a); Sigr r; r.run(); if (choose(2, "settle")) vkw_pause(); VK_ASSERT(!thread_check_signal_pending(w_a), "the signal is not sent to the caller"); r.send_signal(w_a); r.join(); VK_ASSERT(w_done == 1 && !thread_check_signal_pending(w_a), "a runnable gets the signal sent to it"); thread_unblock_signal(w_a); VK_ASSERT(hits[w_a] == 0, "the caller does not get it"); vk_reach("delivered"); }

// ================================================================ errors
static void arm(uint64_t ops) { vkw.fault_ops = ops; vkw.faults = 1; vkw.fault_any = 1; vkw.last_errno = 0; errno = (int)vk_choose(2, "stale error number") * ENOTDIR; }
ENTRY err_throw() {
    calm(); int e = (int)vk_val(32, "error number"), s = (int)vk_val(32, "errno"); errno = s; std::string what = anystr(2, "what"); vk_assume(what[0] != 0 && what[1] != 0);
    int r = 0, code = 0; bool sys = false, text = false;
    bool dflt = choose(2, "default"); if (!dflt) vk_assume((e > 0) & (e < 200)); vk_assume((s > 0) & (s < 200));
    try { if (dflt) throw_system_error(what); else throw_system_error(what, e); } catch (const std::system_error &x) { r = 1; code = x.code().value(); sys = x.code().category() == std::system_category(); text = std::string(x.what()).size() >= 2 && same(x.what(), what.data(), 2); } catch (...) { r = 2; }
    VK_ASSERT(r == 1 && sys, "a failure of the system is a system error"); VK_ASSERT(code == (dflt ? s : e), "the error carries the number it was given, or the last one of the system"); VK_ASSERT(text, "the error says what failed");
    VK_ASSERT(throws<std::logic_error>([&] { throw_logic_error(what); }) == 1 && throws<std::runtime_error>([&] { throw_runtime_error(what); }) == 1, "each kind of error is thrown as itself"); vk_reach("thrown");
}
static int kpid, ksig, kerr, kcalls; static int on_kill(int p, int s) { kpid = p; ksig = s; ++kcalls; return kerr; }
ENTRY err_process() {
    calm(); vkw.on_kill = on_kill; kcalls = 0; int pid = (int)vk_val(32, "pid"); kerr = (int)vk_val(8, "error"); vk_assume(kerr <= 133); errno = (int)vk_choose(2, "stale error number") * ESRCH; bool group = choose(2, "group");
    if (group) vk_assume(pid > 1);
    bool ans = false; int r = throws_sys([&] { ans = group ? check_process_group(pid) : check_process(pid); });
    VK_ASSERT(kcalls == 1 && ksig == 0 && kpid == (group ? -pid : pid), "the process or group named is asked for, without a signal");
    if (kerr == 0) { VK_ASSERT(r == 0 && ans, "a process that exists is reported"); vk_reach("exists"); }
    else if (kerr == ESRCH) { VK_ASSERT(r == 0 && !ans, "a process that does not exist is reported as missing"); vk_reach("missing"); }
    else { VK_ASSERT(r == 1 && g_code == kerr, "another failure is reported with its error number"); vk_reach("failure"); }
}
ENTRY err_send() {
    calm(); vkw.on_kill = on_kill; kcalls = 0; int pid = (int)vk_val(32, "pid"), sig = (int)vk_val(32, "sig"); kerr = (int)vk_val(8, "error"); vk_assume(kerr <= 133); errno = 0;
    if (sig == 0) { VK_ASSERT(throws<std::logic_error>([&] { send_signal(pid, sig); }) == 1 && kcalls == 0, "sending no signal is refused"); vk_reach("refused"); return; }
    int r = throws_sys([&] { send_signal(pid, sig); }); VK_ASSERT(kcalls == 1 && kpid == pid && ksig == sig, "the signal goes to the process named"); VK_ASSERT(r == (kerr ? 1 : 0) && g_code == kerr, "failing to send a signal is reported with its error number"); vk_reach(kerr ? "failure" : "sent");
}
ENTRY err_signals() {   // every signal helper with a failing call
    calm(); clear(); setmask(0); int g = SIGUSR1, what = choose(12, "what"); uint64_t m0; bool l = what >= 4 && what <= 6 && choose(2, "list"); std::vector<int> v{g};
    if (what == 6) { handle_signal(g, h1); thread_block_signal(g); thread_raise_signal(g); }
    m0 = vkw_sigmask(); arm(VKF_SIG); bool res = false;
    int r = throws_sys([&] { switch (what) {
        case 0: handle_signal(g, h1); break; case 1: ignore_signal(SIGCHLD); break; case 2: reset_signal(SIGCHLD); break; case 3: thread_raise_signal(SIGCHLD); break;
        case 4: l ? thread_block_signal(v) : thread_block_signal(g); break; case 5: l ? thread_unblock_signal(v) : thread_unblock_signal(g); break;
        case 6: if (l) thread_wait_for_signal(v); else thread_wait_for_signal(g); break; case 7: res = thread_check_signal_mask(g); break; case 8: res = thread_check_signal_pending(g); break; default: break; } });
    bool failed = vkw.faults == 0; vkw.faults = 0;
    if (what < 9) { VK_ASSERT(r == (failed ? 1 : 0), "a helper fails exactly when the system refuses"); if (failed) { VK_ASSERT(g_code == vkw.last_errno, "a failing helper reports the error number of the system"); VK_ASSERT(vkw_sigmask() == m0, "a failing helper changes nothing"); VK_ASSERT(!res, "a failure is no result"); vk_reach("fault"); } return; }
    // signal numbers that do not exist
    static const int bad[] = {0, -1, 65, 33, 1000000, (int)0x80000000}; int b = bad[choose(6, "bad")]; std::vector<int> w{g, b}; int one = choose(6, "operation"); l = choose(2, "list"); m0 = vkw_sigmask();
    if (what == 9) { r = throws_sys([&] { if (one == 0) handle_signal(b, h1); else if (one == 1) ignore_signal(b); else if (one == 2) reset_signal(b); else if (b != 33) thread_raise_signal(b); else throw_system_error("x", EINVAL); }); VK_ASSERT(r == 1 && g_code == EINVAL, "a signal that does not exist is refused"); vk_reach("bad number"); }
    if (what == 10) { r = throws_sys([&] { if (one < 2) { if (l) thread_block_signal(w); else thread_block_signal(b); } else if (one < 4) { if (l) thread_unblock_signal(w); else thread_unblock_signal(b); } else { if (l) thread_wait_for_signal(std::vector<int>{b}); else thread_wait_for_signal(b); } }); VK_ASSERT(r == 1 && g_code == EINVAL, "a signal that does not exist is refused"); VK_ASSERT(vkw_sigmask() == m0, "a failing helper changes nothing"); vk_reach("bad number"); }
    if (what == 11) { r = throws_sys([&] { if (l) thread_suspend_for_signal(w); else thread_suspend_for_signal(b); }); VK_ASSERT(r == 1 && g_code == EINVAL, "a signal that does not exist is refused"); VK_ASSERT(vkw_sigmask() == m0, "a failing helper changes nothing"); vk_reach("bad number"); }
}
ENTRY err_time() {
    calm(); vkw.now = 1000000000000000000LL + choose(3, "s") * 1500000000LL; arm(VKF_TIME); time_t t = 0; std::string s; int what = choose(2, "what");
    int r = throws_sys([&] { if (what) s = timestamp(-1); else t = cppev::time(); }); bool failed = vkw.faults == 0;
    VK_ASSERT(r == (failed ? 1 : 0), "asking for the time fails exactly when the system refuses"); if (failed) { VK_ASSERT(g_code == vkw.last_errno, "a failing helper reports the error number of the system"); vk_reach("fault"); } else if (!what) VK_ASSERT(t == vkw.now / 1000000000, "the time is that of the system");
}
// ---- timestamps
ENTRY ts_format() {
    calm(); static const char *F[] = {nullptr, "%F %T %Z", "%T", "%Y%m%d", "%H:%M:%S %d/%m/%Y", "at %%%H", "x", ""}; const char *f = F[choose(8, "format")];
    vkw.now = 1000000000LL * 86399 * 20000; vkw.tz_off = choose(2, "time zone") ? 34200 : 0; int64_t t; int kind = choose(3, "time");
    if (kind == 0) t = -1 - (int64_t)vk_val(8, "negative"); else { t = (int64_t)vk_val(17, "second"); vk_assume(t < 86400); static const int64_t day[] = {0, 59, 11016, 20776, 24855, 24856, 49710, 2932896}; if (kind == 2) vk_assume(t < 60); t += 86400 * day[choose(kind == 2 ? 8 : 2, "day")]; }
    std::string r; int th = throws_sys([&] { r = t < 0 && choose(2, "argument left out") && !f ? timestamp() : timestamp(t, f); });
    time_t e = t < 0 ? vkw.now / 1000000000 : t; tm x; localtime_r(&e, &x); char b[128]; size_t n = strftime(b, sizeof b, f ? f : "%F %T %Z", &x);
    VK_ASSERT(th == 0 && same(r, std::string(b, n)), "a time is written as the format says, the current time if none is given"); vk_reach(t < 0 ? "now" : "given");
}
static std::string stamp_[2]; static time_t when_[2] = {86400 * 11016 + 3661, 86400 * 20776 + 45296};
ENTRY ts_now() {       // threads that write the current time
    calm(); vkw.now = 1000000000LL * 86400 * 11016; vkw.preempt_ops = VKP_IO | VKP_THREAD; vkw.preempt = param("preempt", 1); Thr t[2]; for (long i = 0; i < 2; ++i) t[i].start([](void *a) -> void * { stamp_[(long)a] = timestamp(-1, "%F %T"); return nullptr; }, (void *)i);
    t[0].join(); t[1].join(); VK_ASSERT(stamp_[0] == "2000-02-29 00:00:00" && stamp_[1] == stamp_[0], "each thread gets the text of its own time"); int64_t later = (int64_t)vk_val(20, "later"); vkw.now += later * 1000000000; vk_assume(later < 60); VK_ASSERT(timestamp(-1, "%S") == (std::string(1, (char)(48 + later / 10)) + (char)(48 + later % 10)), "a time is written as the format says, the current time if none is given"); vk_reach("threads");
}
ENTRY ts_threads() {   // threads that write times at the same time
    calm(); vkw.preempt_ops = VKP_IO | VKP_THREAD; vkw.preempt = param("preempt", 2); Thr t[2]; for (long i = 0; i < 2; ++i) t[i].start([](void *a) -> void * { stamp_[(long)a] = timestamp(when_[(long)a], "%F %T"); return nullptr; }, (void *)i);
    t[0].join(); t[1].join(); VK_ASSERT(stamp_[0] == "2000-02-29 01:01:01" && stamp_[1] == "2026-11-19 12:34:56", "each thread gets the text of its own time"); vk_reach("threads");
}
ENTRY ts_limits() {   // long texts and times that cannot be written
    calm(); int what = choose(2, "what");
    if (what == 0) { static const int L[] = {100, 1000, 1021, 1023, 1024, 3000}; int n = L[choose(6, "length")]; std::string f(n, 'x'), r; r = ""; f[n - 1] = '%'; f += "H"; int th = throws_sys([&] { r = timestamp(3600, f.c_str()); }); if (n <= 1022) VK_ASSERT(th == 0 && (int)r.size() == n + 1 && r[0] == 'x' && r[n] == '1', "a long text is written in full"); else VK_ASSERT(th == 1 || (th == 0 && (int)r.size() == n + 1), "a text is never cut"); vk_reach("long"); }
    else { int64_t t = INT64_MAX - (int64_t)vk_val(40, "t"); std::string r; int th = throws_sys([&] { r = timestamp(t); }); VK_ASSERT(th == 1 && g_code == EOVERFLOW, "a time that cannot be written is reported"); vk_reach("overflow"); }
}
