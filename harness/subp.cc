#include "net.h"
#include "cppev/subprocess.h"
#include <signal.h>
#include <new>
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_IO | VKP_THREAD; vkw.sigpipe_kills = 1; vkw.pipe_cap = param("cap", 3); sysconfig::buffer_io_step = param("step", 2); vkw.now = 5000000000; }
// ---- the child's side up to the moment it becomes another program
static int rank_[3], pid_of[3]; static bool execd; static std::string file_; static std::vector<std::string> args, envs; static int stray; static uint64_t exec_mask; static sighandler_t disp_[65]; static Cnt gone; static int exitcode;
static void lookup(const char *f, char **argv, char **envp) {
    execd = true; file_ = f; for (int i = 0; argv[i]; ++i) args.push_back(argv[i]); if (envp) for (int i = 0; envp[i]; ++i) envs.push_back(envp[i]);
    for (int i = 0; i < 3; ++i) pid_of[i] = vkw_fd_open(i) && !vkw_cloexec(i) ? vkw_pipe_id(i) : -2;
    for (int i = 3; i < 40; ++i) if (vkw_fd_open(i) && !vkw_cloexec(i) && vkw_pipe_id(i) > 0) ++stray;
    exec_mask = vkw_sigmask(); for (int g = 1; g <= 64; ++g) { struct sigaction o; memset(&o, 0, sizeof o); sigaction(g, nullptr, &o); disp_[g] = o.sa_handler; }
    gone = 1; vkw_child_exit(0);
}
static void exited(int st) { exitcode = st; gone = 2; vkw_child_exit(st); }
struct Req { std::string cmd; std::vector<std::string> env; };
static void *as_child(void *a) { Req *r = (Req *)a; vkw.fork_child = 1; alignas(subp_open) static char room[sizeof(subp_open)]; new (room) subp_open(r->cmd, r->env); vk_fail("the child continued in the caller's code"); return nullptr; }
// run the child's side; returns the pipes' ranks in order of creation behind descriptors 0, 1, 2
static void run_child(Req &r) {
    int first = 0; for (int f = 0; f < 40; ++f) if (vkw_pipe_id(f) > first) first = vkw_pipe_id(f);
    bool was[40]; for (int f = 0; f < 40; ++f) was[f] = vkw_fd_open(f);
    vkw.on_exec = lookup; vkw.on_exit = exited; Thr t; t.start(as_child, &r); t.join(); vkw.fork_child = 0; vkw.on_exec = nullptr; vkw.on_exit = nullptr;
    for (int f = 0; f < 40; ++f) if (vkw_fd_open(f) && !was[f]) ::close(f);
    int lo = 1 << 30; for (int i = 0; i < 3; ++i) if (pid_of[i] > 0) lo = std::min(lo, pid_of[i]); for (int i = 0; i < 3; ++i) rank_[i] = pid_of[i] - lo;
}
ENTRY sub_exec() {
    setup(); int words = range(1, param("words", 3), "words"); Req r; std::vector<std::string> w; std::string base;
    for (int i = 0; i < words; ++i) {
        std::string x; int len = range(i && i + 1 < words ? 0 : 1, param("len", 2), "length"); 
        for (int k = 0; k < len; ++k) { char c = (char)u8("char"); vk_assume(c != 0 && c != ' '); if (i == 0) vk_assume(c != '/'); x += c; }
        if (i == 0) { base = x; int p = choose(4, "path"); x = p == 1 ? "/" + x : p == 2 ? "d/" + x : p == 3 ? "/d/e/" + x : x; }
        w.push_back(x); r.cmd += (i ? " " : "") + x;
    }
    int ne = choose(param("envs", 2) + 1, "environment"); for (int i = 0; i < ne; ++i) { std::string e = choose(3, "entry") ? "V=" : ""; char c = (char)u8("char"); vk_assume(c != 0); e += c; r.env.push_back(e); }
    vkw.exec_fail = param("fail", 1); run_child(r);
    if (gone == 2) { VK_ASSERT(exitcode == 127, "a program that cannot be run makes the child exit with 127"); VK_ASSERT(vkw.exec_fail == 0, "a program that can be run is run"); vk_reach("cannot run"); return; }
    VK_ASSERT(execd, "the child becomes the program"); VK_ASSERT(same(file_, w[0]), "the first word names the program");
    VK_ASSERT((int)args.size() == words && same(args[0], base), "the program is told its name without directories"); for (int i = 1; i < words; ++i) VK_ASSERT(same(args[i], w[i]), "the other words are the arguments, unchanged and in order");
    VK_ASSERT((int)envs.size() == ne, "the environment is exactly the given one"); for (int i = 0; i < ne; ++i) VK_ASSERT(same(envs[i], r.env[i]), "the environment is exactly the given one");
    vk_reach("run");
}
static std::string sym(int n, bool blanks, bool slash) { std::string s; for (int i = 0; i < n; ++i) { char c = (char)u8("char"); vk_assume(c != 0); if (!blanks) vk_assume(c != ' '); if (!slash) vk_assume(c != '/'); s += c; } return s; }
ENTRY sub_exec_any() {  // words and entries of arbitrary characters, long enough for any special name
    setup(); Req r; int len = param("len", 9), at = choose(3, "slash"); std::string name = sym(len, false, false), arg = sym(len, false, true), dir = sym(3, false, true); r.cmd = (at == 0 ? "" : at == 1 ? "/" + dir + "/" : dir + "/") + name; std::string full = r.cmd; r.cmd += " " + arg + " -x"; int ne = choose(3, "entries");
    if (ne == 1) r.env = { sym(param("envlen", 16), true, true), sym(3, true, true) }; if (ne == 2) { static const char *known[] = { "PATH=/x", "HOME=", "LD_PRELOAD=/l.so", "LD_LIBRARY_PATH=/l", "PWD=/", "SHELL=/s", "LANG=C", "TZ=UTC", "_=/p", "USER=u", "PATH=/y", "A=1", "A=2", "A=1", "TERM=", "=x", "OLDPWD=/q", "TMPDIR=/t" }; for (auto k : known) r.env.push_back(k); }
    run_child(r); VK_ASSERT(gone == 1 && execd, "the child becomes the program"); VK_ASSERT(same(file_, full), "the first word names the program"); VK_ASSERT(args.size() == 3 && same(args[0], name), "the program is told its name without directories"); VK_ASSERT(same(args[1], arg) && args[2] == "-x", "the other words are the arguments, unchanged and in order");
    VK_ASSERT(envs.size() == r.env.size(), "the environment is exactly the given one"); for (size_t i = 0; i < envs.size(); ++i) VK_ASSERT(same(envs[i], r.env[i]), "the environment is exactly the given one"); vk_reach(ne == 2 ? "known names" : "any");
}
ENTRY sub_exec_many() { // many and long words, a large environment
    setup(); int n = param("words", 40), len = choose(2, "long") ? 300 : 1; Req r; r.cmd = "prog"; std::vector<std::string> w; for (int i = 0; i < n; ++i) { w.push_back(std::string(i % 7 == 5 && i + 1 < n ? 0 : (size_t)len, (char)('a' + i % 26))); r.cmd += " " + w.back(); r.env.push_back("V" + std::to_string(i) + "=" + w.back()); }
    run_child(r); VK_ASSERT(gone == 1 && (int)args.size() == n + 1, "the other words are the arguments, unchanged and in order"); for (int i = 0; i < n; ++i) VK_ASSERT(args[i + 1] == w[i], "the other words are the arguments, unchanged and in order"); VK_ASSERT((int)envs.size() == n, "the environment is exactly the given one"); for (int i = 0; i < n; ++i) VK_ASSERT(envs[i] == r.env[i], "the environment is exactly the given one"); vk_reach("many");
}
ENTRY sub_fds() {       // what the program finds on its descriptors
    setup(); int closed = choose(8, "descriptors closed beforehand"); for (int i = 0; i < 3; ++i) if (closed >> i & 1) ::close(i);
    std::unique_ptr<subp_open> other; if (choose(2, "another subprocess")) { vkw.child_main = [] { for (;;) { timespec t = {1000, 0}; nanosleep(&t, nullptr); } }; other.reset(new subp_open("other", {})); vkw.child_main = nullptr; vk_reach("another"); }
    int sigpipe = choose(2, "sigpipe ignored"); struct sigaction sa; if (sigpipe) { memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGPIPE, &sa, nullptr); }
    int sigs = choose(3, "signals of the caller"); if (sigs) { memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGHUP, &sa, nullptr); sigaction(SIGCHLD, &sa, nullptr); sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR1); sigaddset(&m, 40); if (sigs == 2) pthread_sigmask(SIG_BLOCK, &m, nullptr); } uint64_t mask = vkw_sigmask();
    Req r; r.cmd = "prog"; run_child(r); VK_ASSERT(gone == 1, "the child becomes the program");
    VK_ASSERT(disp_[SIGPIPE] == SIG_DFL, "the program starts with the default behaviour for broken pipes"); VK_ASSERT(exec_mask == mask, "the program starts with the signal mask of the caller"); for (int g = 1; g <= 64; ++g) if (g != SIGPIPE && g != 32 && g != 33) VK_ASSERT(disp_[g] == (sigs && (g == SIGHUP || g == SIGCHLD) ? SIG_IGN : SIG_DFL), "the program starts with the ignored signals of the caller"); if (sigs == 2) vk_reach("masked");
    for (int i = 0; i < 3; ++i) VK_ASSERT(rank_[i] >= 0 && rank_[i] < 3, "the standard descriptors of the child are pipes to its parent"); VK_ASSERT(rank_[0] != rank_[1] && rank_[1] != rank_[2] && rank_[0] != rank_[2], "each standard descriptor has a pipe of its own");
    VK_ASSERT(stray == 0, "the child inherits no other end of any pipe"); vk_reach("run");
}
static std::unique_ptr<subp_open> pair_[2];
static void *opener(void *a) { pair_[(long)a].reset(new subp_open("prog", {})); return nullptr; }
ENTRY sub_race() {      // two threads starting subprocesses at the same time
    setup(); vkw.child_main = [] { for (;;) { timespec t = {1000, 0}; nanosleep(&t, nullptr); } }; vkw.preempt = param("preempt", 2); vkw.fork_child = 2; vkw.on_exec = lookup; vkw.on_exit = exited;
    Thr t[2]; t[0].start(opener, (void *)0); t[1].start(opener, (void *)1); t[0].join(); t[1].join(); if (!gone) return;
    VK_ASSERT(gone == 1, "the child becomes the program"); VK_ASSERT(stray == 0, "the child inherits no other end of any pipe"); for (int i = 0; i < 3; ++i) VK_ASSERT(pid_of[i] > 0, "the standard descriptors of the child are pipes to its parent"); vk_reach("raced");
}
// ---- the parent's side: the child is played by the harness
struct Act { int what, n; };                    // 0 write out, 1 write err, 2 read, 3 sleep
static Act act[6]; static int nact, status; static char data_[2][24]; static int nout[2]; static char got[24]; static int ngot; static bool eof; static Cnt phase; static bool drainIn, zero_;
static void put(int fd, int e, int n) { for (int i = 0; i < n; ++i) { char c = data_[e][nout[e]] = zero_ && nout[e] == 1 ? 0 : (char)('a' + 10 * e + nout[e]); ++nout[e]; if (::write(fd, &c, 1) != 1) vk_fail("the output of a subprocess is not accepted"); } }
static void child() {
    int lo = 1 << 30, ids = 0; for (int f = 0; f < 40; ++f) { int id = vkw_pipe_id(f); if (id > ids) ids = id; } lo = ids - 2;    // the three pipes made last
    int fd[3] = {-1, -1, -1};
    for (int f = 0; f < 40; ++f) { int id = vkw_pipe_id(f); if (id < 0) continue; for (int i = 0; i < 3; ++i) if (id - lo == rank_[i] && ((vkw_fd_flags(f) & O_ACCMODE) == O_WRONLY) == (i > 0) && fd[i] < 0) fd[i] = f; }
    for (int f = 0; f < 40; ++f) if (vkw_fd_open(f) && f != fd[0] && f != fd[1] && f != fd[2]) ::close(f);
    if (fd[0] < 0 || fd[1] < 0 || fd[2] < 0) vk_fail("a subprocess is connected by three pipes");
    phase = 1;
    for (int i = 0; i < nact; ++i) {
        if (act[i].what == 0) put(fd[1], 0, act[i].n);
        else if (act[i].what == 1) put(fd[2], 1, act[i].n);
        else if (act[i].what == 2) for (int k = 0; k < act[i].n && !eof; ++k) { int r = (int)::read(fd[0], got + ngot, 1); if (r == 1) ++ngot; else eof = true; }
        else if (act[i].what == 4 && fd[1] >= 0) { ::close(fd[1]); fd[1] = -1; }
        else if (act[i].what == 5 && fd[2] >= 0) { ::close(fd[2]); fd[2] = -1; }
        else { timespec t = {0, 70000000}; nanosleep(&t, nullptr); }
    }
    if (drainIn) for (; !eof;) { int r = (int)::read(fd[0], got + ngot, 1); if (r != 1) eof = true; else ++ngot; }
    phase = 4; vkw_child_exit(status);
}
static std::unique_ptr<subp_open> launch() {
    Req r; r.cmd = "prog"; run_child(r); int preempt = vkw.preempt; (void)preempt; vkw.child_main = child;
    return std::unique_ptr<subp_open>(new subp_open("prog", {}));
}
static void program(int steps, int maxlen, int kinds) { for (int i = 0; i < steps; ++i) { int k = choose(kinds + 1, "child does"); if (k == kinds) break; act[nact].what = k; act[nact].n = k == 3 ? 0 : range(1, maxlen, "bytes"); ++nact; } status = choose(2, "status") ? 3 : 0; }
static int wants(int what) { int n = 0; for (int i = 0; i < nact; ++i) if (act[i].what == what) n += act[i].n; return n; }
ENTRY sub_output() {    // everything the child writes is collected, its status is reported
    setup(); program(param("steps", 2), param("bytes", 5), 4); int base = vkw_open_fds(); int nin = wants(2), how = choose(3, "how"); std::string in(nin, 'x'); for (int i = 0; i < nin; ++i) in[i] = (char)u8("input byte");
    {
        auto s = launch(); VK_ASSERT(vkw_open_fds() == base + 3, "the caller keeps one end of each pipe"); vkw.preempt = param("preempt", 0);
        if (nin) { if (how == 0) s->communicate(in); else if (how == 1) { s->communicate(in.data(), 1); s->communicate(in.data() + 1, nin - 1); } else { for (int i = 0; i < nin; ++i) s->communicate(in.data() + i, 1); } }
        if (choose(2, "move")) { std::unique_ptr<subp_open> n(new subp_open(std::move(*s))); s = std::move(n); vk_reach("moved"); }
        if (how == 1) s->wait(std::chrono::milliseconds(20)); else s->wait();
        VK_ASSERT(phase == 4, "waiting ends when the subprocess has ended"); VK_ASSERT(s->returncode() == status << 8, "the status of the subprocess is reported");
        VK_ASSERT(strlen(s->stdout()) == (size_t)nout[0] && same(s->stdout(), data_[0], nout[0]), "everything written to the output is collected, in order"); VK_ASSERT(strlen(s->stderr()) == (size_t)nout[1] && same(s->stderr(), data_[1], nout[1]), "everything written to the error output is collected, in order");
        VK_ASSERT(ngot == nin && same(got, in.data(), nin) && !eof, "the input reaches the subprocess, in order");
        VK_ASSERT(vkw.reaped == 1, "the subprocess is reaped once"); int rc = s->returncode(); VK_ASSERT(s->poll() && s->returncode() == rc, "a finished subprocess stays finished"); s->wait(); VK_ASSERT(s->returncode() == rc, "a finished subprocess stays finished");
        if (nout[0] > vkw.pipe_cap) vk_reach("more output than the pipe takes"); if (nin > vkw.pipe_cap) vk_reach("more input than the pipe takes"); vk_reach("done");
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "destruction releases every descriptor once");
}
ENTRY sub_closes() {    // a child that gives up one of its outputs and goes on
    setup(); int which = choose(2, "closes"), n = 0; if (choose(2, "writes first")) act[n++] = {which, 2}; act[n++] = {4 + which, 1}; if (choose(2, "sleeps")) act[n++] = {3, 0}; act[n++] = {1 - which, range(1, param("bytes", 4), "bytes")}; if (choose(2, "reads")) act[n++] = {2, 1}; nact = n; status = 0;
    std::string in(wants(2), 'x'); auto s = launch(); vkw.preempt = param("preempt", 1); if (in.size()) s->communicate(in); s->wait();
    VK_ASSERT(strlen(s->stdout()) == (size_t)nout[0] && same(s->stdout(), data_[0], nout[0]), "everything written to the output is collected, in order"); VK_ASSERT(strlen(s->stderr()) == (size_t)nout[1] && same(s->stderr(), data_[1], nout[1]), "everything written to the error output is collected, in order"); VK_ASSERT(ngot == (int)in.size() && !eof, "the input reaches the subprocess, in order"); VK_ASSERT(vkw.reaped == 1 && s->returncode() == 0, "the status of the subprocess is reported"); vk_reach("done");
}
ENTRY sub_poll() {      // polling reports the end once it happened, not before; input is written without blocking
    setup(); act[0] = {choose(2, "child reads") ? 2 : 3, 1}; nact = 1; status = 0; auto s = launch(); vkw.preempt = param("preempt", 1);
    VK_ASSERT(!s->poll(), "a running subprocess is not finished"); s->communicate("abcdefgh", 8); 
    for (int i = 0; i < 4; ++i) { bool before = phase == 4; bool p = s->poll(); if (p) VK_ASSERT(phase == 4, "a running subprocess is not reported finished"); if (before) VK_ASSERT(p, "a finished subprocess is reported finished"); s->communicate(); timespec t = {0, 40000000}; nanosleep(&t, nullptr); }
    VK_ASSERT(s->poll() && vkw.reaped == 1, "a finished subprocess is reported finished"); s->communicate("more", 4); vk_reach("input to a finished subprocess");
    int r = throws_sys([&] { s->send_signal(SIGTERM); }); VK_ASSERT(r == 1 && g_code == ESRCH, "signalling a finished subprocess is refused"); VK_ASSERT(vkw.nkills == 0, "the number of a finished subprocess may belong to another process, which gets no signal");
}
ENTRY sub_eof() {       // giving up the subprocess ends its input
    setup(); drainIn = true; int n = choose(3, "bytes"); auto s = launch(); std::unique_ptr<subp_open> other; if (n) s->communicate("ab", n); int with = choose(2, "another subprocess");
    if (with) { vkw.child_main = [] { for (int f = 0; f < 40; ++f) if (vkw_fd_open(f) && vkw_cloexec(f)) ::close(f); for (;;) { timespec t = {1000, 0}; nanosleep(&t, nullptr); } }; other.reset(new subp_open("other", {})); vk_reach("another"); }
    timespec t = {0, 1000000}; nanosleep(&t, nullptr); VK_ASSERT(phase == 1, "the input of a subprocess stays open"); VK_ASSERT(ngot == n, "the input reaches the subprocess, in order"); s.reset(); nanosleep(&t, nullptr); VK_ASSERT(phase == 4 && eof, "giving up a subprocess ends its input"); vk_reach("ended");
}
// a child that writes much to one output before anything to the other, and reads much
static int lots, first_; static bool readsAll;
static void big_child() {
    int lo, ids = 0; for (int f = 0; f < 40; ++f) { int id = vkw_pipe_id(f); if (id > ids) ids = id; } lo = ids - 2; int fd[3] = {-1, -1, -1};
    for (int f = 0; f < 40; ++f) { int id = vkw_pipe_id(f); if (id < 0) continue; for (int i = 0; i < 3; ++i) if (id - lo == rank_[i] && ((vkw_fd_flags(f) & O_ACCMODE) == O_WRONLY) == (i > 0) && fd[i] < 0) fd[i] = f; }
    for (int f = 0; f < 40; ++f) if (vkw_fd_open(f) && f != fd[0] && f != fd[1] && f != fd[2]) ::close(f);
    static char b[10000]; for (int k = 0; k < 2; ++k) { int e = k ? 1 - first_ : first_; for (int at = 0; at < lots;) { int m = std::min(lots - at, (int)sizeof b); for (int i = 0; i < m; ++i) b[i] = (char)('a' + (at + i) % 23 + e); int r = (int)::write(fd[1 + e], b, m); if (r <= 0) vk_fail("the output of a subprocess is not accepted"); at += r; } }
    if (readsAll) { static char c[10000]; for (int at = 0; at < lots;) { int r = (int)::read(fd[0], c, sizeof c); if (r <= 0) vk_fail("the input reaches the subprocess, in order"); for (int i = 0; i < r; ++i) if (c[i] != (char)('A' + (at + i) % 19)) vk_fail("the input reaches the subprocess, in order"); at += r; } }
    phase = 4; vkw_child_exit(0);
}
static void *watch(void *) { timespec t = {60, 0}; nanosleep(&t, nullptr); if (phase != 4) vk_fail("neither side blocks the other forever"); return nullptr; }
ENTRY sub_large() {
    setup(); vkw.pipe_cap = 65536; sysconfig::buffer_io_step = 1024; lots = param("lots", 150000); first_ = choose(2, "first output"); readsAll = choose(2, "reads"); Req r; r.cmd = "prog"; run_child(r); gone = 0; vkw.child_main = big_child; Thr t; t.start(watch, nullptr); t = Thr();
    std::string in; if (readsAll) { in.resize(lots); for (int i = 0; i < lots; ++i) in[i] = (char)('A' + i % 19); }
    { subp_open s("prog", {}); if (readsAll) s.communicate(in); s.wait(); const char *o[2] = {s.stdout(), s.stderr()};
      for (int e = 0; e < 2; ++e) { VK_ASSERT((int)strlen(o[e]) == lots, "everything written is collected, in order"); bool ok = true; for (int i = 0; i < lots; ++i) ok &= o[e][i] == (char)('a' + i % 23 + e); VK_ASSERT(ok, "everything written is collected, in order"); } }
    VK_ASSERT(phase == 4, "waiting ends when the subprocess has ended"); vk_reach("large");
}
ENTRY sub_wait_fault() { // the system cannot tell the status
    setup(); act[0] = {0, 2}; nact = 1; status = 3; auto s = launch(); vkw.fault_ops = VKF_WAITPID; vkw.faults = 1; bool waits = choose(2, "wait"), p = false; int r = throws_sys([&] { if (waits) s->wait(); else p = s->poll(); });
    if (vkw.faults == 0) { VK_ASSERT(r == 1 && g_code == ECHILD, "a status that cannot be had is reported with its error number"); VK_ASSERT(!p && vkw.reaped == 0, "a failure is no status"); vk_reach("fault"); } else { VK_ASSERT(r == 0, "polling and waiting work"); vkw.faults = 0; }
    s->wait(); VK_ASSERT(s->returncode() == 3 << 8 && vkw.reaped == 1, "the status of the subprocess is reported");
}
static int ksig, kpid, kres; static int on_kill(int pid, int sig) { kpid = pid; ksig = sig; return kres; }
ENTRY sub_signal() {
    setup(); act[0] = {2, 1}; nact = 1; auto s = launch(); kres = choose(2, "fails") ? EPERM : 0; vkw.on_kill = on_kill; int how = choose(3, "how"), sig = how == 0 ? SIGTERM : how == 1 ? SIGKILL : (int)vk::u8("signal");
    int r = throws_sys([&] { if (how == 0) s->terminate(); else if (how == 1) s->kill(); else s->send_signal(sig); }); VK_ASSERT(vkw.nkills == 1 && kpid == s->pid() && kpid > 4000 && ksig == sig, "the signal goes to the subprocess"); VK_ASSERT(r == (kres != 0) && (!r || g_code == EPERM), "failing to signal is reported"); vk_reach(kres ? "refused" : "signalled");
    if (how < 2 && !kres) { vkw.on_kill = nullptr; if (how == 0) s->terminate(); else s->kill(); s->wait(); VK_ASSERT(s->returncode() == sig, "the signal that ended the subprocess is reported"); }
}
static subp_open *stopped_;
static void *resume_(void *) { timespec t = {1, 0}; nanosleep(&t, nullptr); stopped_->send_signal(SIGCONT); return nullptr; }
ENTRY sub_stopped() {   // a subprocess that is only stopped has not ended
    setup(); act[0] = {1, 2}; nact = 1; status = 5; auto s = launch(); int sig = choose(2, "signal") ? SIGSTOP : SIGTSTP; s->send_signal(sig); timespec t = {0, 20000000};
    for (int i = 0; i < 3; ++i) { VK_ASSERT(!s->poll(), "a running subprocess is not reported finished"); nanosleep(&t, nullptr); } VK_ASSERT(phase != 4 && vkw.reaped == 0, "a running subprocess is not reported finished");
    switch (choose(3, "then")) {
    case 0: s->send_signal(SIGCONT); s->wait(); VK_ASSERT(phase == 4 && s->returncode() == 5 << 8, "the status of the subprocess is reported"); vk_reach("resumed"); break;
    case 1: s->kill(); s->wait(); VK_ASSERT(s->returncode() == SIGKILL, "the signal that ended the subprocess is reported"); vk_reach("killed"); break;
    case 2: { stopped_ = s.get(); Thr r; r.start(resume_, nullptr); s->wait(); VK_ASSERT(phase == 4 && s->returncode() == 5 << 8, "the status of the subprocess is reported"); r.join(); vk_reach("resumed meanwhile"); break; }
    }
    VK_ASSERT(vkw.reaped == 1, "the subprocess is reaped once");
}
ENTRY sub_exec_cmd() {
    setup(); zero_ = choose(2, "zero bytes in the output"); program(param("steps", 2), 4, 2); int base = vkw_open_fds(); Req r; r.cmd = "prog"; run_child(r); vkw.child_main = child; vkw.preempt = param("preempt", 1);
    auto t = subprocess::exec_cmd("prog"); VK_ASSERT(std::get<0>(t) == status << 8, "the status of the subprocess is reported"); VK_ASSERT(same(std::get<1>(t), std::string(data_[0], nout[0])) && same(std::get<2>(t), std::string(data_[1], nout[1])), "everything written is collected, in order"); VK_ASSERT(vkw_open_fds() == base && vkw.reaped == 1, "nothing is left behind"); vk_reach("done");
}
ENTRY sub_faults() {
    setup(); int base = vkw_open_fds(); Req q; q.cmd = "prog"; run_child(q); vkw.child_main = child; vkw.faults = 1; vkw.fault_ops = VKF_PIPE | VKF_FORK; std::unique_ptr<subp_open> s;
    int r = throws_sys([&] { s.reset(new subp_open("prog", {})); }); if (vkw.faults) { VK_ASSERT(r == 0, "starting works"); return; }
    VK_ASSERT(r == 1 && (g_code == EMFILE || g_code == EAGAIN), "failing to start a subprocess is reported with its error number"); VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "a failed start leaves no descriptor behind"); vk_reach("fault");
}
