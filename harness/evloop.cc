#include "net.h"
#include <sys/eventfd.h>
using namespace cppev;
enum { R = 1, W = 2 };
static fd_event E(int m) { return (fd_event)m; }

// ------------------------------------------------------------ registration, interest set and dispatch against a reference
struct Hd { int fd, mask, prio, calls; bool present; };
static Hd hd[8]; static int nh, order_[32], norder; static nio *objs[3]; static bool wrong;
static fd_event_handler mk(int id) { return [id](const std::shared_ptr<nio> &p) { hd[id].calls++; if (norder < 32) order_[norder++] = id; if (p.get() != objs[hd[id].fd]) wrong = true; }; }
static const priority prios[3] = {p0, p3, p6};

ENTRY evl_registration() {
    int nfd = param("fds", 2), ops = param("ops", 3); calm(); sysconfig::event_number = 4; vkw.epoll_order = 0; vkw.sock_cap = 1;
    event_loop ev; int base = vkw_open_fds(); (void)base;
    std::shared_ptr<nio> s[3]; int peer[3], interest[3]; bool data[3] = {}, full[3] = {};
    for (int i = 0; i < nfd; ++i) { int p[2]; raw_pair(p); s[i] = std::make_shared<nsocktcp>(p[0], family::local); peer[i] = p[1]; objs[i] = s[i].get(); interest[i] = 0; }
    for (int i = 0; i < param("pre", 0); ++i) { hd[nh] = {0, i ? 1 + i % 2 : 3, (int)prios[i % 3], 0, true}; ev.fd_register(s[0], E(hd[nh].mask), mk(nh), i == 0, prios[i % 3]); ++nh; interest[0] = 3; }
    for (int k = 0; k < ops; ++k) {
        int f = choose(nfd, "fd"), t;
        int faults = param("faults", 0); vkw.fault_ops = VKF_EPCTL; 
        if (choose(2, "op") == 0) {
            int m = range(1, 3, "mask"); bool h = choose(2, "handler"), act = choose(2, "activate"); int pr = h ? choose(2, "prio") * 2 : 0;
            int id = nh; if (h) hd[nh++] = {f, m, (int)prios[pr], 0, false};
            vkw.faults = faults;
            t = throws_sys([&] { ev.fd_register(s[f], E(m), h ? mk(id) : fd_event_handler(), act, prios[pr]); });
            bool hit = vkw.faults < faults; vkw.faults = 0;
            bool ok = !hit && !(act && interest[f]);
            VK_ASSERT(t == (ok ? 0 : 1), "a registration fails exactly when the system refuses it");
            if (!ok) { VK_ASSERT(g_code == (hit ? ENOMEM : EEXIST), "a refused registration reports the error number"); vk_reach("refused registration"); }
            else { if (act) interest[f] = m; if (h) hd[id].present = true; VK_ASSERT(&s[f]->evlp() == &ev, "a registered object knows its loop"); }
        } else {
            bool clean = choose(2, "clean"), de = choose(2, "deactivate");
            vkw.faults = faults;
            t = throws_sys([&] { ev.fd_remove(s[f], clean, de); });
            bool hit = vkw.faults < faults; vkw.faults = 0;
            bool ok = !hit && !(de && !interest[f]);
            VK_ASSERT(t == (ok ? 0 : 1), "a removal fails exactly when the system refuses it");
            if (!ok) VK_ASSERT(g_code == (hit ? ENOMEM : ENOENT), "a refused removal reports the error number");
            else { if (de) interest[f] = 0; if (clean) for (int i = 0; i < nh; ++i) if (hd[i].fd == f) hd[i].present = false; if (clean && de) vk_reach("removed"); }
        }
        int loads = 0; for (int i = 0; i < nh; ++i) loads += hd[i].present;
        VK_ASSERT(ev.ev_loads() == loads, "the load is the number of registered handlers");
        for (int i = 0; i < nfd; ++i) { int w = vkw_interest(ev.ev_fd(), s[i]->fd()); VK_ASSERT(interest[i] ? w == ((interest[i] & R ? EPOLLIN : 0) | (interest[i] & W ? EPOLLOUT : 0)) : w == -1, "the watched events are those of the active registration"); }
    }
    // readiness of every descriptor is arbitrary; one pass
    for (int i = 0; i < nfd; ++i) {
        data[i] = choose(2, "data"); full[i] = choose(2, "full"); char c = 'x';
        if (data[i]) ::write(peer[i], &c, 1);
        if (full[i]) ::write(s[i]->fd(), &c, 1);
    }
    ev.loop_once(0);
    for (int i = 0; i < nh; ++i) {
        int ready = (data[hd[i].fd] ? R : 0) | (full[hd[i].fd] ? 0 : W), e = ready & interest[hd[i].fd];
        int want = hd[i].present && (hd[i].mask & e) ? 1 : 0;
        VK_ASSERT(hd[i].calls == want, "a pass runs exactly the handlers whose watched event is pending, once each");
        if (want) vk_reach("dispatched");
    }
    VK_ASSERT(!wrong, "a handler receives the object it was registered with");
}
// ------------------------------------------------------------ priorities, many ready descriptors, small batches
ENTRY evl_priority() {
    int n = param("fds", 3); calm(); vkw.epoll_order = 1; sysconfig::event_number = range(1, n, "batch");
    event_loop ev; std::shared_ptr<nio> s[3]; int wr[3];
    for (int i = 0; i < n; ++i) {
        int p[2]; ::pipe(p); s[i] = std::make_shared<nstream>(p[0]); objs[i] = s[i].get(); wr[i] = p[1];
        int pr = choose(3, "prio"); hd[nh] = {i, R, (int)prios[pr], 0, true}; ev.fd_register(s[i], E(R), mk(nh), true, prios[pr]); ++nh;
        if (choose(2, "second handler")) { hd[nh] = {i, R, (int)prios[2 - pr], 0, true}; ev.fd_register(s[i], E(R), mk(nh), false, prios[2 - pr]); ++nh; }
    }
    bool ready[3]; int cnt = 0; char c = 'x';
    for (int i = 0; i < n; ++i) { ready[i] = choose(2, "ready"); if (ready[i]) { ::write(wr[i], &c, 1); ++cnt; } }
    ev.loop_once(0);
    int fdsHit = 0; bool hit[3] = {};
    for (int i = 0; i < nh; ++i) { VK_ASSERT(hd[i].calls <= 1, "a handler runs at most once per pass"); VK_ASSERT(!hd[i].calls || ready[hd[i].fd], "a handler runs only when its event is pending"); if (hd[i].calls) hit[hd[i].fd] = true; }
    for (int i = 0; i < n; ++i) fdsHit += hit[i];
    VK_ASSERT(fdsHit == std::min(cnt, sysconfig::event_number), "a pass serves as many descriptors as fit its batch");
    for (int i = 0; i < nh; ++i) VK_ASSERT(hd[i].calls == (hit[hd[i].fd] ? 1 : 0), "all handlers of a served descriptor run");
    for (int i = 1; i < norder; ++i) VK_ASSERT(hd[order_[i - 1]].prio >= hd[order_[i]].prio, "handlers run in order of priority");
    if (cnt > 1) vk_reach("several ready");
    if (cnt > sysconfig::event_number) vk_reach("more ready than the batch");
    VK_ASSERT(!wrong, "a handler receives the object it was registered with");
}
// ------------------------------------------------------------ many descriptors and many handlers at once
ENTRY evl_many() {
    calm(); vkw.epoll_order = 0; vkw.max_fds = 160; int n = param("fds", 100); event_loop ev; static int calls[160], ord[160], no; static std::shared_ptr<nio> o[160]; static bool bad; int w[160];
    static const priority all[7] = {p0, p1, p2, p3, p4, p5, p6};
    VK_ASSERT(sysconfig::event_number >= n, "the bound of this entry");
    for (int i = 0; i < n; ++i) { int p[2]; if (i < 30) { ::pipe(p); w[i] = p[1]; } else { p[0] = ::eventfd(0, 0); w[i] = p[0]; } o[i] = std::make_shared<nstream>(p[0]); ev.fd_register(o[i], E(R), [i](const std::shared_ptr<nio> &x) { ++calls[i]; if (no < 160) ord[no++] = i; if (x != o[i]) bad = true; }, true, all[(i * 3) % 7]); }
    VK_ASSERT(ev.ev_loads() == n && vkw_interest_count(ev.ev_fd()) == n, "every registration counts");
    int how = choose(3, "ready"); bool rdy[160]; int cnt = 0;   // all, odd ones, the last ones
    for (int i = 0; i < n; ++i) { rdy[i] = how == 0 || (how == 1 ? i % 2 : i > n - 5); if (rdy[i]) { ++cnt; uint64_t one = 1; ::write(w[i], &one, i < 30 ? 1 : 8); } }
    ev.loop_once(0);
    for (int i = 0; i < n; ++i) VK_ASSERT(calls[i] == (rdy[i] ? 1 : 0), "a pass serves as many descriptors as fit its batch");
    VK_ASSERT(no == cnt && !bad, "each ready handler runs once with its object");
    for (int i = 1; i < no; ++i) VK_ASSERT((int)all[(ord[i - 1] * 3) % 7] >= (int)all[(ord[i] * 3) % 7], "handlers run in order of priority");
    for (int i = 0; i < n; ++i) { if (i % 2) ev.fd_remove(o[i]); }
    VK_ASSERT(ev.ev_loads() == n - n / 2 && vkw_interest_count(ev.ev_fd()) == n - n / 2, "removed registrations are gone");
    ev.loop_once(0);
    for (int i = 0; i < n; ++i) VK_ASSERT(calls[i] == (!rdy[i] ? 0 : i % 2 ? 1 : 2), "a handler that was removed does not run, the others do"); 
    vk_reach("many"); for (int i = 0; i < n; ++i) o[i].reset();
}
// one loop used by two threads that register and remove
static __attribute__((noinline)) int loads_of(event_loop *e) { return e->ev_loads(); }
ENTRY evl_race() {
    calm(); sysconfig::event_number = 4; event_loop ev; static event_loop *pe; pe = &ev; vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_UNLOCK | VKP_THREAD;
    static std::shared_ptr<nio> a, b; int p[2], q[2]; ::pipe(p); ::pipe(q); a = std::make_shared<nstream>(p[0]); b = std::make_shared<nstream>(q[0]); static Cnt ca, cb; char c = 'x';
    static int op; op = choose(3, "other thread"); int mine = choose(3, "this thread");
    ev.fd_register(a, E(R), [](const std::shared_ptr<nio> &) { ++ca; }); if (mine == 1) ev.fd_register(b, E(R), [](const std::shared_ptr<nio> &) { ++cb; });
    vkw.preempt = param("preempt", 2); static int ld;
    Thr t; t.start([](void *) -> void * { if (op == 0) pe->fd_remove(a); if (op == 1) pe->fd_register(a, E(W), [](const std::shared_ptr<nio> &) { ++ca; }, false); if (op == 2) ld = loads_of(pe); return nullptr; }, nullptr);
    if (mine == 0) ev.fd_register(b, E(R), [](const std::shared_ptr<nio> &) { ++cb; });
    if (mine == 1) ev.fd_remove(b);
    int l2 = 0; if (mine == 2) l2 = loads_of(&ev);
    t.join(); vkw.preempt = 0;
    int na = op == 0 ? 0 : op == 1 ? 2 : 1, nb = mine == 0 ? 1 : 0;
    VK_ASSERT((op != 2 || (ld >= 0 && ld <= 3)) && (mine != 2 || (l2 >= 0 && l2 <= 3)), "the load is a number of handlers that were registered");     VK_ASSERT(ev.ev_loads() == na + nb, "registrations of two threads both count");
    ::write(p[1], &c, 1); ::write(q[1], &c, 1); ev.loop_once(0);
    VK_ASSERT(ca == (op == 0 ? 0 : 1) && cb == nb, "registrations of two threads both count"); vk_reach("both");
    a.reset(); b.reset();
}
// ------------------------------------------------------------ handlers that change registrations during a pass
static event_loop *gl; static std::shared_ptr<nio> gs[3]; static int cnt_[3], act_[3]; static bool removed[3], replaced[3]; static int newcalls;
static void act(int who) {
    cnt_[who]++; VK_ASSERT(!removed[who] && !replaced[who], "a removed handler is not run");
    int what = act_[who], tgt = what & 3; what >>= 2;
    if (!what) return;
    if (what == 1 && !removed[tgt]) { gl->fd_remove(gs[tgt]); removed[tgt] = true; if (tgt != who) vk_reach("removed another"); }
    if (what == 2 && !removed[tgt]) { gl->fd_remove(gs[tgt], true, false); gs[tgt]->close(); removed[tgt] = true; vk_reach("closed"); }
    if (what == 3 && !removed[tgt] && !replaced[tgt]) { gl->fd_remove(gs[tgt]); gl->fd_register(gs[tgt], E(R), [](const std::shared_ptr<nio> &) { ++newcalls; }); replaced[tgt] = true; vk_reach("replaced"); }
}
ENTRY evl_reentrant() {
    int n = param("fds", 3); calm(); vkw.epoll_order = 1; sysconfig::event_number = 4; event_loop ev; gl = &ev;
    for (int i = 0; i < n; ++i) {
        int p[2]; ::pipe(p); gs[i] = std::make_shared<nstream>(p[0]); char c = 'x'; ::write(p[1], &c, 1);
        act_[i] = choose(4, "action") * 4; if (act_[i]) act_[i] |= choose(n, "target");
        ev.fd_register(gs[i], E(R), [i](const std::shared_ptr<nio> &) { act(i); }, true, choose(2, "prio") ? p0 : p3);
    }
    ev.loop_once(0);
    VK_ASSERT(newcalls == 0, "a handler registered during a pass waits for the next one");
    for (int i = 0; i < n; ++i) VK_ASSERT(cnt_[i] == 1 || (cnt_[i] == 0 && (removed[i] || replaced[i])), "every other ready handler runs once");
    ev.loop_once(0);
    int want = 0; for (int i = 0; i < n; ++i) want += replaced[i] && !removed[i];
    VK_ASSERT(newcalls == want, "a handler registered during a pass runs in the next one");
    for (int i = 0; i < n; ++i) gs[i].reset();
}
// ------------------------------------------------------------ how long a pass waits
static int late_fd; static int64_t late_at; static bool forever_; static event_loop *tl; static Cnt ran_;
ENTRY evl_timeout() {
    static const int T[] = {-1, 0, 1, 30, 999, 1500, 70000}, L[] = {-1, 0, 1, 29, 31, 1200, 69999, 100000}; calm(); vkw.now = 7000000000; event_loop ev; tl = &ev; ran_ = 0;
    int p[2]; ::pipe(p); late_fd = p[1]; auto a = std::make_shared<nstream>(p[0]); ev.fd_register(a, E(R), [](const std::shared_ptr<nio> &i) { ran_ = ran_ + 1; char c; (void)!::read(i->fd(), &c, 1); if (forever_) tl->stop_loop_forever(); });
    int to = T[choose(7, "timeout")], at = L[choose(8, "arrival")]; forever_ = choose(2, "forever"); if (at < 0 && (to < 0 || forever_)) return; if (forever_ && to >= 0 && (to == 0 || at / to > 100)) return;
    int64_t start = vkw.now; Thr t; if (at == 0) { char c = 'x'; (void)!::write(p[1], &c, 1); } else if (at > 0) { late_at = at; t.start([](void *) -> void * { timespec s = {(time_t)(late_at / 1000), (long)(late_at % 1000) * 1000000}; nanosleep(&s, nullptr); char c = 'x'; (void)!::write(late_fd, &c, 1); return nullptr; }, nullptr); }
    if (forever_) { ev.loop_forever(to); VK_ASSERT(ran_ == 1 && vkw.now - start == (int64_t)at * 1000000, "a pass ends as soon as something is ready"); vk_reach("forever"); }
    else {
        ev.loop_once(to); bool seen = at >= 0 && (to < 0 || at < to || at == 0); VK_ASSERT(ran_ == (seen ? 1 : 0), "each ready handler runs once"); VK_ASSERT(vkw.now - start == (int64_t)(seen ? at : to) * 1000000, seen ? "a pass ends as soon as something is ready" : "a pass with nothing ready ends when its timeout has passed, not before"); vk_reach(seen ? "ready" : "timeout");
    }
    if (at > 0) t.join(); a.reset();
}
// ------------------------------------------------------------ a handler that raises, or runs a pass itself
ENTRY evl_nested() {
    int n = param("fds", 3); calm(); vkw.epoll_order = 1; sysconfig::event_number = range(n, n + 1, "batch"); event_loop ev; gl = &ev; static int rd_[3], pass_[3], wr[3]; static bool raise, drain;
    int who = choose(n, "who"); raise = choose(2, "raise"); drain = choose(2, "drain"); static int me; me = who; char c = 'x'; int pass = 0; (void)pass;
    for (int i = 0; i < n; ++i) {
        int p[2]; ::pipe(p); gs[i] = std::make_shared<nstream>(p[0]); wr[i] = p[1]; ::write(p[1], &c, 1);
        ev.fd_register(gs[i], E(R), [i](const std::shared_ptr<nio> &p) {
            ++cnt_[i]; char x; if (drain || i == me) { ssize_t r = ::read(p->fd(), &x, 1); VK_ASSERT(r == 1 || (!raise && i != me), "a handler runs only when its event is pending"); }
            if (i == me && rd_[i]++ == 0) { if (raise) throw std::runtime_error("handler"); gl->loop_once(0); for (int k = 0; k < 3; ++k) pass_[k] = cnt_[k]; }
        }, true, choose(2, "prio") ? p0 : p3);
    }
    bool th = false; try { ev.loop_once(0); } catch (const std::runtime_error &e) { th = std::string(e.what()) == "handler"; }
    VK_ASSERT(th == raise, "the error of a handler reaches the caller of the pass");
    VK_ASSERT(cnt_[who] == 1, "a handler runs once per pass");
    int first[3]; for (int i = 0; i < n; ++i) { first[i] = cnt_[i]; if (i != who) { if (raise) VK_ASSERT(cnt_[i] <= 1, "a handler runs once per pass"); else { VK_ASSERT(cnt_[i] >= 1 && cnt_[i] <= 2, "a handler runs at most once in each pass"); } } }
    if (!raise) for (int i = 0; i < n; ++i) VK_ASSERT(pass_[i] <= 1 || (i != who && cnt_[i] <= 2 && pass_[i] <= 2), "a pass within a handler runs each handler at most once");
    bool again = choose(2, "again"); if (again) ::write(wr[who], &c, 1);
    ev.loop_once(0);
    for (int i = 0; i < n; ++i) {
        bool pending = i == who ? again : !drain || !first[i];
        VK_ASSERT(cnt_[i] == first[i] + (pending ? 1 : 0), "the pass after an error or a pass within a handler runs each ready handler once");
    }
    vk_reach(raise ? "raised" : "nested"); ev.loop_once(0); for (int i = 0; i < n; ++i) gs[i].reset();
}
// ------------------------------------------------------------ the peer goes away
ENTRY evl_hangup() {
    calm(); sysconfig::event_number = 4; vkw.pipe_cap = vkw.sock_cap = 1; vkw.sigpipe_kills = 0; event_loop ev; int calls = 0;
    int kind = choose(3, "kind"), p[2]; bool data = choose(2, "data"); char c = 'x';
    std::shared_ptr<nio> o;
    if (kind == 0) { ::pipe(p); o = std::make_shared<nstream>(p[0]); if (data) ::write(p[1], &c, 1); ::close(p[1]); }
    else if (kind == 1) { ::pipe(p); o = std::make_shared<nstream>(p[1]); if (data) ::write(p[1], &c, 1); ::close(p[0]); }
    else { raw_pair(p); o = std::make_shared<nsocktcp>(p[0], family::local); if (data) ::write(p[1], &c, 1); ::close(p[1]); }
    ev.fd_register(o, E(kind == 1 ? W : R), [&](const std::shared_ptr<nio> &) { ++calls; });
    ev.loop_once(0);
    VK_ASSERT(calls == 1, "a peer that goes away wakes the handler");
    vk_reach("hangup");
}
// ------------------------------------------------------------ stopping
struct Stop { event_loop *ev; Cnt runs{0}; std::shared_ptr<nio> n; bool self; };
ENTRY evl_stop() {
    calm(); sysconfig::event_number = 4; int base = vkw_open_fds(); vkw.eintr = param("eintr", 0);
    vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_UNLOCK | VKP_THREAD | VKP_IO | VKP_ATOMIC;
    {
        event_loop ev; Stop st; st.ev = &ev; st.self = choose(2, "stop from a handler"); int wfd = -1;
        int p[2]; ::pipe(p); st.n = std::make_shared<nstream>(p[0]); wfd = p[1];
        Stop *sp = &st;
        ev.fd_register(st.n, E(R), [sp](const std::shared_ptr<nio> &x) { static_cast<nstream *>(dynamic_cast<nstream *>(x.get()))->read_all(); ++sp->runs; if (sp->self) sp->ev->stop_loop_forever(); });
        bool before = choose(2, "stop before start"), msg = st.self || choose(2, "message");
        char c = 'x';
        if (msg && choose(2, "message early")) { while (::write(wfd, &c, 1) != 1) { } msg = false; vk_reach("early"); }
        if (before && !st.self) ev.stop_loop_forever();
        vkw.preempt = param("preempt", 2);
        Thr t; t.start([](void *a) -> void * { ((Stop *)a)->ev->loop_forever(); return nullptr; }, &st);
        if (msg) { while (::write(wfd, &c, 1) != 1) { } }
        if (!before && !st.self) ev.stop_loop_forever();
        t.join();                       // a loop that never returns is a deadlock here
        vk_reach("stopped"); if (st.self) vk_reach("stopped from a handler");
        ::close(wfd); vkw.preempt = 0;
    }
    VK_ASSERT(vkw_open_fds() == base && vkw.bad_close == 0, "stopping and destroying a loop releases its descriptors");
}
// ------------------------------------------------------------ registering while another thread runs the loop
ENTRY evl_concurrent() {
    calm(); sysconfig::event_number = 4; event_loop ev; static Cnt a{0}, b{0}; static bool gone; static std::atomic<bool> late; late = false;
    vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_UNLOCK | VKP_THREAD;
    int p[2], q[2]; char c = 'x'; ::pipe(p); ::pipe(q);
    auto n1 = std::make_shared<nstream>(p[0]), n2 = std::make_shared<nstream>(q[0]);
    auto h = [](Cnt *k) { return [k](const std::shared_ptr<nio> &x) { dynamic_cast<nstream *>(x.get())->read_all(); ++*k; }; };
    if (choose(2, "one registered before")) { ev.fd_register(n1, E(R), h(&a)); } else n1.reset();
    (void)gone;
    vkw.preempt = param("preempt", 2);
    Thr t; t.start([](void *x) -> void * { ((event_loop *)x)->loop_forever(); return nullptr; }, &ev);
    bool early = choose(2, "data before registration");
    if (early) ::write(q[1], &c, 1);
    ev.fd_register(n2, E(R), h(&b));
    if (!early) ::write(q[1], &c, 1);
    if (n1) ::write(p[1], &c, 1);
    int loads = ev.ev_loads(); VK_ASSERT(loads == (n1 ? 2 : 1), "the load counts every registration");
    vkw_pause();                        // until the loop has nothing left to do
    VK_ASSERT(b == 1, "data on a descriptor registered from another thread reaches its handler");
    VK_ASSERT(!n1 || a == 1, "registering does not disturb other handlers");
    vk_reach("delivered");
    if (choose(2, "remove from another thread")) { ev.fd_remove(n2); ::write(q[1], &c, 1); vkw_pause(); VK_ASSERT(b == 1, "a removed handler is not run"); vk_reach("removed"); }
    ev.stop_loop_forever(); t.join();
}
// ------------------------------------------------------------ two loops in two threads have nothing to do with each other
struct Duo { event_loop ev; std::shared_ptr<nio> o; int wr, tid = -1, calls = 0; bool bad = false; };
ENTRY evl_two_threads() {
    calm(); vkw.park_boot = 1; vkw.epoll_order = 0; sysconfig::event_number = 4; vkw.preempt_ops = VKP_EPOLL | VKP_LOCK | VKP_THREAD; static Duo *d[2]; int base = vkw_open_fds(), passes = range(1, 2, "passes"); static int ps; ps = passes;
    for (int i = 0; i < 2; ++i) {
        int p[2]; ::pipe(p); d[i] = new Duo; d[i]->wr = p[1]; d[i]->o = std::make_shared<nstream>(p[0]); Duo *x = d[i]; for (int k = 0; k < passes; ++k) ::write(p[1], "abc" + i, 1);
        d[i]->ev.fd_register(d[i]->o, E(R), [x](const std::shared_ptr<nio> &n) { if (n != x->o || &n->evlp() != &x->ev) x->bad = true; int t = vkw_self_tid(); if (x->tid >= 0 && x->tid != t) x->bad = true; x->tid = t; char c; if (::read(n->fd(), &c, 1) != 1) x->bad = true; ++x->calls; });
    }
    vkw.preempt = param("preempt", 1); Thr t; t.start([](void *a) -> void * { for (int k = 0; k < ps; ++k) ((Duo *)a)->ev.loop_once(-1); return nullptr; }, d[1]);
    for (int k = 0; k < passes; ++k) d[0]->ev.loop_once(-1); t.join(); vkw.preempt = 0;
    for (int i = 0; i < 2; ++i) { VK_ASSERT(!d[i]->bad, "a handler runs in the loop and the thread it was registered with"); VK_ASSERT(d[i]->calls == passes, "a pass runs exactly the handlers whose watched event is pending, once each"); ::close(d[i]->wr); delete d[i]; }
    VK_ASSERT(vkw_open_fds() == base, "stopping and destroying a loop releases its descriptors"); vk_reach("two loops");
}
// an object closed by its owner, whose number is used again
ENTRY evl_closed() {
    calm(); vkw.epoll_order = 0; sysconfig::event_number = 4; event_loop ev; static int calls[4]; static std::shared_ptr<nio> o[2]; for (int &c : calls) c = 0; int p[2], q[2]; ::pipe(p); o[0] = std::make_shared<nstream>(p[0]);
    int two = choose(2, "two handlers"); ev.fd_register(o[0], E(R), [](const std::shared_ptr<nio> &) { ++calls[0]; }); if (two) ev.fd_register(o[0], E(W), [](const std::shared_ptr<nio> &) { ++calls[1]; }, false);
    o[0]->close(); VK_ASSERT(throws_sys([&] { ev.fd_remove(o[0], true, false); }) == 0, "a closed descriptor can be removed without asking the system"); VK_ASSERT(ev.ev_loads() == 0, "the load is the number of registered handlers"); if (choose(2, "pass")) ev.loop_once(0);
    ::pipe(q); VK_ASSERT(q[0] == p[0], "the number is used again"); o[1] = std::make_shared<nstream>(q[0]); ev.fd_register(o[1], E(R), [](const std::shared_ptr<nio> &x) { calls[2] += x == o[1]; ++calls[3]; }); ::write(q[1], "x", 1); ev.loop_once(0);
    VK_ASSERT(calls[0] == 0 && calls[1] == 0 && calls[2] == 1 && calls[3] == 1, "a pass runs exactly the handlers whose watched event is pending, once each"); VK_ASSERT(ev.ev_loads() == 1 && vkw_interest_count(ev.ev_fd()) == 1, "the load is the number of registered handlers"); ev.fd_remove(o[1]); o[0].reset(); o[1].reset(); ::close(q[1]); ::close(p[1]); vk_reach("closed");
}
// ------------------------------------------------------------ the batch size changes how many passes it takes, not what happens
ENTRY evl_tuned() {
    calm(); vkw.epoll_order = 0; int n = param("fds", 3); static const int sizes[4] = {1, 2, 3, 2048}; static int calls[4]; static std::shared_ptr<nio> o[4]; static bool rdy[4]; sysconfig::event_number = sizes[choose(4, "batch")]; event_loop ev; int wr[4];
    for (int i = 0; i < n; ++i) { int p[2]; ::pipe(p); wr[i] = p[1]; o[i] = std::make_shared<nstream>(p[0]); ev.fd_register(o[i], E(R), [i](const std::shared_ptr<nio> &x) { ++calls[i]; static_cast<nstream *>(dynamic_cast<nstream *>(x.get()))->read_all(); }, true, prios[choose(3, "prio")]); }
    for (int i = 0; i < n; ++i) { rdy[i] = choose(2, "ready"); char c = 'x'; if (rdy[i]) ::write(wr[i], &c, 1); }
    for (int i = 0; i < n; ++i) { if (i == 1 && choose(2, "changed")) sysconfig::event_number = sizes[choose(4, "batch")]; ev.loop_once(0); }
    for (int i = 0; i < n; ++i) VK_ASSERT(calls[i] == rdy[i], "every ready handler has run after as many passes as there are descriptors, once per event");
    vk_reach("served"); for (int i = 0; i < n; ++i) o[i].reset();
}
