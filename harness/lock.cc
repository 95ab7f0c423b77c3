#include "net.h"
#include "cppev/lock.h"
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_LOCK | VKP_COND | VKP_THREAD | VKP_ATOMIC | VKP_UNLOCK; }
static int procs;    // use a process of its own for every thread
static void start(Thr &t, void *(*f)(void *), void *a) { t.start(f, a); }
static void enter() { if (procs) vkw_new_proc(); }

// ---- one-time fence
static pshared_one_time_fence *fence; static int payload; static Cnt passed, notified;
static void *f_wait(void *) { enter(); fence->wait(); VK_ASSERT(notified, "waiting ends only after the notification"); VK_ASSERT(payload == 77, "what was written before the notification is visible after waiting"); VK_ASSERT(fence->ok(), "the fence reports the notification"); ++passed; return nullptr; }
static void *f_notify(void *) { enter(); notified = 1; fence->notify(); return nullptr; }
ENTRY fence_wait() {
    setup(); int waiters = range(1, param("waiters", 2), "waiters"), early = choose(waiters + 1, "waiters before the notification"), twice = param("twice", 1) && choose(2, "notify twice"); procs = choose(2, "processes");
    pshared_one_time_fence f; fence = &f; VK_ASSERT(!f.ok(), "a fence starts closed"); Thr t[3], n; vkw.spurious = param("spurious", 1);
    vkw.preempt = param("preempt", 2); bool settle = choose(2, "settle");
    for (int i = 0; i < early; ++i) start(t[i], f_wait, nullptr);
    if (settle) { vkw_pause(); VK_ASSERT(passed == 0, "nobody passes a fence that was not opened"); VK_ASSERT(!f.ok(), "a fence stays closed until notified"); }
    payload = 77;
    if (twice) n.start(f_notify, nullptr);
    notified = 1; f.notify(); VK_ASSERT(f.ok(), "the fence reports the notification");
    for (int i = early; i < waiters; ++i) start(t[i], f_wait, nullptr);
    if (twice) n.join();
    for (int i = 0; i < waiters; ++i) t[i].join();
    VK_ASSERT(passed == waiters, "every waiter passes once the fence is open"); f.wait();
    if (waiters > 1 && early > 1) vk_reach("several waiters"); if (early == 0) vk_reach("late waiters"); if (twice) vk_reach("notified twice"); if (procs) vk_reach("processes");
}
// ---- barrier
static pshared_barrier *bar; static Cnt arrived, left, refused; static int need; static int cell[4];
static void *b_wait(void *a) {
    enter(); long i = (long)a; if (i < 4) cell[i] = 5; ++arrived;
    int r = throws<std::logic_error>([] { bar->wait(); });
    if (r == 0) { VK_ASSERT(arrived >= need, "nobody passes the barrier before the last one arrives"); ++left; }
    else { VK_ASSERT(r == 1, "a caller in excess gets a logic error"); VK_ASSERT(arrived > need, "only callers in excess are refused"); ++refused; }
    return nullptr;
}
ENTRY barrier_wait() {
    setup(); need = range(1, param("count", 2), "count"); int extra = param("extra", 1) ? choose(param("extra", 1) + 1, "callers in excess") : 0; procs = choose(2, "processes"); vkw.spurious = param("spurious", 1);
    pshared_barrier b(need); bar = &b; Thr t[4]; vkw.preempt = param("preempt", 2);
    bool settle = choose(2, "settle");
    for (int i = 0; i < need - 1; ++i) start(t[i], b_wait, (void *)(long)i);
    if (settle) { vkw_pause(); VK_ASSERT(left == 0, "nobody passes the barrier before the last one arrives"); }
    for (int i = need - 1; i < need + extra; ++i) start(t[i], b_wait, (void *)(long)i);
    for (int i = 0; i < need + extra; ++i) t[i].join();
    VK_ASSERT(left == need, "as many callers pass as the barrier was made for"); VK_ASSERT(refused == extra, "callers in excess are refused and disturb nobody");
    if (extra) vk_reach("callers in excess"); if (need > 1) vk_reach("several"); if (procs) vk_reach("processes");
}
ENTRY barrier_visible() {   // what was written before arriving is visible to whoever passes
    setup(); pshared_barrier b(2); bar = &b; need = 2; vkw.preempt = param("preempt", 2); Thr t;
    t.start([](void *) -> void * { cell[0] = 5; bar->wait(); VK_ASSERT(cell[1] == 6, "what was written before the barrier is visible after it"); return nullptr; }, nullptr);
    cell[1] = 6; b.wait(); VK_ASSERT(cell[0] == 5, "what was written before the barrier is visible after it"); t.join(); vk_reach("passed");
}
// ---- mutual exclusion
static spinlock *sp; static pshared_lock *pl; static pshared_rwlock *rw; static int shared_n, kind_; static Cnt inside, readers, writers;
static void lockit() { if (kind_ == 0) sp->lock(); else if (kind_ == 1) pl->lock(); else rw->wrlock(); }
static bool tryit() { return kind_ == 0 ? sp->trylock() : kind_ == 1 ? pl->try_lock() : rw->try_wrlock(); }
static void unlockit() { if (kind_ == 0) sp->unlock(); else if (kind_ == 1) pl->unlock(); else rw->unlock(); }
static void mainWork(int rounds) {
    for (int k = 0; k < rounds; ++k) {
        bool got = true; if (choose(2, "try")) got = tryit(); else lockit();
        if (got) { VK_ASSERT(++inside == 1, "only one thread at a time holds the lock"); int v = shared_n; vkw_yield(); shared_n = v + 1; --inside; ++passed; unlockit(); }
    }
}
static void *m_work(void *a) { if (kind_) enter(); mainWork((int)(long)a); return nullptr; }
ENTRY lock_exclusive() {
    setup(); kind_ = choose(3, "lock"); procs = kind_ && choose(2, "processes"); spinlock a; pshared_lock b; pshared_rwlock c; sp = &a; pl = &b; rw = &c;
    vkw.preempt = param("preempt", 2); Thr t; t.start(m_work, (void *)(long)param("rounds", 1)); mainWork(param("rounds", 1)); t.join();
    VK_ASSERT(shared_n == passed, "updates made under the lock are not lost"); vk_reach("done"); VK_ASSERT(tryit(), "a lock nobody holds can be taken"); unlockit();
}
static Cnt res;
static void *try_other(void *) { bool r = tryit(); if (r) unlockit(); res = r; return nullptr; }
static void *try_read(void *) { bool r = rw->try_rdlock(); if (r) rw->unlock(); res = r; return nullptr; }
ENTRY lock_try() {      // try succeeds exactly when nobody holds the lock
    setup(); kind_ = choose(3, "lock"); spinlock a; pshared_lock b; pshared_rwlock c; sp = &a; pl = &b; rw = &c;
    int hold = choose(3, "held");   // 0 free, 1 exclusively, 2 shared (rwlock)
    if (hold == 2 && kind_ != 2) return;
    if (hold == 1) { if (choose(2, "by try")) VK_ASSERT(tryit(), "a free lock can be taken"); else lockit(); } if (hold == 2) { if (choose(2, "by try")) VK_ASSERT(c.try_rdlock(), "a free lock can be taken"); else c.rdlock(); }
    Thr t; bool rd = kind_ == 2 && choose(2, "read"); t.start(rd ? try_read : try_other, nullptr); t.join();
    VK_ASSERT(res == (rd ? hold != 1 : hold == 0), "trying succeeds exactly when the lock is compatible with its holders");
    if (hold) unlockit();
    t.start(rd ? try_read : try_other, nullptr); t.join(); VK_ASSERT(res == 1, "an unlocked lock can be taken"); vk_reach("tried");
}
static void *r_work(void *) { rw->rdlock(); ++readers; VK_ASSERT(writers == 0, "no writer while there are readers"); vkw_yield(); VK_ASSERT(writers == 0, "no writer while there are readers"); if (readers > 1) vk_reach("two readers"); --readers; rw->unlock(); return nullptr; }
static void *w_work(void *) { rw->wrlock(); ++writers; VK_ASSERT(writers == 1 && readers == 0, "a writer is alone"); vkw_yield(); VK_ASSERT(writers == 1 && readers == 0, "a writer is alone"); --writers; rw->unlock(); return nullptr; }
ENTRY rw_exclusive() {
    setup(); pshared_rwlock c; rw = &c; vkw.preempt = param("preempt", 2); Thr t[3]; t[0].start(r_work, nullptr); t[1].start(choose(2, "writer") ? w_work : r_work, nullptr); w_work(nullptr); t[0].join(); t[1].join(); vk_reach("done");
}
ENTRY lock_errors() {   // misuse and failing initialisation are reported
    setup(); int what = choose(6, "what"); vkw.strict_misuse = 0;
    if (what == 5) {   // any call fails with any error
        spinlock x; pshared_lock y; pshared_rwlock z; pshared_cond c; int op = choose(14, "call"), r; bool got = false; std::unique_lock<pshared_lock> u(y, std::defer_lock); if (op == 2) x.lock(); if (op == 5) y.lock(); if (op == 6 || op == 7) u.lock(); if (op == 12) z.rdlock(); if (op == 13) z.wrlock();
        vkw.fault_ops = VKF_PTLOCK; vkw.faults = 1; vkw.fault_any = 1;
        r = throws_sys([&] { switch (op) { case 0: x.lock(); break; case 1: got = x.trylock(); break; case 2: x.unlock(); break; case 3: y.lock(); break; case 4: got = y.try_lock(); break; case 5: y.unlock(); break; case 6: c.notify_one(); break; case 7: c.notify_all(); break; case 8: z.rdlock(); break; case 9: z.wrlock(); break; case 10: got = z.try_rdlock(); break; case 11: got = z.try_wrlock(); break; default: z.unlock(); } });
        vkw.fault_any = 0; bool hit = vkw.faults == 0; vkw.faults = 0; int e = vkw.last_errno; bool tries = op == 1 || op == 4 || op == 10 || op == 11;
        if (!hit) { VK_ASSERT(r == 0 && (!tries || got), "a call that does not fail reports no error"); if (op == 0 || op == 1) x.unlock(); if (op == 3 || op == 4) y.unlock(); if (op >= 8 && op <= 11) z.unlock(); return; }
        if (tries) vk_assume(e != EBUSY && !(op == 10 && e == EAGAIN)); VK_ASSERT(r == 1 && g_code == e && !got, "a failing lock call is reported with its error number"); vk_reach("call fails");
        if (op == 2) x.unlock(); if (op == 5) y.unlock(); if (op >= 12) z.unlock(); return;
    }
    if (what == 0) { pshared_lock l; l.lock(); int r = throws_sys([&] { l.lock(); }); VK_ASSERT(r == 1 && g_code == EDEADLK, "locking twice is reported"); VK_ASSERT(!l.try_lock(), "trying a lock held by the caller fails"); l.unlock(); r = throws_sys([&] { l.unlock(); }); VK_ASSERT(r == 1 && g_code == EPERM, "unlocking a lock the caller does not hold is reported"); vk_reach("misuse"); return; }
    vkw.fault_ops = VKF_PTINIT; vkw.faults = 1; int r = 0;
    if (what == 1) r = throws_sys([] { spinlock x; }); if (what == 2) r = throws_sys([] { pshared_lock x; }); if (what == 3) r = throws_sys([] { pshared_cond x; }); if (what == 4) r = throws_sys([] { pshared_rwlock x; });
    if (vkw.faults == 0) { VK_ASSERT(r == 1 && (g_code == EAGAIN || g_code == ENOMEM), "failing to make a lock is reported"); vk_reach("fault"); } else VK_ASSERT(r == 0, "making a lock succeeds");
}
// ---- guards
template <typename G> static void guards(bool wr) {
    pshared_rwlock a, b; int me = vkw_self_tid() + 1;
    auto held = [&](pshared_rwlock &l) { return wr ? vkw_rw_writer(&l) == me : vkw_rw_readers(&l); };
    G *g[2] = {new G(a), nullptr}; int own[2] = {0, -1}; bool on[2] = {true, false};   // own: which lock a guard is bound to (-1 none); on: holds it
    VK_ASSERT(held(a) == 1, "a guard takes the lock");
    bool second = choose(2, "second guard"); if (second) { g[1] = new G(b); own[1] = 1; on[1] = true; }
    int steps = param("steps", 2);
    for (int s = 0; s < steps; ++s) {
        int k = choose(7, "op");
        if (k == 6 && g[1]) { std::swap(g[0], g[1]); std::swap(own[0], own[1]); std::swap(on[0], on[1]); }
        else if (k == 0 && g[0] && own[0] >= 0 && on[0]) { g[0]->unlock(); on[0] = false; vk_reach("unlock"); }
        else if (k == 1 && g[0] && own[0] >= 0 && !on[0]) { g[0]->lock(); on[0] = true; vk_reach("lock again"); }
        else if (k == 2 && g[0] && g[1]) { *g[0] = std::move(*g[1]); own[0] = own[1]; on[0] = on[1]; own[1] = -1; on[1] = false; vk_reach("move assign"); }
        else if (k == 3 && g[0] && !g[1]) { g[1] = new G(std::move(*g[0])); own[1] = own[0]; on[1] = on[0]; own[0] = -1; on[0] = false; vk_reach("move construct"); }
        else if (k == 4 && g[0]) { G &r = *g[0]; r = std::move(*g[0]); vk_reach("self move"); }
        else if (k == 5 && g[0]) { delete g[0]; g[0] = nullptr; own[0] = -1; on[0] = false; vk_reach("destroyed"); }
        else break;
        for (int l = 0; l < 2; ++l) { int want = 0; for (int i = 0; i < 2; ++i) want += own[i] == l && on[i]; VK_ASSERT(held(l ? b : a) == want, "a lock is held exactly while a guard holds it"); }
    }
    for (int i = 0; i < 2; ++i) delete g[i];
    VK_ASSERT(!held(a) && !held(b), "destroying the guards releases the locks"); vk_reach("done");
}
// two guards that share one lock; locking that fails
template <typename G> static void failing(bool wr) {
    pshared_rwlock a; int me = vkw_self_tid() + 1; bool gone = choose(2, "moved on"); G *g = new G(a); g->unlock(); a.wrlock();
    int r = throws_sys([&] { g->lock(); }); VK_ASSERT(r == 1 && g_code == EDEADLK, "locking twice is reported"); VK_ASSERT(vkw_rw_writer(&a) == me, "a guard that could not take the lock does not release it");
    if (gone) { G h(std::move(*g)); } delete g; VK_ASSERT(vkw_rw_writer(&a) == me, "a guard that could not take the lock does not release it"); a.unlock(); VK_ASSERT(a.try_wrlock(), "a lock nobody holds can be taken"); a.unlock(); vk_reach("locking failed"); (void)wr;
}
static void together() {
    pshared_rwlock a; rdlockguard *x = new rdlockguard(a), *y = new rdlockguard(a); VK_ASSERT(vkw_rw_readers(&a) == 2, "readers share the lock"); int have = 2;
    if (choose(2, "unlock one")) { (choose(2, "which") ? x : y)->unlock(); --have; }
    bool xh = true, yh = true; (void)xh; (void)yh; int k = choose(3, "op");
    if (k == 0) { *x = std::move(*y); vk_reach("same lock"); } else if (k == 1) { delete x; x = nullptr; } else { rdlockguard z(std::move(*x)); *y = std::move(z); }
    int left = vkw_rw_readers(&a); VK_ASSERT(left <= have && have - left <= 1, "a lock is held exactly while a guard holds it"); if (have == 2) VK_ASSERT(left == 1, "a move assignment releases what the guard held before");
    delete x; delete y; VK_ASSERT(vkw_rw_readers(&a) == 0 && a.try_wrlock(), "destroying the guards releases the locks"); a.unlock();
}
ENTRY guard_shared() { setup(); vkw.strict_misuse = 0; int k = choose(3, "what"); if (k == 0) together(); else if (k == 1) failing<rdlockguard>(false); else failing<wrlockguard>(true); }
ENTRY guard_ops() { setup(); if (choose(2, "write")) guards<wrlockguard>(true); else guards<rdlockguard>(false); }
static void *gr(void *) { rdlockguard g(*rw); VK_ASSERT(writers == 0, "no writer while there are readers"); ++readers; vkw_yield(); VK_ASSERT(writers == 0, "no writer while there are readers"); --readers; return nullptr; }
static void *gw(void *) { try { wrlockguard g(*rw); ++writers; VK_ASSERT(writers == 1 && readers == 0, "a writer is alone"); vkw_yield(); VK_ASSERT(writers == 1 && readers == 0, "a writer is alone"); --writers; throw 1; } catch (int) { } return nullptr; }
ENTRY guard_exclusive() { setup(); pshared_rwlock c; rw = &c; vkw.preempt = param("preempt", 2); Thr t[2]; t[0].start(gr, nullptr); t[1].start(choose(2, "writer") ? gw : gr, nullptr); gw(nullptr); t[0].join(); t[1].join(); VK_ASSERT(c.try_wrlock(), "the lock is free after the guards are gone"); c.unlock(); vk_reach("done"); }
// ---- condition variable
static pshared_cond *cv; static int items, want_;
static void *c_take(void *) { enter(); std::unique_lock<pshared_lock> l(*pl); cv->wait(l, [] { return items > 0; }); VK_ASSERT(l.owns_lock() && vkw_mutex_owner(pl) == vkw_self_tid() + 1, "waiting returns with the lock held"); VK_ASSERT(items > 0, "waiting returns only when the condition holds"); --items; ++passed; return nullptr; }
ENTRY cond_wait() {
    setup(); int n = range(1, param("waiters", 2), "waiters"), all = choose(2, "notify all"), outside = choose(2, "notify after unlocking"); procs = choose(2, "processes"); vkw.spurious = param("spurious", 1);
    pshared_lock l; pshared_cond c; pl = &l; cv = &c; Thr t[3]; vkw.preempt = param("preempt", 2); if (!procs) vkw.preempt_ops &= ~VKP_ATOMIC;
    for (int i = 0; i < n; ++i) t[i].start(c_take, nullptr);
    if (all) { { std::unique_lock<pshared_lock> g(l); items = n; if (!outside) c.notify_all(); } if (outside) c.notify_all(); }
    else for (int i = 0; i < n; ++i) { { std::unique_lock<pshared_lock> g(l); ++items; if (!outside) c.notify_one(); } if (outside) c.notify_one(); }
    for (int i = 0; i < n; ++i) t[i].join();
    VK_ASSERT(passed == n && items == 0, "every waiter whose condition came true returns once"); vk_reach(all ? "all" : "one"); if (procs) vk_reach("processes");
}
static void *c_plain(void *) { enter(); std::unique_lock<pshared_lock> l(*pl); ++arrived; cv->wait(l); VK_ASSERT(vkw_mutex_owner(pl) == vkw_self_tid() + 1, "waiting returns with the lock held"); ++passed; return nullptr; }
ENTRY cond_count() {   // one notification wakes one waiter, notifying all wakes all
    setup(); int n = range(1, param("waiters", 3), "waiters"); pshared_lock l; pshared_cond c; pl = &l; cv = &c; Thr t[3]; procs = choose(2, "processes");
    for (int i = 0; i < n; ++i) t[i].start(c_plain, nullptr);
    vkw_pause(); VK_ASSERT(arrived == n && passed == 0, "a waiter waits and releases the lock meanwhile");
    c.notify_one(); vkw_pause(); VK_ASSERT(passed >= 1, "notifying wakes a waiter"); VK_ASSERT(passed == 1, "one notification wakes one waiter");
    c.notify_all(); for (int i = 0; i < n; ++i) t[i].join(); VK_ASSERT(passed == n, "notifying all wakes everybody"); vk_reach("done");
}
// ---- many rounds with the same objects
static int rounds_n; static void *r_taker(void *) { enter(); for (int i = 0; i < rounds_n; ++i) { std::unique_lock<pshared_lock> l(*pl); cv->wait(l, [] { return items > 0; }); --items; ++passed; } return nullptr; }
ENTRY cond_rounds() {
    setup(); vkw.order = 1 + choose(2, "order"); procs = choose(2, "processes"); int all = choose(2, "notify all"); rounds_n = param("rounds", 150); pshared_lock l; pshared_cond c; pl = &l; cv = &c; Thr t; t.start(r_taker, nullptr);
    for (int i = 0; i < rounds_n; ++i) { { std::unique_lock<pshared_lock> g(l); ++items; if (all) c.notify_all(); else c.notify_one(); } vkw_pause(); { std::unique_lock<pshared_lock> g(l); VK_ASSERT(passed == i + 1 && items == 0, "every waiter whose condition came true returns once"); } }
    t.join(); vk_reach("rounds");
}
// ---- guards that have to wait
static int gh_how;
template <typename G> static void gh_take(Cnt &c) {
    if (gh_how == 0) { G g(*rw); ++c; vkw_block_until([](void *) { return want_ != 0; }, nullptr); --c; }
    else if (gh_how == 1) { pshared_rwlock o; G *h; { G g(o); h = new G(std::move(g)); } *h = G(*rw); VK_ASSERT(o.try_wrlock(), "a lock is held exactly while a guard holds it"); o.unlock(); ++c; vkw_block_until([](void *) { return want_ != 0; }, nullptr); --c; delete h; }
    else { pshared_rwlock o; G g(o); g.unlock(); g = G(*rw); ++c; vkw_block_until([](void *) { return want_ != 0; }, nullptr); --c; g.unlock(); }
    ++passed;
}
static void *gh_read(void *) { enter(); gh_take<rdlockguard>(readers); return nullptr; }
static void *gh_write(void *) { enter(); gh_take<wrlockguard>(writers); return nullptr; }
static Cnt gh_round;
static void *gh_again(void *) { enter(); rdlockguard g(*rw); ++readers; vkw_block_until([](void *) { return gh_round == 1; }, nullptr); --readers; g.unlock(); vkw_block_until([](void *) { return gh_round == 2; }, nullptr); g.lock(); ++readers; vkw_block_until([](void *) { return want_ != 0; }, nullptr); --readers; ++passed; return nullptr; }
ENTRY guard_waits() {
    setup(); vkw.order = 1 + choose(3, "order"); procs = choose(2, "processes"); pshared_rwlock c; rw = &c; gh_how = choose(4, "how"); int n = 2 + choose(2, "readers"); want_ = 0; Thr t[4], w;
    void *(*f)(void *) = gh_how == 3 ? gh_again : gh_read; bool hold = gh_how == 3 || choose(2, "wait");
    { wrlockguard g(c); if (!hold) g.unlock(); for (int i = 0; i < n; ++i) { t[i].start(f, nullptr); vkw_pause(); VK_ASSERT(readers == (hold ? 0 : i + 1), "readers get in exactly while no writer holds the lock"); } }
    vkw_pause(); VK_ASSERT(readers == n, "readers that waited share the lock");
    if (gh_how == 3) { gh_round = 1; vkw_pause(); VK_ASSERT(readers == 0, "the guards have released the lock"); { wrlockguard g(c); gh_round = 2; vkw_pause(); VK_ASSERT(readers == 0, "nobody gets a lock that is held"); } vkw_pause(); VK_ASSERT(readers == n, "readers that waited share the lock"); vk_reach("again"); }
    bool last = choose(2, "writer"); if (last && gh_how != 3) { w.start(gh_write, nullptr); vkw_pause(); VK_ASSERT(writers == 0, "a writer is alone"); vk_reach("writer waits"); }
    want_ = 1; for (int i = 0; i < n; ++i) t[i].join(); if (last && gh_how != 3) w.join();
    VK_ASSERT(passed == n + (last && gh_how != 3) && c.try_wrlock(), "destroying the guards releases the locks"); c.unlock(); vk_reach("waited");
}
// ---- many threads at once (concrete sizes)
template <int N> struct Crowd { Thr t[N]; int n = 0; void add(void *(*f)(void *), void *a = nullptr) { t[n++].start(f, a); vkw_pause(); } void join() { for (int i = 0; i < n; ++i) t[i].join(); n = 0; } };
ENTRY fence_many() {
    setup(); vkw.order = 1 + choose(3, "order"); procs = !param("noprocs", 0) && choose(2, "processes"); int n = param("many", 6), late = param("late", 4); pshared_one_time_fence f; fence = &f; Crowd<39> c;
    for (int i = 0; i < n; ++i) c.add(f_wait);
    VK_ASSERT(passed == 0 && !f.ok(), "nobody passes a fence that was not opened"); payload = 77; notified = 1; f.notify(); vkw_pause(); VK_ASSERT(passed == n, "every waiter passes once the fence is open");
    for (int i = 0; i < late; ++i) { c.add(f_wait); VK_ASSERT(passed == n + i + 1, "who comes after the notification does not wait"); if (i == 1) f.notify(); }
    c.join(); VK_ASSERT(f.ok(), "a fence stays open"); vk_reach("many");
}
ENTRY barrier_many() {
    setup(); vkw.order = 1 + choose(3, "order"); procs = !param("noprocs", 0) && choose(2, "processes"); need = param("many", 9); int extra = param("extra", 3); pshared_barrier b(need); bar = &b; static Crowd<39> c; cell[0] = 0;
    for (int i = 0; i < need; ++i) { VK_ASSERT(left == 0, "nobody passes the barrier before the last one arrives"); c.add(b_wait, (void *)9L); }
    VK_ASSERT(left == need, "as many callers pass as the barrier was made for");
    for (int i = 0; i < extra; ++i) { c.add(b_wait, (void *)9L); VK_ASSERT(refused == i + 1, "callers in excess are refused and disturb nobody"); }
    c.join(); vk_reach("many");
}
static void *m_add(void *) { if (kind_) enter(); lockit(); VK_ASSERT(++inside == 1, "only one thread at a time holds the lock"); int v = shared_n; vkw_yield(); shared_n = v + 1; --inside; unlockit(); return nullptr; }
static void *m_read(void *) { rw->rdlock(); ++readers; VK_ASSERT(writers == 0, "no writer while there are readers"); vkw_block_until([](void *) { return want_ != 0; }, nullptr); --readers; rw->unlock(); return nullptr; }
ENTRY lock_many() {
    setup(); vkw.order = 1 + choose(3, "order"); kind_ = choose(3, "lock"); procs = kind_ && !param("noprocs", 0) && choose(2, "processes"); int n = param("many", 6); spinlock a; pshared_lock b; pshared_rwlock c; sp = &a; pl = &b; rw = &c; Crowd<39> w;
    lockit(); if (kind_) { for (int i = 0; i < n; ++i) w.add(m_add); VK_ASSERT(shared_n == 0, "nobody gets a lock that is held"); } unlockit(); if (!kind_) for (int i = 0; i < n; ++i) w.add(m_add);
    w.join(); VK_ASSERT(shared_n == n, "everybody waiting for a lock gets it in the end");
    if (kind_ == 2) { want_ = 0; for (int i = 0; i < n; ++i) { w.add(m_read); VK_ASSERT(readers == i + 1, "readers share the lock"); } VK_ASSERT(!c.try_wrlock(), "trying succeeds exactly when the lock is compatible with its holders"); VK_ASSERT(c.try_rdlock(), "readers share the lock"); c.unlock(); want_ = 1; w.join(); VK_ASSERT(c.try_wrlock(), "a lock nobody holds can be taken"); want_ = 0; int m = n < 7 ? n : 7; for (int i = 0; i < m; ++i) w.add(m_read); VK_ASSERT(readers == 0, "nobody gets a lock that is held"); c.unlock(); vkw_pause(); VK_ASSERT(readers == m, "readers that waited share the lock"); want_ = 1; w.join(); VK_ASSERT(c.try_wrlock(), "a lock nobody holds can be taken"); c.unlock(); vk_reach("readers"); }
    for (int i = 0; i < 40; ++i) { lockit(); unlockit(); VK_ASSERT(tryit(), "an unlocked lock can be taken"); unlockit(); } vk_reach("many");
}
ENTRY cond_many() {
    setup(); vkw.order = 1 + choose(3, "order"); procs = !param("noprocs", 0) && choose(2, "processes"); int n = param("many", 6); pshared_lock l; pshared_cond c; pl = &l; cv = &c; Crowd<39> w;
    c.notify_all(); c.notify_one();      // nobody waits: without effect
    for (int i = 0; i < n; ++i) { w.add(c_plain); VK_ASSERT(passed == 0, "a notification wakes only those who waited before it"); }
    int one = choose(2, "one by one"); if (one) for (int i = 0; i < n; ++i) { c.notify_one(); vkw_pause(); VK_ASSERT(passed == i + 1, "one notification wakes one waiter"); } else c.notify_all();
    w.join(); VK_ASSERT(passed == n, "notifying all wakes everybody");
    passed = 0; items = 0; for (int i = 0; i < n; ++i) w.add(c_take); { std::unique_lock<pshared_lock> g(l); items = n - 1; } c.notify_all(); vkw_pause(); VK_ASSERT(passed == n - 1, "who finds the condition false waits on"); { std::unique_lock<pshared_lock> g(l); VK_ASSERT(items == 0, "who finds the condition false waits on"); }
    { std::unique_lock<pshared_lock> g(l); items = 1; } c.notify_one(); w.join(); VK_ASSERT(passed == n, "every waiter whose condition came true returns once");
    int asked = 0; { std::unique_lock<pshared_lock> g(l); c.wait(g, [&] { ++asked; return true; }); VK_ASSERT(g.owns_lock() && vkw_mutex_owner(pl) == vkw_self_tid() + 1 && asked >= 1, "who finds the condition true does not wait"); }
    { std::unique_lock<pshared_lock> g(l); int r = throws<int>([&] { c.wait(g, []() -> bool { throw 3; }); }); VK_ASSERT(r == 1 && g.owns_lock() && vkw_mutex_owner(pl) == vkw_self_tid() + 1, "an error of the condition reaches the caller, who holds the lock"); }
    vk_reach("many");
}
