#define _CXXABI_FORCED_H 1   // its class cannot be derived from
namespace __cxxabiv1 { class __forced_unwind { public: virtual ~__forced_unwind() { } virtual void __pure_dummy() { } }; }
// Nondeterministic model of the operating system and threading library below
// cppev.  Every function vkm_X replaces the external function X, both in the
// symbolic engine and (through symbol renaming) in the native replay build.
#include "vk.h"
#include <arpa/inet.h>
#include <cstdarg>
#include <cstring>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#undef errno

VkWorld vkw = {/*preempt*/ 0, 0, 0, 0, 0, 0, 64, 64, 8, 0, 0, 40, 0, 0, VKP_ALL, nullptr, nullptr, 0, nullptr, nullptr, nullptr, 1000000000000LL, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0};

// ------------------------------------------------------------------ threads
enum { T_FREE, T_RUN, T_BLOCKED, T_DONE };
static const int MAXT = 80, MAXP = 20, MAXFD = 160;
struct MThread {
    int state; bool (*ready)(void *); void *arg; int64_t deadline; bool timedOut; int proc; bool boot;
    void *(*fn)(void *); void *farg; void *ret; bool detached, joined, cancel; uint64_t mask, pend; int depth; int err; int woken; void *cond; int waitSeq; bool cancelOff, unwinding;
};
static MThread th[MAXT];
static int nth = 1, booting = 0; static int condSeq = 0;
static uint64_t procPend[MAXP]; static bool procDead[MAXP]; static int procStatus[MAXP]; static bool procReaped[MAXP]; static int procStopped[MAXP]; static bool stopTold[MAXP]; static int nproc = 1;
static struct sigaction sigact[65];

static inline int self() { return vk_thread_self(); }
struct M { M() { if (th[self()].depth++ == 0) vk_race(false); } ~M() { if (--th[self()].depth == 0) vk_race(true); } };
static inline int proc() { return th[self()].proc; }
extern "C" int *vkm___errno_location() { return &th[vk_thread_self()].err; }
#define ERR(e) (th[self()].err = (e), -1)

static int asking = -1;   // the thread whose condition is being evaluated
static inline int who() { return asking >= 0 ? asking : self(); }
static bool isReady(int t) {
    if (th[t].state == T_RUN) return true;
    if (th[t].state != T_BLOCKED || !th[t].ready) return false;
    int old = asking; asking = t; bool r = th[t].ready(th[t].arg); asking = old; return r;
}
static bool eligible(int t) { return !procStopped[th[t].proc] && !(th[t].boot && vkw.park_boot && !booting); }
static void deliver_signals();
// which of n candidates: every one, or by a fixed rule when the harness asked for one (first, last, in turns)
static int turn;
static int which(int n, const char *what) { if (n < 2 || booting) return 0; if (vkw.order == 1) return 0; if (vkw.order == 2) return n - 1; if (vkw.order == 3) return ++turn % n; return (int)vk_choose(n, what); }

// pick the next thread among those that can run
static void pick(bool voluntary) {
    int me = self(); (void)voluntary;
    for (;;) {
        int cand[MAXT], n = 0;
        // continuing the current thread first keeps choice 0 = no switch
        if (isReady(me) && eligible(me)) cand[n++] = me;
        for (int t = 0; t < nth; ++t) if (t != me && eligible(t) && isReady(t)) cand[n++] = t;
        int64_t dl = -1; int dt = -1;
        for (int t = 0; t < nth; ++t) if (eligible(t) && th[t].state == T_BLOCKED && th[t].deadline >= 0 && (dt < 0 || th[t].deadline < dl)) { dt = t; dl = th[t].deadline; }
        if (n == 0 && dt < 0) {
            if (vkw.on_quiescent) { void (*f)() = vkw.on_quiescent; th[me].depth = 0; vk_race(true); f(); vk_exit(); }
            vk_fail("deadlock");
        }
        bool timed = false; int t;
        if (n == 0) { t = dt; timed = true; }
        else {
            int extra = (dt >= 0 && vkw.preempt > 0 && !vkw.no_timeout_preempt && !isReady(dt)) ? 1 : 0;
            int k = which(n + extra, "sched");
            if (k == n) { t = dt; timed = true; --vkw.preempt; } else t = cand[k];
        }
        if (timed) { if (vkw.now < th[t].deadline) vkw.now = th[t].deadline; if (vkw.late_max && !booting) vkw.now += (int64_t)vk_choose(2, "late") * vkw.late_max; th[t].timedOut = true; }
        th[t].state = T_RUN; th[t].ready = nullptr; th[t].deadline = -1;
        if (t != me) vk_thread_switch(t);
        return;
    }
}
static void block(bool (*ready)(void *), void *arg, int64_t deadline = -1) {
    int me = self();
    if (ready && ready(arg)) return;
    th[me].timedOut = false;
    th[me].state = T_BLOCKED; th[me].ready = ready; th[me].arg = arg; th[me].deadline = deadline;
    pick(false);
}
static void point(int kind, bool free = false) {   // possible preemption; starting a thread costs none
    if (booting || vkw.preempt <= 0 || !(vkw.preempt_ops & kind) || nth < 2) return;
    int me = self(); int cand[MAXT], n = 0; cand[n++] = me;
    for (int t = 0; t < nth; ++t) if (t != me && eligible(t) && isReady(t)) cand[n++] = t;
    if (n == 1) return;
    int k = (int)vk_choose(n, "preempt");
    if (k == 0) return;
    if (!free) --vkw.preempt; int t = cand[k];
    th[me].state = T_RUN;
    th[t].state = T_RUN; th[t].ready = nullptr; th[t].deadline = -1;
    vk_thread_switch(t);
}
extern "C" void vkm_atomic_hook() { M m; point(VKP_ATOMIC); }
static bool fault(uint64_t op, int e1, int e2 = 0) {
    ++vkw.sys_count;
    if (vkw.faults <= 0 || !(vkw.fault_ops & op) || booting) return false;
    int k = (int)vk_choose(e2 ? 3 : 2, "fault");
    if (!k) return false;
    --vkw.faults; int e = k == 1 ? e1 : e2;
    if (vkw.fault_any) { e = (int)vk_val(8, "errno"); vk_assume(e >= 1 && e <= 133); }
    th[self()].err = e; vkw.last_errno = e;
    if (!vkw.fault_any) vk_note("fault", (uint64_t)e);
    return true;
}
static int faultc(uint64_t op, int e1) { int old = th[self()].err; if (!fault(op, e1)) return 0; th[self()].err = old; return vkw.last_errno; }   // for calls that return the error number
static bool eintr() {
    if (vkw.eintr <= 0 || booting) return false;
    if (!vk_choose(2, "eintr")) return false;
    --vkw.eintr; th[self()].err = EINTR; return true;
}
static size_t shorten(size_t n) {
    if (n < 2 || vkw.shorts <= 0 || booting) return n;
    size_t k = vk_choose((unsigned)n, "short");   // 0 = full count
    if (k) --vkw.shorts;
    return k ? k : n;
}
static void threadExit(void *ret) {
    int me = self(); th[me].ret = ret; th[me].state = T_DONE; vk_hb_release((uint64_t)&th[me]);
    vk_hb_release((uint64_t)&th[me].farg);
    for (;;) pick(false);
}
struct VkUnwind : __cxxabiv1::__forced_unwind { void *ret; VkUnwind(void *r) : ret(r) { } };   // a cancelled or exiting thread unwinds its stack, as glibc has it
static void trampoline(void *a) {
    int id = (int)(long)a; void *r;
    vk_race(true);
    try { r = th[id].fn(th[id].farg); if (th[id].unwinding) vk_fail("the unwinding of a cancelled thread was stopped (the system aborts the process)"); }
    catch (VkUnwind &u) { r = u.ret; }
    if (vkw.preempt_ops & VKP_EXIT) { M m; point(VKP_EXIT); }
    th[id].depth = 1; vk_race(false);
    threadExit(r);
}
static bool cancelled() { int me = who(); return th[me].cancel && !th[me].cancelOff; }
static void unwind(void *r) { MThread &t = th[self()]; t.unwinding = t.cancelOff = true; throw VkUnwind(r); }
static void cancelPoint() { if (cancelled()) unwind(PTHREAD_CANCELED); }
static int spawn(void *(*fn)(void *), void *arg) {
    if (nth >= MAXT) vk_fail("model: too many threads");
    int id = vk_thread_create(trampoline, (void *)(long)nth);
    if (id != nth) vk_fail("model: thread numbering");
    MThread &t = th[id]; ++nth;
    t.fn = fn; t.farg = arg; t.state = T_RUN; t.deadline = -1; t.proc = proc(); t.boot = booting; t.mask = th[self()].mask;
    return id;
}
extern "C" {
struct PAttr { unsigned magic; int detach; size_t stack; };
int vkm_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); ((PAttr *)a)->stack = 8 << 20; return 0; }
int vkm_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int vkm_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { ((PAttr *)a)->detach = d; return 0; }
int vkm_pthread_attr_getdetachstate(const pthread_attr_t *a, int *d) { *d = ((const PAttr *)a)->detach; return 0; }
int vkm_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { if (n < 16384) return EINVAL; ((PAttr *)a)->stack = n; return 0; }
int vkm_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) { *n = ((const PAttr *)a)->stack; return 0; }
int vkm_pthread_setname_np(pthread_t, const char *) { return 0; }
int vkm_pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    M m; if (int e = faultc(VKF_PTCREATE, EAGAIN)) return e;
    int id = spawn(fn, arg); if (id < 0) return EAGAIN;
    if (at && ((const PAttr *)at)->detach == PTHREAD_CREATE_DETACHED) th[id].detached = true;
    *p = 1000 + id; point(VKP_THREAD, true); return 0;
}
static bool doneP(void *a) { return th[(long)a].state == T_DONE || (th[who()].cancel); }
static int tid_of(pthread_t p) { long t = (long)p - 1000; if (t < 0 || t >= nth) return -1; return (int)t; }
int vkm_pthread_join(pthread_t p, void **ret) {
    M m; int t = tid_of(p); if (t < 0) { if (vkw.strict_misuse) vk_fail("join of a thread that was never started"); return ESRCH; }
    if (t == self()) return EDEADLK;
    if (th[t].detached || th[t].joined) { if (vkw.strict_misuse) vk_fail("join of a detached or already joined thread"); return EINVAL; }
    point(VKP_THREAD);
    while (th[t].state != T_DONE) { cancelPoint(); block(doneP, (void *)(long)t); }
    vk_hb_acquire((uint64_t)&th[t]); th[t].joined = true; if (ret) *ret = th[t].ret; return 0;
}
int vkm_pthread_tryjoin_np(pthread_t p, void **ret) { { M m; int t = tid_of(p); if (t < 0) return ESRCH; point(VKP_THREAD); if (th[t].state != T_DONE) return EBUSY; } return vkm_pthread_join(p, ret); }
int vkm_pthread_clockjoin_np(pthread_t p, void **ret, clockid_t, const struct timespec *ts) {
    { M m; int t = tid_of(p); if (t < 0) return ESRCH; point(VKP_THREAD); cancelPoint(); if (th[t].state != T_DONE) { block(doneP, (void *)(long)t, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1); cancelPoint(); if (th[t].state != T_DONE) return ETIMEDOUT; } }
    return vkm_pthread_join(p, ret);
}
int vkm_pthread_timedjoin_np(pthread_t p, void **ret, const struct timespec *ts) { return vkm_pthread_clockjoin_np(p, ret, CLOCK_REALTIME, ts); }
int vkm_pthread_detach(pthread_t p) { M m; int t = tid_of(p); if (t < 0) return ESRCH; if (th[t].detached || th[t].joined) { if (vkw.strict_misuse) vk_fail("detach of a detached or already joined thread"); return EINVAL; } th[t].detached = true; return 0; }
int vkm_pthread_cancel(pthread_t p) { M m; int t = tid_of(p); if (t < 0 || th[t].joined) return ESRCH; th[t].cancel = true; if (th[t].state == T_BLOCKED && !th[t].cancelOff) { th[t].state = T_RUN; } return 0; }
void vkm_pthread_exit(void *r) { M m; if (self() == 0) vk_fail("model: the first thread exits"); unwind(r); }
int vkm_pthread_setcancelstate(int s, int *old) { M m; int me = self(); if (old) *old = th[me].cancelOff; th[me].cancelOff = s == PTHREAD_CANCEL_DISABLE; return 0; }
int vkm_pthread_setcanceltype(int, int *old) { if (old) *old = PTHREAD_CANCEL_DEFERRED; return 0; }
pthread_t vkm_pthread_self() { return 1000 + vk_thread_self(); }
int vkm_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int vkm_fflush(void *) { return 0; }
int vkm_sched_yield() { M m; point(VKP_YIELD); return 0; }
int vkm_pthread_yield() { return vkm_sched_yield(); }
int vkm_pthread_once(pthread_once_t *o, void (*f)()) {
    int run; { M m; run = *o == 0; if (run) *o = 1; }
    if (run) { f(); vk_hb_release((uint64_t)o); M m; *o = 2; } else { M m; block([](void *a) { return *(int *)a == 2; }, o); vk_hb_acquire((uint64_t)o); }
    return 0;
}
unsigned int vkm__ZNSt6thread20hardware_concurrencyEv() { return 4; }

// ------------------------------------------------------------------ mutexes
struct Mx { int locked; unsigned count; int owner; unsigned users; int kind; short dead, home; };
// an object not initialised as process-shared may only be used by the process that used it first
static void homeCheck(short &home, bool shared) { if (shared || !vkw.strict_misuse) return; if (!home) home = (short)(proc() + 1); else if (home != proc() + 1) vk_fail("process-private synchronisation object used by two processes"); }
static bool mxFree(void *a) { return ((Mx *)a)->locked == 0; }
static int mxLock(Mx *x, int mode, int64_t deadline = -1) {   // mode 0 block, 1 try
    int me = self();
    if (x->dead) { if (vkw.strict_misuse) vk_fail("lock of a destroyed mutex"); return EINVAL; }
    homeCheck(x->home, x->kind & 128);
    point(VKP_LOCK);
    if (x->locked && x->owner == me + 1) {
        if ((x->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++x->count; return 0; }
        if (mode == 1) return EBUSY;
        if ((x->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (mode == 1) { if (x->locked) return EBUSY; }
    else while (x->locked) { block(mxFree, x, deadline); if (x->locked && th[me].timedOut) return ETIMEDOUT; }
    x->locked = 1; x->count = 1; x->owner = me + 1; vk_hb_acquire((uint64_t)x); return 0;
}
static int mxUnlock(Mx *x) {
    int me = self();
    if (!x->locked || x->owner != me + 1) {
        if ((x->kind & 3) == PTHREAD_MUTEX_ERRORCHECK || (x->kind & 3) == PTHREAD_MUTEX_RECURSIVE) return EPERM;
        if (vkw.strict_misuse) vk_fail("unlock of a mutex the thread does not hold");
        return EPERM;
    }
    if (--x->count) return 0;
    vk_hb_release((uint64_t)x); x->locked = 0; x->owner = 0; return 0;
}
int vkm_pthread_mutexattr_init(pthread_mutexattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, ENOMEM)) return e; *(int *)a = 0; return 0; }
int vkm_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { M m; *(int *)a = -1; return 0; }
int vkm_pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { M m; if (k < 0 || k > 3) return EINVAL; *(int *)a = (*(int *)a & ~3) | k; return 0; }
int vkm_pthread_mutexattr_setprotocol(pthread_mutexattr_t *, int p) { return p == PTHREAD_PRIO_NONE ? 0 : EINVAL; }
int vkm_pthread_mutexattr_setrobust(pthread_mutexattr_t *, int) { return 0; }
int vkm_pthread_mutexattr_setpshared(pthread_mutexattr_t *a, int p) { M m; if (p == PTHREAD_PROCESS_SHARED) *(int *)a |= 128; else *(int *)a &= ~128; return 0; }
int vkm_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, EAGAIN)) return e; memset(p, 0, sizeof *p); if (a) ((Mx *)p)->kind = *(const int *)a; return 0; }
int vkm_pthread_mutex_destroy(pthread_mutex_t *p) { M m; Mx *x = (Mx *)p; if (x->locked) { if (vkw.strict_misuse) vk_fail("destruction of a locked mutex"); return EBUSY; } x->dead = 1; return 0; }
int vkm_pthread_mutex_lock(pthread_mutex_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; return mxLock((Mx *)p, 0); }
int vkm_pthread_mutex_trylock(pthread_mutex_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; return mxLock((Mx *)p, 1); }
int vkm_pthread_mutex_unlock(pthread_mutex_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; int r = mxUnlock((Mx *)p); if (r == 0) point(VKP_UNLOCK); return r; }
static int64_t abs2dl(const struct timespec *ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }
int vkm_pthread_mutex_timedlock(pthread_mutex_t *p, const struct timespec *ts) { M m; return mxLock((Mx *)p, 0, abs2dl(ts)); }
int vkm_pthread_mutex_clocklock(pthread_mutex_t *p, clockid_t, const struct timespec *ts) { M m; return mxLock((Mx *)p, 0, abs2dl(ts)); }

// ------------------------------------------------------------------ condition variables
struct Cv { int live; int waiters; int pshared; short home; };
static bool cvReady(void *a) { return th[(long)a].woken != 0; }
static int cvWait(Cv *c, Mx *x, int64_t deadline) {
    int me = self(); homeCheck(c->home, c->pshared);
    if (!x->locked || x->owner != me + 1) { if (vkw.strict_misuse) vk_fail("condition wait without holding the mutex"); return EPERM; }
    if (x->count != 1 && vkw.strict_misuse) vk_fail("condition wait with a recursively held mutex");
    point(VKP_COND); cancelPoint();
    vk_hb_release((uint64_t)x); x->locked = 0; x->owner = 0; x->count = 0;
    th[me].woken = 0; th[me].cond = c; th[me].waitSeq = ++condSeq; ++c->waiters;
    int r = 0;
    if (vkw.spurious > 0 && !booting && vk_choose(2, "spurious")) { --vkw.spurious; th[me].woken = 2; point(VKP_COND); }
    else {
        block(cvReady, (void *)(long)me, deadline);
        if (!th[me].woken && th[me].timedOut) r = ETIMEDOUT;
    }
    th[me].cond = nullptr; --c->waiters;
    while (x->locked) block(mxFree, x);
    x->locked = 1; x->count = 1; x->owner = me + 1; vk_hb_acquire((uint64_t)x);
    cancelPoint();   // with the mutex held
    return r;
}
static void cvSignal(Cv *c, bool all) {
    homeCheck(c->home, c->pshared);
    point(VKP_COND);
    int w[MAXT], n = 0;
    for (int t = 0; t < nth; ++t) if (th[t].cond == c && !th[t].woken && th[t].state == T_BLOCKED) w[n++] = t;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) th[w[i]].woken = 1; return; }
    int k = which(n, "wake");
    th[w[k]].woken = 1;
}
int vkm_pthread_condattr_init(pthread_condattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, ENOMEM)) return e; *(int *)a = 0; return 0; }
int vkm_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int vkm_pthread_condattr_setpshared(pthread_condattr_t *a, int p) { M m; *(int *)a = p; return 0; }
int vkm_pthread_condattr_setclock(pthread_condattr_t *, clockid_t) { return 0; }
int vkm_pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, EAGAIN)) return e; memset(p, 0, sizeof *p); if (a) ((Cv *)p)->pshared = *(const int *)a; return 0; }
int vkm_pthread_cond_destroy(pthread_cond_t *p) { M m; Cv *c = (Cv *)p; for (int t = 0; t < nth; ++t) if (th[t].cond == c && !th[t].woken && th[t].state == T_BLOCKED && vkw.strict_misuse) vk_fail("destruction of a condition variable with waiters"); return 0; }
int vkm_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *x) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; return cvWait((Cv *)c, (Mx *)x, -1); }
int vkm_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *x, const struct timespec *ts) { M m; return cvWait((Cv *)c, (Mx *)x, abs2dl(ts)); }
int vkm_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *x, clockid_t, const struct timespec *ts) { M m; return cvWait((Cv *)c, (Mx *)x, abs2dl(ts)); }
int vkm_pthread_cond_signal(pthread_cond_t *c) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; cvSignal((Cv *)c, false); return 0; }
int vkm_pthread_cond_broadcast(pthread_cond_t *c) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; cvSignal((Cv *)c, true); return 0; }
void vkm__ZNSt18condition_variableC1Ev(void *c) { M m; memset(c, 0, sizeof(pthread_cond_t)); }
void vkm__ZNSt18condition_variableC2Ev(void *c) { M m; memset(c, 0, sizeof(pthread_cond_t)); }
void vkm__ZNSt18condition_variableD1Ev(void *c) { vkm_pthread_cond_destroy((pthread_cond_t *)c); }
void vkm__ZNSt18condition_variableD2Ev(void *c) { vkm_pthread_cond_destroy((pthread_cond_t *)c); }
void vkm__ZNSt18condition_variable10notify_oneEv(void *c) { M m; cvSignal((Cv *)c, false); }
void vkm__ZNSt18condition_variable10notify_allEv(void *c) { M m; cvSignal((Cv *)c, true); }
void vkm__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void *ul) { M m; cvWait((Cv *)c, *(Mx **)ul, -1); }
// futures
static bool fxReady(void *a) { return th[(long)a].woken != 0; }
bool vkm__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool timed, long s, long ns) {
    M m; if (*a != v) return true;
    int me = self(); th[me].woken = 0; th[me].cond = a;
    block(fxReady, (void *)(long)me, timed ? s * 1000000000LL + ns : -1); th[me].cond = nullptr; vk_hb_acquire((uint64_t)a);
    return th[me].woken || !th[me].timedOut;
}
bool vkm__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *t, unsigned *a, unsigned v, bool timed, long s, long ns) {
    return vkm__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, a, v, timed, s, ns); }
void vkm__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) { M m; vk_hb_release((uint64_t)a); for (int t = 0; t < nth; ++t) if (th[t].cond == a) th[t].woken = 1; }

// ------------------------------------------------------------------ rwlocks, spinlocks
struct Rw {      // holds of a reader, four bits each
    int readers, writer; unsigned char rc[MAXT / 2]; int pshared; short dead, home;
    int held(int t) const { return rc[t / 2] >> (t % 2 * 4) & 15; }
    void hold(int t, int d) { int v = held(t) + d; if (v > 15) vk_fail("model: a rwlock held too often by one thread"); rc[t / 2] = (unsigned char)((rc[t / 2] & (t % 2 ? 15 : 240)) | v << (t % 2 * 4)); }
};
static_assert(sizeof(Rw) <= sizeof(pthread_rwlock_t), "rwlock overlay");
int vkm_pthread_rwlockattr_init(pthread_rwlockattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, ENOMEM)) return e; memset(a, 0, 8); return 0; }
int vkm_pthread_rwlockattr_destroy(pthread_rwlockattr_t *) { return 0; }
int vkm_pthread_rwlockattr_setpshared(pthread_rwlockattr_t *a, int p) { M m; *(int *)a = p; return 0; }
int vkm_pthread_rwlockattr_setkind_np(pthread_rwlockattr_t *, int) { return 0; }
int vkm_pthread_rwlock_init(pthread_rwlock_t *p, const pthread_rwlockattr_t *a) { M m; if (int e = faultc(VKF_PTINIT, EAGAIN)) return e; memset(p, 0, sizeof *p); if (a) ((Rw *)p)->pshared = *(const int *)a; return 0; }
int vkm_pthread_rwlock_destroy(pthread_rwlock_t *p) { M m; Rw *r = (Rw *)p; if ((r->readers || r->writer) && vkw.strict_misuse) vk_fail("destruction of a held rwlock"); r->dead = 1; return 0; }
static bool rdOk(void *a) { return ((Rw *)a)->writer == 0; }
static bool wrOk(void *a) { return ((Rw *)a)->writer == 0 && ((Rw *)a)->readers == 0; }
int vkm_pthread_rwlock_rdlock(pthread_rwlock_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; Rw *r = (Rw *)p; homeCheck(r->home, r->pshared); if (r->dead && vkw.strict_misuse) vk_fail("use of a destroyed rwlock"); point(VKP_LOCK); if (r->writer == self() + 1) return EDEADLK; while (!rdOk(r)) block(rdOk, r); ++r->readers; r->hold(self(), 1); vk_hb_acquire((uint64_t)r); return 0; }
int vkm_pthread_rwlock_wrlock(pthread_rwlock_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; Rw *r = (Rw *)p; homeCheck(r->home, r->pshared); if (r->dead && vkw.strict_misuse) vk_fail("use of a destroyed rwlock"); point(VKP_LOCK); if (r->writer == self() + 1) return EDEADLK; while (!wrOk(r)) block(wrOk, r); r->writer = self() + 1; vk_hb_acquire((uint64_t)r); vk_hb_acquire((uint64_t)r + 1); return 0; }
int vkm_pthread_rwlock_tryrdlock(pthread_rwlock_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; Rw *r = (Rw *)p; homeCheck(r->home, r->pshared); point(VKP_LOCK); if (r->writer) return EBUSY; ++r->readers; r->hold(self(), 1); vk_hb_acquire((uint64_t)r); return 0; }
int vkm_pthread_rwlock_trywrlock(pthread_rwlock_t *p) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; Rw *r = (Rw *)p; homeCheck(r->home, r->pshared); point(VKP_LOCK); if (r->writer || r->readers) return EBUSY; r->writer = self() + 1; vk_hb_acquire((uint64_t)r); vk_hb_acquire((uint64_t)r + 1); return 0; }
int vkm_pthread_rwlock_unlock(pthread_rwlock_t *p) {
    M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; Rw *r = (Rw *)p; int me = self();
    if (r->writer == me + 1) { r->writer = 0; vk_hb_release((uint64_t)r); return 0; }
    if (r->readers && r->held(me)) { --r->readers; r->hold(me, -1); vk_hb_release((uint64_t)r + 1); return 0; }
    if (vkw.strict_misuse) vk_fail("unlock of a rwlock the thread does not hold");
    return EPERM;
}
int vkm_pthread_spin_init(pthread_spinlock_t *s, int) { M m; if (int e = faultc(VKF_PTINIT, EAGAIN)) return e; *(volatile int *)s = 0; return 0; }
int vkm_pthread_spin_destroy(pthread_spinlock_t *s) { M m; if (*(volatile int *)s > 0 && vkw.strict_misuse) vk_fail("destruction of a held spinlock"); *(volatile int *)s = -1; return 0; }
static bool spFree(void *a) { return *(volatile int *)a == 0; }
int vkm_pthread_spin_lock(pthread_spinlock_t *s) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; if (*(volatile int *)s == -1 && vkw.strict_misuse) vk_fail("use of a destroyed spinlock"); point(VKP_LOCK); while (*(volatile int *)s) block(spFree, (void *)s); *(volatile int *)s = self() + 1; vk_hb_acquire((uint64_t)s); return 0; }
int vkm_pthread_spin_trylock(pthread_spinlock_t *s) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; point(VKP_LOCK); if (*(volatile int *)s) return EBUSY; *(volatile int *)s = self() + 1; vk_hb_acquire((uint64_t)s); return 0; }
int vkm_pthread_spin_unlock(pthread_spinlock_t *s) { M m; if (int e = faultc(VKF_PTLOCK, EINVAL)) return e; if (*(volatile int *)s != self() + 1 && vkw.strict_misuse) vk_fail("unlock of a spinlock the thread does not hold"); vk_hb_release((uint64_t)s); *(volatile int *)s = 0; return 0; }

// ------------------------------------------------------------------ time
long vkm__ZNSt6chrono3_V212system_clock3nowEv() { return vkw.now; }
long vkm__ZNSt6chrono3_V212steady_clock3nowEv() { return vkw.now; }
time_t vkm_time(time_t *t) { if (vkw.fault_ops & VKF_TIME) { M m; if (fault(VKF_TIME, EFAULT)) return -1; } time_t v = vkw.now / 1000000000; if (t) *t = v; return v; }
int vkm_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = vkw.now / 1000000000; ts->tv_nsec = vkw.now % 1000000000; return 0; }
int vkm_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = vkw.now / 1000000000; tv->tv_usec = vkw.now % 1000000000 / 1000; return 0; }
struct tm *vkm_gmtime_r(const time_t *tp, struct tm *r) {
    M m; time_t t = *tp;
    if (t > 67768036191676799LL || t < -67768040609740800LL) { ERR(EOVERFLOW); return nullptr; }
    memset(r, 0, sizeof *r);
    long d = (long)vk_conc((uint64_t)(t / 86400)); if (d < 0 || t < 0) d = (long)vk_conc((uint64_t)((t - 86399) / 86400));
    unsigned s = (unsigned)(t - d * 86400);
    r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s / 60 % 60); r->tm_sec = (int)(s % 60); r->tm_wday = (int)(((d + 4) % 7 + 7) % 7);
    long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); r->tm_mon = (int)(mp < 10 ? mp + 2 : mp - 10); r->tm_year = (int)(yoe + era * 400 + (r->tm_mon <= 1) - 1900);
    { long y = r->tm_year + 1900L; r->tm_yday = (int)(doy >= 306 ? doy - 306 : doy + 59 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))); }
    return r;
}
struct tm *vkm_localtime_r(const time_t *t, struct tm *r) { time_t x = *t; if (vkw.tz_off) x += vkw.tz_off; r = vkm_gmtime_r(&x, r); if (r) { r->tm_gmtoff = vkw.tz_off; r->tm_zone = vkw.tz_off ? "ACST" : "UTC"; } return r; }
static struct tm tmShared;
struct tm *vkm_gmtime(const time_t *t) { M m; struct tm *r = vkm_gmtime_r(t, &tmShared); point(VKP_IO); return r; }
struct tm *vkm_localtime(const time_t *t) { M m; struct tm *r = vkm_localtime_r(t, &tmShared); point(VKP_IO); return r; }
size_t vkm_strftime(char *b, size_t n, const char *f, const struct tm *t) {
    M m; point(VKP_IO); size_t k = 0; bool over = false;
    auto out = [&](char c) { if (k + 1 < n) b[k++] = c; else over = true; };
    auto num = [&](int x, int w) { char d[24]; int c = 0; if (x < 0) { out('-'); x = -x; } for (unsigned v = (unsigned)x; c < w || v; ++c) { d[c] = (char)('0' + v % 10); v /= 10; } while (c) out(d[--c]); };
    auto one = [&](char c) { switch (c) { case 'Y': num(t->tm_year + 1900, 1); break; case 'm': num(t->tm_mon + 1, 2); break; case 'd': num(t->tm_mday, 2); break; case 'H': num(t->tm_hour, 2); break; case 'M': num(t->tm_min, 2); break; case 'S': num(t->tm_sec, 2); break; case 'Z': for (const char *z = t->tm_zone ? t->tm_zone : "GMT"; *z; ++z) out(*z); break;
        case 'y': num((t->tm_year % 100 + 100) % 100, 2); break; case 'C': num((t->tm_year + 1900) / 100, 2); break; case 'j': num(t->tm_yday + 1, 3); break; case 'e': if (t->tm_mday < 10) out(' '); num(t->tm_mday, 1); break;
        case 'I': num(t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2); break; case 'p': out(t->tm_hour < 12 ? 'A' : 'P'); out('M'); break; case 'u': num(t->tm_wday ? t->tm_wday : 7, 1); break; case 'w': num(t->tm_wday, 1); break;
        case 'a': for (int i = 0; i < 3; ++i) out("SunMonTueWedThuFriSat"[t->tm_wday * 3 + i]); break; case 'b': case 'h': for (int i = 0; i < 3; ++i) out("JanFebMarAprMayJunJulAugSepOctNovDec"[t->tm_mon * 3 + i]); break;
        case 'z': { long o = t->tm_gmtoff; out(o < 0 ? '-' : '+'); if (o < 0) o = -o; num((int)(o / 3600), 2); num((int)(o / 60 % 60), 2); break; }
        case 'n': out('\n'); break; case 't': out('\t'); break; case '%': out('%'); break;
        default: out(c); } };
    for (; *f; ++f) {
        if (*f != '%' || !f[1]) { out(*f); continue; }
        ++f; const char *x = *f == 'F' ? "Y-m-d" : *f == 'T' ? "H:M:S" : *f == 'R' ? "H:M" : *f == 'D' ? "m/d/y" : *f == 'c' ? "a b e H:M:S Y" : *f == 'r' ? "I:M:S p" : *f == 'x' ? "m/d/y" : *f == 'X' ? "H:M:S" : nullptr;
        if (!x) one(*f); else for (; *x; ++x) if (*x == '-' || *x == ':' || *x == '/' || *x == ' ') out(*x); else one(*x);
    }
    if (over || !n) return 0;
    b[k] = 0; return k;
}
static bool never(void *) { return cancelled(); }
static int sleepFor(int64_t ns) { if (ns < 0) ns = 0; cancelPoint(); int me = self(); if (ns > INT64_MAX / 2 - vkw.now) ns = INT64_MAX / 2 - vkw.now; block(never, nullptr, vkw.now + ns); (void)me; cancelPoint(); return 0; }
int vkm_nanosleep(const struct timespec *req, struct timespec *rem) {
    M m; int64_t ns = req->tv_sec * 1000000000LL + req->tv_nsec;
    if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) return ERR(EINVAL);
    if (ns > 0 && eintr()) { vkw.now += ns / 2; ns -= ns / 2; if (rem) { rem->tv_sec = ns / 1000000000; rem->tv_nsec = ns % 1000000000; } return -1; }
    sleepFor(ns); return 0;
}
static bool slept(int64_t &ns) { if (ns > 0 && eintr()) { vkw.now += ns / 2; ns -= ns / 2; return false; } sleepFor(ns); ns = 0; return true; }
int vkm_clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *rem) {
    M m; if (req->tv_nsec < 0 || req->tv_nsec > 999999999) return EINVAL; int64_t ns = req->tv_sec * 1000000000LL + req->tv_nsec; bool abs = flags & TIMER_ABSTIME; if (abs) ns -= vkw.now;
    if (slept(ns)) return 0; if (!abs && rem) { rem->tv_sec = ns / 1000000000; rem->tv_nsec = ns % 1000000000; } return EINTR;
}
int vkm_usleep(useconds_t us) { M m; int64_t ns = us * 1000LL; return slept(ns) ? 0 : ERR(EINTR); }
unsigned vkm_sleep(unsigned s) { M m; int64_t ns = s * 1000000000LL; return slept(ns) ? 0 : (unsigned)((ns + 999999999) / 1000000000); }
}

// ------------------------------------------------------------------ files
enum { F_NONE, F_PIPER, F_PIPEW, F_TCP, F_UDP, F_EPOLL, F_SHM, F_CONSOLE, F_EVENT };
static const int QCAP = 256;
struct Pipe { int cap, len, readers, writers; unsigned char *d; int id; unsigned nin, nroom; bool packets; int npk, pk[64]; };   // nin: arrivals, nroom: times room became available
static int pipeSeq;
struct Addr { int fam; int port; unsigned char b[16]; int plen; char path[110]; };
struct Dgram { int len; unsigned char *d; Addr from; };
struct OFile;
struct Opt { int level, name; long v, v2; };
enum { S_NEW, S_BOUND, S_LISTEN, S_CONN, S_FAILED };
struct Sock {
    int fam; bool udp; int st; Addr local, peer; bool hasLocal; Pipe *rx, *tx; Sock *other; int soerr; bool shutR, shutW, reset, dead; int backlog; int nq; Sock *q[64]; Opt opts[16]; int nopts; Dgram *dg[64]; int ndg; int rstErr; unsigned nin;
};
struct EpEnt { int fd; OFile *f; uint32_t ev; epoll_data_t data; bool off; uint64_t seq; };
struct Epoll { int n, cap; EpEnt *e; int rot; };
struct Shm { bool used, linked; char name[64]; int size, cap; char *mem; int maps; };
struct OFile { int type, refs, flags, id; Pipe *p; Sock *s; Epoll *ep; Shm *shm; int con; };
static OFile *fdt[MAXP][MAXFD]; static int cloexec[MAXP][MAXFD]; static int fileIds, nfiles;
static OFile *allFiles[64]; static int nAll;
struct Con { int len; char d[1024]; };
static Con *con[3];
struct Name { bool used; int type; char path[110]; Pipe *fifo; Sock *sock; };
static Name names[12];
static Sock *udps[16]; static int nudps; static Sock *lst[16]; static int nlst;
static int nextPort = 40000;
static Shm shms[6];
struct Map { bool used; Shm *s; char *p; size_t n; };
static Map maps[16];
struct NSem { bool used, linked; char name[64]; int value; int opens; };
static NSem sems[6];
struct SemH { NSem *s; int closed; int own; };

template <class T> static T *mk() { return (T *)vk_malloc(sizeof(T)); }
static OFile *newFile(int type) { OFile *f = mk<OFile>(); f->type = type; f->refs = 1; f->id = ++fileIds; ++nfiles; if (type == F_EPOLL) { if (nAll >= 64) vk_fail("model: too many epoll objects"); allFiles[nAll++] = f; } return f; }
static Pipe *newPipe(int cap) { Pipe *p = mk<Pipe>(); p->cap = cap; p->d = (unsigned char *)vk_malloc(cap > QCAP ? cap : QCAP); p->id = ++pipeSeq; return p; }
static int fdLimit() { return vkw.max_fds < MAXFD ? vkw.max_fds : MAXFD; }
static void initCon() { if (con[0]) return; for (int i = 0; i < 3; ++i) { con[i] = mk<Con>(); OFile *f = newFile(F_CONSOLE); f->con = i; f->flags = O_RDWR; fdt[0][i] = f; } }
static int putFd(OFile *f, int from = 0) { initCon(); int p = proc(); for (int i = from; i < fdLimit(); ++i) if (!fdt[p][i]) { fdt[p][i] = f; cloexec[p][i] = 0; return i; } return ERR(EMFILE); }
static OFile *getf(int fd) { initCon(); if (fd < 0 || fd >= MAXFD) return nullptr; return fdt[proc()][fd]; }
static bool hasRoomForFds(int n) { initCon(); int c = 0; for (int i = 0; i < fdLimit(); ++i) if (!fdt[proc()][i]) ++c; if (c < n) { th[self()].err = EMFILE; return false; } return true; }
static Opt *optOf(Sock *s, int level, int name, bool create);
static long lowat(Sock *s) { Opt *o = optOf(s, SOL_SOCKET, SO_RCVLOWAT, false); return o ? o->v : 1; }
static void dropSock(Sock *s) {
    if (s->dead) return; s->dead = true;
    if (s->udp) { for (int i = 0; i < nudps; ++i) if (udps[i] == s) { udps[i] = udps[--nudps]; break; } }
    if (s->st == S_LISTEN) {
        for (int i = 0; i < nlst; ++i) if (lst[i] == s) { lst[i] = lst[--nlst]; break; }
        for (int i = 0; i < s->nq; ++i) { s->q[i]->rstErr = 0; if (s->q[i]->other) { s->q[i]->other->reset = true; s->q[i]->other->rstErr = ECONNRESET; } dropSock(s->q[i]); }
    }
    if (s->st == S_CONN && !s->udp && s->fam != AF_UNIX) { Opt *o = optOf(s, SOL_SOCKET, SO_LINGER, false); if (o && o->v && !o->v2 && s->other && !s->other->dead && !s->other->reset) { s->tx->len = 0; s->other->reset = true; s->other->rstErr = ECONNRESET; } }   // an abortive close
    if (s->rx) { if (s->rx->len && s->other && !s->other->dead && !s->other->reset) { s->other->reset = true; s->other->rstErr = ECONNRESET; } if (s->rx->readers) s->rx->readers = 0; }
    if (s->tx) s->tx->writers = 0;
    for (auto &n : names) if (n.used && n.sock == s) n.sock = nullptr;
}
static void unref(OFile *f) {
    if (--f->refs) return;
    --nfiles;
    for (int i = 0; i < nAll; ++i) if (allFiles[i] && allFiles[i]->type == F_EPOLL) { Epoll *e = allFiles[i]->ep; for (int k = 0; k < e->n;) if (e->e[k].f == f) { for (int j = k + 1; j < e->n; ++j) e->e[j - 1] = e->e[j]; --e->n; } else ++k; }
    for (int i = 0; i < nAll; ++i) if (allFiles[i] == f) { for (int j = i + 1; j < nAll; ++j) allFiles[j - 1] = allFiles[j]; --nAll; break; }
    if (f->type == F_PIPER) --f->p->readers;
    if (f->type == F_PIPEW) --f->p->writers;
    if (f->type == F_TCP || f->type == F_UDP) dropSock(f->s);
    f->type = F_NONE;
}

// readiness
static uint32_t evOf(OFile *f) {
    uint32_t r = 0;
    switch (f->type) {
    case F_PIPER: if (f->p->len) r |= EPOLLIN; if (!f->p->writers) r |= EPOLLHUP; break;
    case F_PIPEW: if (f->p->len < f->p->cap) r |= EPOLLOUT; if (!f->p->readers) r |= EPOLLERR; break;
    case F_TCP: {
        Sock *s = f->s;
        if (s->st == S_LISTEN) { if (s->nq) r |= EPOLLIN; break; }
        if (s->st == S_FAILED) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
        if (s->st != S_CONN) return EPOLLOUT | EPOLLHUP;
        if ((s->rx->len && s->rx->len >= lowat(s)) || s->rx->writers == 0 || s->shutR) r |= EPOLLIN;
        if (s->rx->writers == 0 || s->shutR) r |= EPOLLRDHUP;
        if ((s->rx->writers == 0 || s->shutR) && s->shutW) r |= EPOLLHUP;
        if (s->reset) r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
        if (s->shutW || s->tx->len < s->tx->cap || s->tx->readers == 0) r |= EPOLLOUT;
        break; }
    case F_UDP: if (f->s->ndg) r |= EPOLLIN; r |= EPOLLOUT; break;
    case F_CONSOLE: r = EPOLLOUT; break;
    case F_EVENT: if (f->p->len) r |= EPOLLIN; r |= EPOLLOUT; break;
    }
    return r;
}
// what has happened to a file, for edge-triggered notification
static uint64_t actOf(OFile *f) {
    auto mix = [](uint64_t a, uint64_t b) { return a * 1000003 + b; };
    switch (f->type) {
    case F_PIPER: case F_EVENT: return mix(f->p->nin, !f->p->writers);
    case F_PIPEW: return mix(f->p->nroom, !f->p->readers);
    case F_TCP: { Sock *s = f->s; uint64_t v = mix(mix(s->nin, s->st), s->shutR + 2 * s->shutW + 4 * s->reset); if (s->rx) v = mix(mix(v, s->rx->nin), !s->rx->writers); if (s->tx) v = mix(mix(v, s->tx->nroom), !s->tx->readers); return v; }
    case F_UDP: return f->s->nin;
    }
    return 0;
}
static bool readable(void *a) { OFile *f = (OFile *)a; return cancelled() || (evOf(f) & (EPOLLIN | EPOLLHUP | EPOLLERR)); }
static bool writable(void *a) { OFile *f = (OFile *)a; return cancelled() || (evOf(f) & (EPOLLOUT | EPOLLHUP | EPOLLERR)); }

static void sigpipe() {
    if (sigact[SIGPIPE].sa_handler == SIG_IGN || (th[self()].mask >> (SIGPIPE - 1) & 1)) return;
    if (sigact[SIGPIPE].sa_handler != SIG_DFL && sigact[SIGPIPE].sa_handler) { sigact[SIGPIPE].sa_handler(SIGPIPE); return; }
    if (vkw.sigpipe_kills) vk_fail("process killed by SIGPIPE");
}
static ssize_t takeBytes(Pipe *p, void *buf, size_t n, int peek = 0) {
    if (p->packets && p->npk) { int all = p->pk[0]; size_t k = (size_t)all < n ? (size_t)all : n; memcpy(buf, p->d, k); memmove(p->d, p->d + all, p->len - all); p->len -= all; for (int i = 1; i < p->npk; ++i) p->pk[i - 1] = p->pk[i]; --p->npk; ++p->nroom; return (ssize_t)k; }   // the rest of a packet is lost
    size_t k = (size_t)p->len < n ? (size_t)p->len : n; k = shorten(k);
    memcpy(buf, p->d, k); if (!peek) { if (p->len == p->cap && k) ++p->nroom; memmove(p->d, p->d + k, p->len - k); p->len -= (int)k; } return (ssize_t)k;
}
static ssize_t addBytes(Pipe *p, const void *buf, size_t n) {
    size_t room = p->cap - p->len, k = room < n ? room : n; k = shorten(k);
    if (p->packets && k) { if (k > 4096) k = 4096; if (p->npk >= 64) vk_fail("model: too many packets"); p->pk[p->npk++] = (int)k; }
    memcpy(p->d + p->len, buf, k); p->len += (int)k; if (k) ++p->nin; return (ssize_t)k;
}
extern "C" {
static ssize_t doRead(int fd, void *buf, size_t n, int flags) {
    point(VKP_IO); cancelPoint();
    OFile *f = getf(fd); if (!f) return ERR(EBADF);
    if (eintr()) return -1;
    if (fault(VKF_READ, EIO)) return -1;
    for (;;) {
        switch (f->type) {
        case F_PIPER:
            if (n == 0) return 0;
            if (f->p->len) return takeBytes(f->p, buf, n);
            if (!f->p->writers) return 0;
            break;
        case F_TCP: {
            Sock *s = f->s;
            if (s->st == S_FAILED) { int e = s->soerr; s->soerr = 0; if (e) return ERR(e); return 0; }
            if (s->st != S_CONN) return ERR(ENOTCONN);
            if (n == 0) return 0;
            if (s->rx->len) return takeBytes(s->rx, buf, n, flags & MSG_PEEK);
            if (s->reset && s->rstErr) { int e = s->rstErr; s->rstErr = 0; s->soerr = 0; return ERR(e); }
            if (s->rx->writers == 0 || s->shutR || s->reset) return 0;
            break; }
        case F_UDP: { if (!f->s->ndg) break; Dgram *d = f->s->dg[0]; size_t k = (size_t)d->len < n ? (size_t)d->len : n; memcpy(buf, d->d, k); for (int i = 1; i < f->s->ndg; ++i) f->s->dg[i - 1] = f->s->dg[i]; --f->s->ndg; return (ssize_t)k; }
        case F_CONSOLE: return 0;
        case F_EVENT: if (n < 8) return ERR(EINVAL); if (f->p->len) { uint64_t v = f->p->len; memcpy(buf, &v, 8); f->p->len = 0; return 8; } break;
        default: return ERR(EINVAL);
        }
        if ((f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) return ERR(EAGAIN);
        block(readable, f); cancelPoint();
    }
}
static ssize_t doWrite(int fd, const void *buf, size_t n, int flags) {
    point(VKP_IO); cancelPoint();
    OFile *f = getf(fd); if (!f) return ERR(EBADF);
    if (eintr()) return -1;
    if (fault(VKF_WRITE, EIO)) return -1;
    ssize_t done = 0;
    for (;;) {
        Pipe *p = nullptr;
        switch (f->type) {
        case F_PIPEW: if (!f->p->readers) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); return ERR(EPIPE); } p = f->p; break;
        case F_TCP: {
            Sock *s = f->s;
            if (s->st == S_FAILED) { int e = s->soerr; s->soerr = 0; if (e) return ERR(e); if (!(flags & MSG_NOSIGNAL)) sigpipe(); return ERR(EPIPE); }
            if (s->st != S_CONN) return ERR(ENOTCONN);
            if (s->reset && s->rstErr) { int e = s->rstErr; s->rstErr = 0; return ERR(e); }
            if (s->shutW || s->reset) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); return ERR(EPIPE); }
            if (s->tx->readers == 0) {
                if (vkw.lost_writes > 0 && vk_choose(2, "lost")) { --vkw.lost_writes; s->reset = true; s->rstErr = ECONNRESET; return (ssize_t)n; }
                if (!(flags & MSG_NOSIGNAL)) sigpipe(); return ERR(EPIPE);
            }
            p = s->tx; break; }
        case F_CONSOLE: { Con *c = con[f->con]; size_t k = shorten(n); for (size_t i = 0; i < k && c->len < (int)sizeof(c->d); ++i) c->d[c->len++] = ((const char *)buf)[i]; return (ssize_t)k; }
        case F_EVENT: { if (n < 8) return ERR(EINVAL); uint64_t v; memcpy(&v, buf, 8); f->p->len += (int)v; ++f->p->nin; return 8; }
        default: return ERR(EINVAL);
        }
        if (n == 0) return 0;
        if (p->len < p->cap) {
            ssize_t k = addBytes(p, (const char *)buf + done, n - done); done += k;
            if ((f->flags & O_NONBLOCK) || (size_t)done == n) return done;
            continue;
        }
        if ((f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) return done ? done : ERR(EAGAIN);
        block(writable, f); cancelPoint();
    }
}
ssize_t vkm_read(int fd, void *buf, size_t n) { M m; return doRead(fd, buf, n, 0); }
ssize_t vkm_recv(int fd, void *buf, size_t n, int fl) { M m; return doRead(fd, buf, n, fl); }
ssize_t vkm_write(int fd, const void *buf, size_t n) { M m; return doWrite(fd, buf, n, 0); }
ssize_t vkm_send(int fd, const void *buf, size_t n, int fl) { M m; return doWrite(fd, buf, n, fl); }
ssize_t vkm_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t k = vkm_read(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
ssize_t vkm_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t k = vkm_write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
int vkm_close(int fd) {
    M m; point(VKP_IO); OFile *f = getf(fd);
    if (!f) { ++vkw.bad_close; return ERR(EBADF); }
    fdt[proc()][fd] = nullptr; unref(f); return 0;
}
int vkm_pipe2(int *fds, int flags) {
    M m; if (fault(VKF_PIPE, EMFILE)) return -1; if (!hasRoomForFds(2)) return -1;
    Pipe *p = newPipe(vkw.pipe_cap); p->readers = p->writers = 1; p->packets = flags & O_DIRECT;
    OFile *r = newFile(F_PIPER), *w = newFile(F_PIPEW); r->p = w->p = p; r->flags = O_RDONLY | (flags & O_NONBLOCK); w->flags = O_WRONLY | (flags & O_NONBLOCK);
    fds[0] = putFd(r); fds[1] = putFd(w); cloexec[proc()][fds[0]] = cloexec[proc()][fds[1]] = (flags & O_CLOEXEC) != 0; return 0;
}
int vkm_pipe(int *fds) { return vkm_pipe2(fds, 0); }
int vkm_dup(int fd) { M m; OFile *f = getf(fd); if (!f) return ERR(EBADF); if (!hasRoomForFds(1)) return -1; ++f->refs; return putFd(f); }
int vkm_dup2(int a, int b) {
    M m; OFile *f = getf(a); if (!f || b < 0 || b >= MAXFD) return ERR(EBADF); if (a == b) return b;
    OFile *o = getf(b); ++f->refs; fdt[proc()][b] = f; cloexec[proc()][b] = 0; if (o) unref(o); return b;
}
int vkm_dup3(int a, int b, int fl) { M m; if (a == b) return ERR(EINVAL); int r = vkm_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) cloexec[proc()][b] = 1; return r; }
off_t vkm_lseek(int fd, off_t o, int w) { M m; OFile *f = getf(fd); if (!f) return ERR(EBADF); if (f->type == F_SHM && w == SEEK_END) return f->shm->size + o; return ERR(ESPIPE); }
off_t vkm_lseek64(int fd, off_t o, int w) { return vkm_lseek(fd, o, w); }
int vkm_close_range(unsigned a, unsigned b, int fl) { M m; initCon(); for (unsigned i = a; i <= b && i < (unsigned)MAXFD; ++i) if (OFile *f = fdt[proc()][i]) { if (fl & 4) cloexec[proc()][i] = 1; else { fdt[proc()][i] = nullptr; unref(f); } } return 0; }
int vkm_isatty(int fd) { M m; OFile *f = getf(fd); if (!f) return (ERR(EBADF), 0); if (f->type == F_CONSOLE) return 1; return (ERR(ENOTTY), 0); }
int vkm_fchmod(int fd, mode_t) { M m; return getf(fd) ? 0 : ERR(EBADF); }
mode_t vkm_umask(mode_t n) { static mode_t cur = 022; mode_t o = cur; cur = n & 0777; return o; }
int vkm_mlock(const void *, size_t) { return 0; }
int vkm_munlock(const void *, size_t) { return 0; }
void vkm_perror(const char *) { }
int vkm_sched_getcpu() { return 0; }
long vkm_sysconf(int n) { M m; switch (n) { case _SC_OPEN_MAX: return fdLimit(); case _SC_PAGESIZE: return 4096; case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return 4; case _SC_CLK_TCK: return 100; case _SC_IOV_MAX: return 1024; case _SC_ARG_MAX: return 2097152; } return ERR(EINVAL); }
int vkm_getrlimit(int r, struct rlimit *l) { M m; l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? (rlim_t)fdLimit() : RLIM_INFINITY; return 0; }
int vkm_getpagesize() { return 4096; }
static Name *findName(const char *p) { for (auto &n : names) if (n.used && strcmp(n.path, p) == 0) return &n; return nullptr; }
static Name *newName(const char *p, int type) { for (auto &n : names) if (!n.used) { n.used = true; n.type = type; strncpy(n.path, p, sizeof(n.path) - 1); n.path[sizeof(n.path) - 1] = 0; n.fifo = nullptr; n.sock = nullptr; return &n; } return nullptr; }
int vkm_mkfifo(const char *path, mode_t) { M m; if (fault(VKF_MKFIFO, EACCES)) return -1; if (findName(path)) return ERR(EEXIST); newName(path, 1)->fifo = newPipe(vkw.pipe_cap); return 0; }
int vkm_open(const char *path, int flags, ...) {
    M m; if (fault(VKF_OPEN, EMFILE, EACCES)) return -1;
    Name *n = findName(path); if (!n) return ERR(ENOENT); if (n->type != 1) return ERR(ENXIO);
    if (!hasRoomForFds(1)) return -1;
    int acc = flags & O_ACCMODE; OFile *f;
    if (acc == O_RDONLY) { if (!(flags & O_NONBLOCK)) { ++n->fifo->readers; block([](void *a) { return ((Pipe *)a)->writers > 0; }, n->fifo); --n->fifo->readers; } f = newFile(F_PIPER); ++n->fifo->readers; }
    else if (acc == O_WRONLY) { if (!n->fifo->readers) { if (flags & O_NONBLOCK) { --nfiles; ++nfiles; return ERR(ENXIO); } block([](void *a) { return ((Pipe *)a)->readers > 0; }, n->fifo); } f = newFile(F_PIPEW); ++n->fifo->writers; }
    else return ERR(EINVAL);
    f->p = n->fifo; f->flags = acc | (flags & O_NONBLOCK); return putFd(f);
}
int vkm_open64(const char *path, int flags, ...) { return vkm_open(path, flags); }
int vkm_unlink(const char *p) { M m; if (fault(VKF_NAME, EACCES)) return -1; Name *n = findName(p); if (!n) return ERR(ENOENT); n->used = false; return 0; }
int vkm_remove(const char *p) { return vkm_unlink(p); }
int vkm_access(const char *p, int) { M m; return findName(p) ? 0 : ERR(ENOENT); }
int vkm_stat(const char *p, struct stat *st) { M m; Name *n = findName(p); if (!n) return ERR(ENOENT); memset(st, 0, sizeof *st); st->st_mode = (n->type == 1 ? S_IFIFO : S_IFSOCK) | 0666; st->st_nlink = 1; return 0; }
int vkm_lstat(const char *p, struct stat *st) { return vkm_stat(p, st); }
int vkm_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); int arg = cmd == F_SETFL || cmd == F_SETFD || cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? va_arg(ap, int) : 0; va_end(ap);
    M m; OFile *f = getf(fd); if (!f) return ERR(EBADF);
    if (fault(VKF_FCNTL, EACCES)) return -1;
    switch (cmd) {
    case F_GETFL: return f->flags;
    case F_SETFL: f->flags = (f->flags & O_ACCMODE) | (arg & (O_NONBLOCK | O_APPEND | O_ASYNC)); return 0;
    case F_GETFD: return cloexec[proc()][fd] ? FD_CLOEXEC : 0;
    case F_SETFD: cloexec[proc()][fd] = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { ++f->refs; int r = putFd(f, arg); if (r < 0) --f->refs; else cloexec[proc()][r] = cmd == F_DUPFD_CLOEXEC; return r; }
    }
    return ERR(EINVAL);
}
int vkm_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int arg = va_arg(ap, int); va_end(ap); return vkm_fcntl(fd, cmd, arg); }
int vkm_ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); int *a = va_arg(ap, int *); va_end(ap); M m; OFile *f = getf(fd); if (!f) return ERR(EBADF); if (req == 0x5421) { if (*a) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; } return ERR(EINVAL); }
int vkm_eventfd(unsigned v, int flags) { M m; if (!hasRoomForFds(1)) return -1; OFile *f = newFile(F_EVENT); f->p = newPipe(64); f->p->len = (int)v; f->flags = O_RDWR | (flags & O_NONBLOCK); return putFd(f); }

// ------------------------------------------------------------------ addresses
static int pton4(const char *s, unsigned char *o) {
    for (int i = 0; i < 4; ++i) {
        int v = -1, n = 0;
        while (*s >= '0' && *s <= '9') { if (n && v == 0) return 0; v = (v < 0 ? 0 : v) * 10 + (*s++ - '0'); if (++n > 3 || v > 255) return 0; }
        if (v < 0) return 0; o[i] = (unsigned char)v;
        if (i < 3) { if (*s++ != '.') return 0; } else if (*s) return 0;
    }
    return 1;
}
static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static int pton6(const char *s, unsigned char *o) {
    unsigned short w[8]; int n = 0, gap = -1;
    if (*s == ':') { if (s[1] != ':') return 0; }
    if (*s == ':' && s[1] == ':') { gap = 0; s += 2; }
    while (*s) {
        if (n >= 8) return 0;
        const char *q = s; while (*q >= '0' && *q <= '9') ++q;
        if (*q == '.' && n <= 6) { unsigned char z[4]; if (!pton4(s, z)) return 0; w[n++] = (unsigned short)(z[0] << 8 | z[1]); w[n++] = (unsigned short)(z[2] << 8 | z[3]); break; }
        int v = 0, d = 0; while (hexv(*s) >= 0) { v = v * 16 + hexv(*s++); if (++d > 4) return 0; }
        if (!d) return 0;
        w[n++] = (unsigned short)v;
        if (*s == ':') { ++s; if (*s == ':') { if (gap >= 0) return 0; gap = n; ++s; } else if (!*s) return 0; }
        else if (*s) return 0;
    }
    if (gap < 0 && n != 8) return 0;
    if (gap >= 0 && n > 7) return 0;
    memset(o, 0, 16);
    int head = gap < 0 ? n : gap, tail = n - head;
    for (int i = 0; i < head; ++i) { o[2 * i] = w[i] >> 8; o[2 * i + 1] = w[i] & 255; }
    for (int i = 0; i < tail; ++i) { int k = 8 - tail + i; o[2 * k] = w[head + i] >> 8; o[2 * k + 1] = w[head + i] & 255; }
    return 1;
}
int vkm_inet_pton(int af, const char *s, void *d) {
    M m; unsigned char b[16];
    if (af == AF_INET) { if (!pton4(s, b)) return 0; memcpy(d, b, 4); return 1; }
    if (af == AF_INET6) { if (!pton6(s, b)) return 0; memcpy(d, b, 16); return 1; }
    return ERR(EAFNOSUPPORT);
}
static char *putNum(char *o, unsigned v, unsigned base) { char t[8]; int n = 0; do { unsigned d = v % base; t[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v); while (n) *o++ = t[--n]; return o; }
const char *vkm_inet_ntop(int af, const void *src, char *d, socklen_t n) {
    M m; char t[64]; char *o = t; unsigned char b[16];
    if (af == AF_INET) { memcpy(b, src, 4); for (int i = 0; i < 4; ++i) { if (i) *o++ = '.'; o = putNum(o, (unsigned)vk_conc(b[i]), 10); } }
    else if (af == AF_INET6) {
        memcpy(b, src, 16); unsigned w[8]; for (int i = 0; i < 8; ++i) w[i] = (unsigned)vk_conc(b[2 * i] << 8 | b[2 * i + 1]);
        int bs = -1, bl = 0; for (int i = 0; i < 8;) { int j = i; while (j < 8 && !w[j]) ++j; if (j - i > bl && j - i > 1) { bs = i; bl = j - i; } i = j > i ? j : i + 1; }
        for (int i = 0; i < 8;) { if (i == bs) { *o++ = ':'; *o++ = ':'; i += bl; continue; } if (i && i != bs + bl) *o++ = ':'; if (i == 6 && bs == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) { for (int k = 12; k < 16; ++k) { if (k > 12) *o++ = '.'; o = putNum(o, (unsigned)vk_conc(b[k]), 10); } break; } o = putNum(o, w[i], 16); ++i; }
    } else { ERR(EAFNOSUPPORT); return nullptr; }
    *o = 0; size_t l = o - t + 1; if (l > n) { ERR(ENOSPC); return nullptr; }
    memcpy(d, t, l); return d;
}
static int getAddr(const struct sockaddr *sa, socklen_t len, int fam, Addr &a) {   // 0 or errno
    memset(&a, 0, sizeof a);
    if (len < 2) return EINVAL;
    unsigned short f; memcpy(&f, sa, 2); f = (unsigned short)vk_conc(f);
    if (f != fam) return EAFNOSUPPORT;
    a.fam = f;
    if (f == AF_INET) { if (len < sizeof(sockaddr_in)) return EINVAL; const sockaddr_in *p = (const sockaddr_in *)sa; a.port = (int)(unsigned short)(((p->sin_port & 255) << 8) | (p->sin_port >> 8)); memcpy(a.b, &p->sin_addr, 4); }
    else if (f == AF_INET6) { if (len < 24) return EINVAL; const sockaddr_in6 *p = (const sockaddr_in6 *)sa; a.port = (int)(unsigned short)(((p->sin6_port & 255) << 8) | (p->sin6_port >> 8)); memcpy(a.b, &p->sin6_addr, 16); }
    else if (f == AF_UNIX) {
        if (len > sizeof(sockaddr_un)) return EINVAL;
        const char *p = ((const sockaddr_un *)sa)->sun_path; int n = (int)len - 2; int i = 0;
        while (i < n && p[i]) { a.path[i] = p[i]; ++i; }
        a.path[i] = 0; a.plen = i; if (n == 0 || i == 0) return n == 0 ? EINVAL : EINVAL;
    } else return EAFNOSUPPORT;
    return 0;
}
static bool isAny(const Addr &a) { for (int i = 0; i < 16; ++i) if (a.b[i]) return false; return true; }
static bool sameAddr(const Addr &want, const Addr &bound) {   // bound may be a wildcard
    if (want.fam != bound.fam) return false;
    if (want.fam == AF_UNIX) return strcmp(want.path, bound.path) == 0;
    if (want.port != bound.port) return false;
    return isAny(bound) || memcmp(want.b, bound.b, 16) == 0 || isAny(want);
}
static void putAddr(const Addr &a, struct sockaddr *sa, socklen_t *len) {
    if (!sa || !len) return;
    sockaddr_storage st; memset(&st, 0, sizeof st); socklen_t n;
    st.ss_family = (sa_family_t)a.fam;
    if (a.fam == AF_INET) { sockaddr_in *p = (sockaddr_in *)&st; p->sin_port = (in_port_t)(((a.port & 255) << 8) | ((a.port >> 8) & 255)); memcpy(&p->sin_addr, a.b, 4); n = sizeof *p; }
    else if (a.fam == AF_INET6) { sockaddr_in6 *p = (sockaddr_in6 *)&st; p->sin6_port = (in_port_t)(((a.port & 255) << 8) | ((a.port >> 8) & 255)); memcpy(&p->sin6_addr, a.b, 16); n = sizeof *p; }
    else { sockaddr_un *p = (sockaddr_un *)&st; memcpy(p->sun_path, a.path, a.plen + 1); n = a.plen ? (socklen_t)(2 + a.plen + 1) : 2; }
    memcpy(sa, &st, *len < n ? *len : n); *len = n;
}
static void ephemeral(Sock *s) {
    if (s->hasLocal) return;
    s->hasLocal = true; memset(&s->local, 0, sizeof s->local); s->local.fam = s->fam;
    if (s->fam == AF_UNIX) { s->local.plen = 0; return; }
    s->local.port = nextPort++;
    if (s->fam == AF_INET) { s->local.b[0] = 127; s->local.b[3] = 1; } else s->local.b[15] = 1;
}
// ------------------------------------------------------------------ sockets
static Sock *sockOf(int fd, int &e) { OFile *f = getf(fd); if (!f) { e = EBADF; return nullptr; } if (f->type != F_TCP && f->type != F_UDP) { e = ENOTSOCK; return nullptr; } return f->s; }
int vkm_socket(int fam, int type, int) {
    M m; if (fault(VKF_SOCKET, EMFILE)) return -1;
    int t = type & 0xf; if (fam != AF_INET && fam != AF_INET6 && fam != AF_UNIX) return ERR(EAFNOSUPPORT); if (t != SOCK_STREAM && t != SOCK_DGRAM) return ERR(EINVAL);
    if (!hasRoomForFds(1)) return -1;
    OFile *f = newFile(t == SOCK_STREAM ? F_TCP : F_UDP); f->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0); Sock *s = f->s = mk<Sock>(); s->fam = fam; s->udp = t == SOCK_DGRAM; s->st = S_NEW;
    if (s->udp) udps[nudps++] = s;
    int r = putFd(f); cloexec[proc()][r] = (type & SOCK_CLOEXEC) != 0; return r;
}
int vkm_bind(int fd, const struct sockaddr *sa, socklen_t len) {
    M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e);
    if (fault(VKF_BIND, EACCES)) return -1;
    Addr a; if ((e = getAddr(sa, len, s->fam, a))) return ERR(e);
    if (s->hasLocal) return ERR(EINVAL);
    if (a.fam == AF_UNIX) { if (findName(a.path)) return ERR(EADDRINUSE); Name *n = newName(a.path, 2); n->sock = s; }
    else {
        if (a.port == 0) a.port = nextPort++;
        for (int i = 0; i < nlst; ++i) if (lst[i]->fam == a.fam && !s->udp && (sameAddr(a, lst[i]->local) || sameAddr(lst[i]->local, a))) { bool rp = false; for (int k = 0; k < s->nopts; ++k) if (s->opts[k].name == SO_REUSEPORT && s->opts[k].v) rp = true; if (!rp) return ERR(EADDRINUSE); }
        if (s->udp) for (int i = 0; i < nudps; ++i) if (udps[i] != s && udps[i]->hasLocal && udps[i]->fam == a.fam && (sameAddr(a, udps[i]->local) || sameAddr(udps[i]->local, a))) { bool ra = false; for (int k = 0; k < s->nopts; ++k) if ((s->opts[k].name == SO_REUSEPORT || s->opts[k].name == SO_REUSEADDR) && s->opts[k].v) ra = true; if (!ra) return ERR(EADDRINUSE); }
    }
    s->local = a; s->hasLocal = true; if (s->st == S_NEW) s->st = S_BOUND; return 0;
}
int vkm_listen(int fd, int backlog) {
    M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (fault(VKF_LISTEN, EADDRINUSE)) return -1;
    if (s->udp) return ERR(EOPNOTSUPP); if (s->st == S_CONN) return ERR(EINVAL);
    if (s->fam == AF_UNIX && !s->hasLocal) return ERR(EINVAL);
    if (s->st == S_LISTEN) { s->backlog = backlog; return 0; }
    ephemeral(s); s->st = S_LISTEN; s->backlog = backlog; lst[nlst++] = s; return 0;
}
static void pair(Sock *c, Sock *srv, Sock *n) {   // c connects to listener srv; n is the new server-side socket
    n->fam = c->fam; n->st = S_CONN; c->st = S_CONN; n->other = c; c->other = n;
    n->rx = c->tx = newPipe(vkw.sock_cap); n->tx = c->rx = newPipe(vkw.sock_cap);
    n->rx->readers = n->rx->writers = n->tx->readers = n->tx->writers = 1;
    ephemeral(c); n->local = c->peer; n->hasLocal = true; n->peer = c->local; n->peer.fam = n->fam;
    (void)srv;
}
static int backlogCap() { return vkw.backlog_cap ? vkw.backlog_cap : 8; }
int vkm_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    M m; point(VKP_IO); int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e);
    if (fault(VKF_CONNECT, ENETUNREACH, ETIMEDOUT)) return -1;
    Addr a; if ((e = getAddr(sa, len, s->fam, a))) return ERR(e);
    if (s->udp) { s->peer = a; s->st = S_CONN; return 0; }
    if (s->st == S_CONN) return ERR(EISCONN); if (s->st == S_LISTEN) return ERR(EINVAL);
    bool nb = getf(fd)->flags & O_NONBLOCK;
    if (a.fam == AF_UNIX) {
        Name *n = findName(a.path); if (!n) return ERR(ENOENT); if (n->type != 2 || !n->sock || n->sock->st != S_LISTEN) return ERR(ECONNREFUSED);
        Sock *l = n->sock; if (l->nq >= backlogCap()) return ERR(EAGAIN);
        Sock *x = mk<Sock>(); s->peer = a; pair(s, l, x); l->q[l->nq++] = x; ++l->nin; return 0;
    }
    Sock *l = nullptr; for (int i = 0; i < nlst; ++i) if (sameAddr(a, lst[i]->local)) { l = lst[i]; break; }
    s->peer = a;
    bool fail = !l || l->nq >= backlogCap();
    if (!fail && vkw.connect_fail > 0 && vk_choose(2, "connect_fail")) { --vkw.connect_fail; fail = true; }
    if (fail) { ephemeral(s); if (!nb) return ERR(ECONNREFUSED); s->st = S_FAILED; s->soerr = ECONNREFUSED; return ERR(EINPROGRESS); }
    Sock *x = mk<Sock>(); pair(s, l, x); l->q[l->nq++] = x; ++l->nin;
    if (!nb) return 0;
    if (vkw.connect_imm && vk_choose(2, "connect_imm")) return 0;
    return ERR(EINPROGRESS);
}
static bool acceptable(void *a) { return ((Sock *)a)->nq > 0 || cancelled(); }
int vkm_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags) {
    M m; point(VKP_IO); cancelPoint(); int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e);
    if (s->st != S_LISTEN) return ERR(EINVAL);
    if (eintr()) return -1;
    if (fault(VKF_ACCEPT, EMFILE, ECONNABORTED)) return -1;
    if (!s->nq) { if (getf(fd)->flags & O_NONBLOCK) return ERR(EAGAIN); while (!s->nq) { block(acceptable, s); cancelPoint(); } }
    if (!hasRoomForFds(1)) return -1;
    Sock *x = s->q[0]; for (int i = 1; i < s->nq; ++i) s->q[i - 1] = s->q[i]; --s->nq;
    OFile *f = newFile(F_TCP); f->s = x; f->flags = O_RDWR | (flags & SOCK_NONBLOCK ? O_NONBLOCK : 0);
    putAddr(x->peer, sa, len);
    int r = putFd(f); cloexec[proc()][r] = (flags & SOCK_CLOEXEC) != 0; return r;
}
int vkm_accept(int fd, struct sockaddr *sa, socklen_t *len) { return vkm_accept4(fd, sa, len, 0); }
int vkm_shutdown(int fd, int how) {
    M m; point(VKP_IO); int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (s->st != S_CONN) return ERR(ENOTCONN); if (how < 0 || how > 2) return ERR(EINVAL);
    if (how == SHUT_RD || how == SHUT_RDWR) s->shutR = true;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->shutW = true; if (s->tx) s->tx->writers = 0; }
    return 0;
}
int vkm_getsockname(int fd, struct sockaddr *sa, socklen_t *len) { M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (fault(VKF_SOCKOPT, ENOBUFS)) return -1; Addr a = s->local; a.fam = s->fam; putAddr(a, sa, len); return 0; }
int vkm_getpeername(int fd, struct sockaddr *sa, socklen_t *len) { M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (s->st != S_CONN) return ERR(ENOTCONN); Addr a = s->peer; a.fam = s->fam; putAddr(a, sa, len); return 0; }
static Opt *optOf(Sock *s, int level, int name, bool create) {
    for (int i = 0; i < s->nopts; ++i) if (s->opts[i].level == level && s->opts[i].name == name) return &s->opts[i];
    if (!create || s->nopts >= 16) return nullptr;
    Opt *o = &s->opts[s->nopts++]; o->level = level; o->name = name; o->v = o->v2 = 0;
    if (level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) o->v = 4096;
    if (level == SOL_SOCKET && (name == SO_RCVLOWAT || name == SO_SNDLOWAT)) o->v = 1;
    return o;
}
static int optKind(Sock *s, int level, int name) {   // 1 bool 2 buffer 3 lowat 4 linger 0 unsupported
    if (level == SOL_SOCKET) switch (name) { case SO_REUSEADDR: case SO_REUSEPORT: case SO_KEEPALIVE: case SO_BROADCAST: return 1; case SO_RCVBUF: case SO_SNDBUF: return 2; case SO_RCVLOWAT: return 3; case SO_LINGER: return 4; default: return 0; }
    if (level == IPPROTO_TCP && name == TCP_NODELAY) return s->udp || s->fam == AF_UNIX ? 0 : 1;
    return 0;
}
int vkm_setsockopt(int fd, int level, int name, const void *v, socklen_t len) {
    M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (fault(VKF_SOCKOPT, ENOBUFS)) return -1;
    int k = optKind(s, level, name); if (!k) return ERR(ENOPROTOOPT);
    if (len < sizeof(int)) return ERR(EINVAL);
    Opt *o = optOf(s, level, name, true); int x; memcpy(&x, v, sizeof x);
    if (k == 1) o->v = x != 0;
    else if (k == 2) { long y = x; if (y < 0) y = 0; if (y > 212992) y = 212992; y *= 2; o->v = y < 2304 ? 2304 : y; }
    else if (k == 3) o->v = x < 0 ? 0x7fffffff : x ? x : 1;
    else { if (len < sizeof(struct linger)) return ERR(EINVAL); struct linger l; memcpy(&l, v, sizeof l); o->v = l.l_onoff != 0; if (l.l_onoff) o->v2 = l.l_linger; }
    return 0;
}
int vkm_getsockopt(int fd, int level, int name, void *v, socklen_t *len) {
    M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e); if (fault(VKF_SOCKOPT, ENOBUFS)) return -1;
    int x;
    if (level == SOL_SOCKET && name == SO_ERROR) { x = s->soerr; s->soerr = 0; if (s->reset && s->rstErr) { x = s->rstErr; s->rstErr = 0; } }
    else if (level == SOL_SOCKET && name == SO_TYPE) x = s->udp ? SOCK_DGRAM : SOCK_STREAM;
    else if (level == SOL_SOCKET && name == SO_SNDLOWAT) x = 1;
    else {
        int k = optKind(s, level, name); if (!k) return ERR(ENOPROTOOPT);
        Opt *o = optOf(s, level, name, true);
        if (k == 4) { struct linger l; l.l_onoff = (int)o->v; l.l_linger = (int)o->v2; socklen_t n = *len < sizeof l ? *len : sizeof l; memcpy(v, &l, n); *len = n; return 0; }
        x = (int)o->v;
    }
    socklen_t n = *len < sizeof x ? *len : sizeof x; memcpy(v, &x, n); *len = n; return 0;
}
ssize_t vkm_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *sa, socklen_t len) {
    { M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e);
    if (s->udp) {
        point(VKP_IO); if (eintr()) return -1; if (fault(VKF_SENDTO, EAGAIN, ENETUNREACH)) return -1;
        Addr a; if (sa) { if ((e = getAddr(sa, len, s->fam, a))) return ERR(e); } else { if (s->st != S_CONN) return ERR(EDESTADDRREQ); a = s->peer; }
        if (n > 65507) return ERR(EMSGSIZE);
        if (s->fam != AF_UNIX) ephemeral(s);
        if (a.fam != AF_UNIX && a.port == 0) return ERR(EINVAL);
        Sock *t = nullptr;
        if (a.fam == AF_UNIX) { Name *nm = findName(a.path); if (!nm) return ERR(ENOENT); if (!nm->sock || !nm->sock->udp) return ERR(ECONNREFUSED); t = nm->sock; }
        else for (int i = 0; i < nudps; ++i) if (udps[i]->hasLocal && sameAddr(a, udps[i]->local)) { t = udps[i]; break; }
        if (!t) return (ssize_t)n;
        if (t->ndg >= 64) { if (a.fam == AF_UNIX) return ERR(EAGAIN); return (ssize_t)n; }
        Dgram *d = mk<Dgram>(); d->len = (int)n; d->d = (unsigned char *)vk_malloc(n ? n : 1); memcpy(d->d, buf, n); d->from = s->local; d->from.fam = s->fam; t->dg[t->ndg++] = d; ++t->nin; return (ssize_t)n;
    } }
    return vkm_send(fd, buf, n, flags);
}
ssize_t vkm_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *sa, socklen_t *len) {
    { M m; int e = 0; Sock *s = sockOf(fd, e); if (!s) return ERR(e);
    if (s->udp) {
        point(VKP_IO); if (eintr()) return -1; if (fault(VKF_RECVFROM, ECONNREFUSED)) return -1;
        while (!s->ndg) { if ((getf(fd)->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) return ERR(EAGAIN); block(readable, getf(fd)); }
        Dgram *d = s->dg[0]; size_t k = (size_t)d->len < n ? (size_t)d->len : n; memcpy(buf, d->d, k);
        putAddr(d->from, sa, len);
        for (int i = 1; i < s->ndg; ++i) s->dg[i - 1] = s->dg[i];
        --s->ndg; return (flags & MSG_TRUNC) ? d->len : (ssize_t)k;
    } }
    if (len) *len = 0;
    return vkm_recv(fd, buf, n, flags);
}

ssize_t vkm_sendmsg(int fd, const struct msghdr *h, int fl) {
    size_t n = 0; for (size_t i = 0; i < h->msg_iovlen; ++i) n += h->msg_iov[i].iov_len;
    char *b = (char *)vk_malloc(n ? n : 1); size_t k = 0; for (size_t i = 0; i < h->msg_iovlen; ++i) { memcpy(b + k, h->msg_iov[i].iov_base, h->msg_iov[i].iov_len); k += h->msg_iov[i].iov_len; }
    return vkm_sendto(fd, b, n, fl, (const struct sockaddr *)h->msg_name, h->msg_namelen);
}
ssize_t vkm_recvmsg(int fd, struct msghdr *h, int fl) {
    size_t n = 0; for (size_t i = 0; i < h->msg_iovlen; ++i) n += h->msg_iov[i].iov_len;
    char *b = (char *)vk_malloc(n ? n : 1); ssize_t r = vkm_recvfrom(fd, b, n, fl | MSG_TRUNC, (struct sockaddr *)h->msg_name, h->msg_name ? &h->msg_namelen : nullptr); if (r < 0) return r;
    h->msg_controllen = 0; h->msg_flags = 0; size_t have = (size_t)r; if (have > n) { h->msg_flags = MSG_TRUNC; have = n; }
    size_t k = 0; for (size_t i = 0; i < h->msg_iovlen && k < have; ++i) { size_t z = h->msg_iov[i].iov_len; if (z > have - k) z = have - k; memcpy(h->msg_iov[i].iov_base, b + k, z); k += z; }
    return (fl & MSG_TRUNC) ? r : (ssize_t)have;
}
int vkm_socketpair(int fam, int type, int, int *fds) {
    M m; if (fault(VKF_SOCKET, EMFILE)) return -1; if (fam != AF_UNIX || (type & 0xf) != SOCK_STREAM) return ERR(EOPNOTSUPP); if (!hasRoomForFds(2)) return -1;
    Sock *a = mk<Sock>(), *b = mk<Sock>(); a->fam = b->fam = fam; pair(a, nullptr, b);
    for (int i = 0; i < 2; ++i) { OFile *f = newFile(F_TCP); f->s = i ? b : a; f->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0); fds[i] = putFd(f); cloexec[proc()][fds[i]] = (type & SOCK_CLOEXEC) != 0; }
    return 0;
}
// one to four parts, each decimal, octal or hexadecimal, blanks behind
int vkm_inet_aton(const char *s, struct in_addr *a) {
    M m; unsigned long p[4]; int n = 0;
    for (;;) {
        if (n >= 4 || *s < '0' || *s > '9') return 0;
        int base = 10, d = 0; if (*s == '0') { base = 8; if (s[1] == 'x' || s[1] == 'X') { base = 16; s += 2; } }
        unsigned long v = 0; while (hexv(*s) >= 0 && hexv(*s) < base) { v = v * base + (unsigned)hexv(*s++); ++d; if (v > 0xffffffffUL) return 0; }
        if (!d) return 0; p[n++] = v; if (*s == '.') { ++s; continue; } break;
    }
    if (*s && *s != ' ' && (*s < 9 || *s > 13)) return 0;
    uint32_t r = 0; for (int i = 0; i < n - 1; ++i) { if (p[i] > 255) return 0; r |= (uint32_t)p[i] << (24 - 8 * i); }
    if (n > 1 && p[n - 1] >> (8 * (5 - n))) return 0; r |= (uint32_t)p[n - 1];
    unsigned char b[4] = {(unsigned char)(r >> 24), (unsigned char)(r >> 16), (unsigned char)(r >> 8), (unsigned char)r}; memcpy(a, b, 4); return 1;
}
in_addr_t vkm_inet_addr(const char *s) { struct in_addr a; return vkm_inet_aton(s, &a) ? a.s_addr : INADDR_NONE; }
char *vkm_inet_ntoa(struct in_addr a) { static char b[20]; vkm_inet_ntop(AF_INET, &a, b, sizeof b); return b; }
// ------------------------------------------------------------------ epoll
int vkm_epoll_create1(int) { M m; if (fault(VKF_EPCREATE, EMFILE)) return -1; if (!hasRoomForFds(1)) return -1; OFile *f = newFile(F_EPOLL); f->ep = mk<Epoll>(); return putFd(f); }
int vkm_epoll_create(int n) { if (n <= 0) { M m; return ERR(EINVAL); } return vkm_epoll_create1(0); }
int vkm_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    M m; point(VKP_EPOLL); OFile *f = getf(epfd); OFile *t = getf(fd); if (!f || !t) return ERR(EBADF); if (f->type != F_EPOLL || t == f) return ERR(EINVAL);
    if (fault(VKF_EPCTL, ENOMEM)) return -1;
    Epoll *e = f->ep; int k = -1; for (int i = 0; i < e->n; ++i) if (e->e[i].fd == fd && e->e[i].f == t) k = i;
    if (op == EPOLL_CTL_ADD) { if (k >= 0) return ERR(EEXIST); if (t->type == F_CONSOLE) return ERR(EPERM); if (e->n == e->cap) { int c = e->cap ? 2 * e->cap : 12; EpEnt *z = (EpEnt *)vk_malloc(c * sizeof(EpEnt)); if (e->e) memcpy(z, e->e, e->n * sizeof(EpEnt)); e->e = z; e->cap = c; } EpEnt &x = e->e[e->n++]; x.fd = fd; x.f = t; x.ev = ev->events; x.data = ev->data; x.off = false; x.seq = ~0ULL; return 0; }
    if (k < 0) return ERR(ENOENT);
    if (op == EPOLL_CTL_MOD) { e->e[k].ev = ev->events; e->e[k].data = ev->data; e->e[k].off = false; e->e[k].seq = ~0ULL; return 0; }
    if (op == EPOLL_CTL_DEL) { for (int j = k + 1; j < e->n; ++j) e->e[j - 1] = e->e[j]; --e->n; return 0; }
    return ERR(EINVAL);
}
static uint32_t entEv(EpEnt &x) { if (x.off || ((x.ev & EPOLLET) && x.seq == actOf(x.f))) return 0; return evOf(x.f) & (x.ev | EPOLLERR | EPOLLHUP); }
static bool epReady(void *a) { Epoll *e = (Epoll *)a; if (cancelled()) return true; for (int i = 0; i < e->n; ++i) if (entEv(e->e[i])) return true; return false; }
int vkm_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
    M m; point(VKP_EPOLL); cancelPoint(); OFile *f = getf(epfd); if (!f) return ERR(EBADF); if (f->type != F_EPOLL || max <= 0) return ERR(EINVAL);
    if (eintr()) return -1;
    if (fault(VKF_EPWAIT, EINVAL)) return -1;
    Epoll *e = f->ep;
    if (!epReady(e)) { if (timeout == 0) return 0; block(epReady, e, timeout < 0 ? -1 : vkw.now + timeout * 1000000LL); cancelPoint(); if (!epReady(e)) return 0; }
    int idx[MAXFD * 2], n = 0; for (int i = 0; i < e->n && n < MAXFD * 2; ++i) if (entEv(e->e[i])) idx[n++] = i;
    int rot = 0; if (n > 1 && (vkw.epoll_order || n > max) && !booting) rot = vkw.epoll_order < 0 ? ++turn % n : (int)vk_choose(n, "evorder");
    int k = n < max ? n : max;
    for (int i = 0; i < k; ++i) { EpEnt &x = e->e[idx[(i + rot) % n]]; evs[i].events = entEv(x); evs[i].data = x.data; x.seq = actOf(x.f); if (x.ev & EPOLLONESHOT) x.off = true; }
    return k;
}
int vkm_epoll_pwait(int epfd, struct epoll_event *evs, int max, int timeout, const sigset_t *) { return vkm_epoll_wait(epfd, evs, max, timeout); }
int vkm_poll(struct pollfd *p, nfds_t n, int timeout) {
    M m; point(VKP_EPOLL);
    auto scan = [&]() { int c = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd < 0) continue; OFile *f = getf(p[i].fd); if (!f) p[i].revents = POLLNVAL; else { uint32_t e = evOf(f); p[i].revents = (short)(e & ((unsigned)p[i].events | POLLERR | POLLHUP)); } if (p[i].revents) ++c; } return c; };
    int c = scan(); if (c || timeout == 0) return c;
    if (eintr()) return -1;
    struct A { struct pollfd *p; nfds_t n; OFile **t; } a = {p, n, fdt[proc()]};
    block([](void *v) { A *x = (A *)v; for (nfds_t i = 0; i < x->n; ++i) if (x->p[i].fd >= 0) { OFile *f = x->t[x->p[i].fd]; if (f && (evOf(f) & ((unsigned)x->p[i].events | POLLERR | POLLHUP))) return true; } return false; }, &a, timeout < 0 ? -1 : vkw.now + timeout * 1000000LL);
    return scan();
}

int vkm_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return vkm_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
static int doSelect(int n, fd_set *r, fd_set *w, fd_set *x, int ms) {
    struct pollfd p[MAXFD]; int c = 0; if (n > MAXFD) n = MAXFD;
    for (int i = 0; i < n; ++i) { short e = (short)((r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0) | (x && FD_ISSET(i, x) ? POLLPRI : 0)); if (e) { p[c].fd = i; p[c].events = e; p[c++].revents = 0; } }
    int k = vkm_poll(p, c, ms); if (k < 0) return k;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); k = 0;
    for (int i = 0; i < c; ++i) { if (p[i].revents & POLLNVAL) { M m; return ERR(EBADF); } if ((p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); ++k; } if ((p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); ++k; } }
    return k;
}
int vkm_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) { return doSelect(n, r, w, x, t ? (int)(t->tv_sec * 1000 + (t->tv_usec + 999) / 1000) : -1); }
int vkm_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *) { return doSelect(n, r, w, x, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }
long vkm___fdelt_chk(long d) { return d / 64; }
// ------------------------------------------------------------------ shared memory and semaphores
static Shm *findShm(const char *n) { for (auto &s : shms) if (s.used && s.linked && strcmp(s.name, n) == 0) return &s; return nullptr; }
int vkm_shm_open(const char *name, int flags, mode_t) {
    M m; point(VKP_SEM); if (fault(VKF_SHM, EMFILE, EACCES)) return -1; if (!hasRoomForFds(1)) return -1;
    Shm *s = findShm(name);
    if (s) { if ((flags & O_CREAT) && (flags & O_EXCL)) return ERR(EEXIST); if ((flags & O_TRUNC) && s->size) { memset(s->mem, 0, s->size); s->size = 0; } }
    else { if (!(flags & O_CREAT)) return ERR(ENOENT); for (auto &x : shms) if (!x.used) { s = &x; break; } s->used = s->linked = true; strncpy(s->name, name, 63); s->size = 0; s->mem = nullptr; s->maps = 0; }
    OFile *f = newFile(F_SHM); f->shm = s; f->flags = flags & O_ACCMODE; int fd = putFd(f); cloexec[proc()][fd] = 1; return fd;
}
int vkm_shm_unlink(const char *name) { M m; point(VKP_SEM); if (fault(VKF_SHM, EACCES)) return -1; Shm *s = findShm(name); if (!s) return ERR(ENOENT); s->linked = false; return 0; }
int vkm_ftruncate(int fd, off_t n) { M m; point(VKP_SEM); OFile *f = getf(fd); if (!f) return ERR(EBADF); if (f->type != F_SHM) return ERR(EINVAL); if ((f->flags & O_ACCMODE) == O_RDONLY) return ERR(EINVAL); if (n < 0) return ERR(EINVAL); if (fault(VKF_FTRUNC, ENOSPC)) return -1; Shm *s = f->shm; if (!s->mem) { s->cap = (int)(n > vkw.shm_cap ? n : vkw.shm_cap); s->mem = (char *)vk_malloc(s->cap ? s->cap : 1); } if (n > s->cap) vk_fail("model: shared memory grows too far"); if (n < s->size) memset(s->mem + n, 0, s->size - n); s->size = (int)n; return 0; }
int vkm_posix_fallocate(int fd, off_t at, off_t n) { int old = th[self()].err, size; { M m; OFile *f = getf(fd); if (!f || f->type != F_SHM) return EBADF; if (at < 0 || n <= 0) return EINVAL; size = f->shm->size; } if (at + n > size && vkm_ftruncate(fd, at + n) < 0) { int e = th[self()].err; th[self()].err = old; return e; } return 0; }
int vkm_fallocate(int fd, int mode, off_t at, off_t n) { if (mode) { M m; return ERR(ENOSYS); } int e = vkm_posix_fallocate(fd, at, n); if (e) { M m; return ERR(e); } return 0; }
int vkm_ftruncate64(int fd, off_t n) { return vkm_ftruncate(fd, n); }
int vkm_fstat(int fd, struct stat *st) { M m; OFile *f = getf(fd); if (!f) return ERR(EBADF); memset(st, 0, sizeof *st); if (f->type == F_SHM) st->st_size = f->shm->size; return 0; }
void *vkm_mmap(void *, size_t n, int prot, int fl, int fd, off_t off) {
    M m; point(VKP_SEM); OFile *f = getf(fd); if (!f) { ERR(EBADF); return MAP_FAILED; } if (f->type != F_SHM || n == 0) { ERR(EINVAL); return MAP_FAILED; }
    if (fault(VKF_MMAP, ENOMEM)) return MAP_FAILED;
    if (off) vk_fail("model: mapping at an offset"); if ((prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE)) vk_fail("shared memory that cannot be read and written");
    Shm *s = f->shm; if (!s->mem) { s->cap = (int)n > vkw.shm_cap ? (int)n : vkw.shm_cap; s->mem = (char *)vk_malloc(s->cap); }
    char *mem = s->mem; if (fl & MAP_PRIVATE) { mem = (char *)vk_malloc(n); memcpy(mem, s->mem, n < (size_t)s->size ? n : (size_t)s->size); }
    for (auto &x : maps) if (!x.used) { x.used = true; x.s = s; x.p = mem; x.n = n; ++s->maps; return mem; }
    ERR(ENOMEM); return MAP_FAILED;
}
void *vkm_mmap64(void *a, size_t n, int p, int fl, int fd, off_t o) { return vkm_mmap(a, n, p, fl, fd, o); }
int vkm_munmap(void *p, size_t n) { M m; for (auto &x : maps) if (x.used && x.p == p && x.n == n) { x.used = false; --x.s->maps; return 0; } ++vkw.bad_unmap; return ERR(EINVAL); }
static NSem *findSem(const char *n) { for (auto &s : sems) if (s.used && s.linked && strcmp(s.name, n) == 0) return &s; return nullptr; }
sem_t *vkm_sem_open(const char *name, int flags, ...) {
    unsigned v = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); (void)va_arg(ap, int); v = va_arg(ap, unsigned); va_end(ap); }
    M m; point(VKP_SEM); if (fault(VKF_SEMOPEN, EMFILE, EACCES)) return SEM_FAILED;
    NSem *s = findSem(name);
    if (s) { if ((flags & O_CREAT) && (flags & O_EXCL)) { ERR(EEXIST); return SEM_FAILED; } }
    else { if (!(flags & O_CREAT)) { ERR(ENOENT); return SEM_FAILED; } for (auto &x : sems) if (!x.used) { s = &x; break; } s->used = s->linked = true; strncpy(s->name, name, 63); s->value = (int)v; s->opens = 0; }
    SemH *h = mk<SemH>(); h->s = s; h->own = proc(); ++s->opens; return (sem_t *)h;
}
static SemH *semh(sem_t *p) { SemH *h = (SemH *)p; if (h->closed) vk_fail("use of a closed semaphore"); return h; }
int vkm_sem_close(sem_t *p) { M m; SemH *h = (SemH *)p; if (h->closed) { if (vkw.strict_misuse) vk_fail("semaphore closed twice"); return ERR(EINVAL); } h->closed = 1; --h->s->opens; return 0; }
int vkm_sem_unlink(const char *name) { M m; point(VKP_SEM); if (fault(VKF_SEMOPEN, EACCES)) return -1; NSem *s = findSem(name); if (!s) return ERR(ENOENT); s->linked = false; return 0; }
static bool semPos(void *a) { return ((NSem *)a)->value > 0; }
int vkm_sem_wait(sem_t *p) { M m; NSem *s = semh(p)->s; point(VKP_SEM); if (eintr()) return -1; if (fault(VKF_SEM, EINVAL)) return -1; while (s->value <= 0) block(semPos, s); --s->value; vk_hb_acquire((uint64_t)s); return 0; }
int vkm_sem_trywait(sem_t *p) { M m; NSem *s = semh(p)->s; point(VKP_SEM); if (eintr()) return -1; if (fault(VKF_SEM, EINVAL)) return -1; if (s->value <= 0) return ERR(EAGAIN); --s->value; vk_hb_acquire((uint64_t)s); return 0; }
int vkm_sem_timedwait(sem_t *p, const struct timespec *ts) { M m; NSem *s = semh(p)->s; while (s->value <= 0) { block(semPos, s, abs2dl(ts)); if (s->value <= 0 && th[self()].timedOut) return ERR(ETIMEDOUT); } --s->value; vk_hb_acquire((uint64_t)s); return 0; }
int vkm_sem_clockwait(sem_t *p, clockid_t, const struct timespec *ts) { return vkm_sem_timedwait(p, ts); }
int vkm_sem_post(sem_t *p) { M m; NSem *s = semh(p)->s; point(VKP_SEM); if (fault(VKF_SEM, EOVERFLOW)) return -1; ++s->value; vk_hb_release((uint64_t)s); return 0; }
int vkm_sem_getvalue(sem_t *p, int *v) { M m; *v = semh(p)->s->value; return 0; }

// ------------------------------------------------------------------ dynamic libraries
struct Dl { const VkLib *lib; int refs; bool pinned; };
static Dl dls[4]; static char dlMsg[64]; static bool dlHas;
static void dlFail(const char *what, const char *name) { size_t k = 0; for (; *what; ++what) dlMsg[k++] = *what; for (; *name && k < 60; ++name) dlMsg[k++] = *name; dlMsg[k] = 0; dlHas = true; }
void *vkm_dlopen(const char *file, int mode) {
    M m; point(VKP_IO); vkw.dl_mode = mode; dlHas = false;
    if (!(mode & (RTLD_LAZY | RTLD_NOW))) { dlFail("invalid mode: ", file ? file : ""); return nullptr; }
    if (fault(VKF_DL, ENOENT)) { dlFail("cannot load: ", file ? file : ""); return nullptr; }
    for (int i = 0; i < vkw.nlibs; ++i) if (file && !strcmp(vkw.libs[i].file, file)) { dls[i].lib = &vkw.libs[i]; ++dls[i].refs; if (mode & RTLD_NODELETE) dls[i].pinned = true; return &dls[i]; }
    dlFail("no such file: ", file ? file : ""); return nullptr;
}
void *vkm_dlsym(void *h, const char *name) {
    M m; dlHas = false;
    if (fault(VKF_DL, ENOENT)) { dlFail("undefined symbol: ", name); return nullptr; }
    for (int i = 0; i < vkw.nlibs; ++i) {
        if (h ? h != &dls[i] : !dls[i].refs) continue;
        if (!dls[i].refs) vk_fail("use of a library after it was released");
        for (const VkSym *y = dls[i].lib->syms; y->name; ++y) if (!strcmp(y->name, name)) return y->addr;
        if (h) break;
    }
    dlFail("undefined symbol: ", name); return nullptr;
}
int vkm_dlclose(void *h) { M m; dlHas = false; for (int i = 0; i < 4; ++i) if (h == &dls[i] && dls[i].refs > 0) { if (!dls[i].pinned) --dls[i].refs; return 0; } vk_fail("release of a library that is not loaded"); }
char *vkm_dlerror() { M m; if (!dlHas) return nullptr; dlHas = false; return dlMsg; }
int vkw_lib_refs(int i) { M m; return dls[i].refs; }

// ------------------------------------------------------------------ signals and processes
int vkm_sigemptyset(sigset_t *s) { M m; memset(s, 0, sizeof *s); return 0; }
static const uint64_t SIG_INTERNAL = 3ULL << 31;   // signals 32 and 33 belong to the C library
static bool sigBad(int g) { return g < 1 || g > 64 || g == 32 || g == 33; }
int vkm_sigfillset(sigset_t *s) { M m; memset(s, 255, sizeof *s); *(uint64_t *)s &= ~SIG_INTERNAL; return 0; }
static uint64_t &sw(sigset_t *s) { return *(uint64_t *)s; }
int vkm_sigaddset(sigset_t *s, int g) { M m; if (sigBad(g)) return ERR(EINVAL); sw(s) |= 1ULL << (g - 1); return 0; }
int vkm_sigdelset(sigset_t *s, int g) { M m; if (sigBad(g)) return ERR(EINVAL); sw(s) &= ~(1ULL << (g - 1)); return 0; }
int vkm_sigismember(const sigset_t *s, int g) { M m; if (g < 1 || g > 64) return ERR(EINVAL); return (*(const uint64_t *)s >> (g - 1)) & 1; }
int vkm_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
    { M m; MThread &t = th[self()]; if (int e = faultc(VKF_SIG, EINVAL)) return e;
    if (old) { memset(old, 0, sizeof *old); sw(old) = t.mask; }
    if (set) { uint64_t v = *(const uint64_t *)set & ~SIG_INTERNAL; if (how == SIG_BLOCK) t.mask |= v; else if (how == SIG_UNBLOCK) t.mask &= ~v; else if (how == SIG_SETMASK) t.mask = v; else return EINVAL; t.mask &= ~((1ULL << (SIGKILL - 1)) | (1ULL << (SIGSTOP - 1))); } }
    deliver_signals(); return 0;
}
int vkm_sigprocmask(int how, const sigset_t *set, sigset_t *old) { int r = vkm_pthread_sigmask(how, set, old); if (r) { M m; return ERR(r); } return 0; }
int vkm_sigaction(int g, const struct sigaction *a, struct sigaction *o) { M m; if (sigBad(g) || ((g == SIGKILL || g == SIGSTOP) && a)) return ERR(EINVAL); if (fault(VKF_SIG, EINVAL)) return -1; g = (int)vk_conc((uint64_t)g); if (o) *o = sigact[g]; if (a) sigact[g] = *a; return 0; }
typedef void (*sigh)(int);
sigh vkm_signal(int g, sigh h) { M m; if (g < 1 || g > 64) { ERR(EINVAL); return SIG_ERR; } sigh o = sigact[g].sa_handler; memset(&sigact[g], 0, sizeof sigact[g]); sigact[g].sa_handler = h; return o; }
static int takeSig(uint64_t &word, uint64_t allow) { uint64_t p = word & allow; if (!p) return 0; for (int g = 1; g <= 64; ++g) if (p >> (g - 1) & 1) { word &= ~(1ULL << (g - 1)); return g; } return 0; }
static int nextSig(uint64_t allow) { MThread &t = th[self()]; int g = takeSig(t.pend, allow); if (!g) g = takeSig(procPend[proc()], allow); return g; }
}
static bool defaultIgnored(int g) { return g == SIGCHLD || g == SIGURG || g == SIGWINCH || g == SIGCONT; }
static void callHandler(int g, sigh h) {   // the mask while a handler runs, and the one-shot flag
    uint64_t old; { M m; struct sigaction &a = sigact[g]; MThread &t = th[self()]; old = t.mask; t.mask |= sw(&a.sa_mask); if (!(a.sa_flags & SA_NODEFER)) t.mask |= 1ULL << (g - 1); if (a.sa_flags & (int)SA_RESETHAND) a.sa_handler = SIG_DFL; }
    h(g);
    { M m; th[self()].mask = old; }
}
static void runHandler(int g) {
    sigh h = sigact[g].sa_handler;
    if (h == SIG_IGN) return;
    if (h == SIG_DFL) { if (defaultIgnored(g)) return; vk_note("killed by signal", (uint64_t)g); vk_fail("process killed by an unhandled signal"); }
    callHandler(g, h);
}
static void deliver_signals() { for (;;) { int g; { M m; g = nextSig(~th[self()].mask); } if (!g) return; runHandler(g); } }
extern "C" {
int vkm_raise(int g) { { M m; if (g < 1 || g > 64) return ERR(EINVAL); g = (int)vk_conc((uint64_t)g); if (fault(VKF_SIG, EAGAIN)) return -1; th[self()].pend |= 1ULL << (g - 1); } deliver_signals(); return 0; }
int vkm_pthread_kill(pthread_t p, int g) { { M m; int t = tid_of(p); if (t < 0 || th[t].state == T_DONE) return ESRCH; if (g == 0) return 0; if (g < 0 || g > 64) return EINVAL; g = (int)vk_conc((uint64_t)g); th[t].pend |= 1ULL << (g - 1); if (t != self()) return 0; } deliver_signals(); return 0; }
pid_t vkm_getpid() { return 4000 + proc(); }
pid_t vkm_getppid() { return 3999 + proc(); }
static void procExit(int status);
int vkm_kill(pid_t pid, int g) {
    { M m; ++vkw.nkills; vkw.last_kill_sig = g; vkw.last_kill_pid = pid;
    if (vkw.on_kill) { int e = vkw.on_kill(pid, g); if (e) return ERR(e); return 0; }
    if (g < 0 || g > 64) return ERR(EINVAL);
    int p = pid - 4000; if (p < 0 || p >= nproc || procReaped[p]) return ERR(ESRCH);
    if (g == 0 || procDead[p]) return 0;
    g = (int)vk_conc((uint64_t)g);
    if (p != proc()) {
        if (g == SIGCONT) { if (procStopped[p]) { procStopped[p] = 0; point(VKP_IO, true); } return 0; }
        if (g == SIGSTOP || ((g == SIGTSTP || g == SIGTTIN || g == SIGTTOU) && sigact[g].sa_handler == SIG_DFL)) { procStopped[p] = g; stopTold[p] = false; return 0; }
        if (g != SIGKILL && sigact[g].sa_handler == SIG_DFL && defaultIgnored(g)) return 0;
        if (g == SIGKILL || sigact[g].sa_handler == SIG_DFL) { procStopped[p] = 0; procDead[p] = true; procStatus[p] = g; for (int i = 0; i < MAXFD; ++i) if (fdt[p][i]) { unref(fdt[p][i]); fdt[p][i] = nullptr; } for (int t = 0; t < nth; ++t) if (th[t].proc == p) th[t].state = T_DONE; }
        return 0;
    }
    procPend[p] |= 1ULL << (g - 1); }
    deliver_signals(); return 0;
}
int vkm_sigpending(sigset_t *s) { M m; if (fault(VKF_SIG, EFAULT)) return -1; memset(s, 0, sizeof *s); sw(s) = (th[self()].pend | procPend[proc()]) & th[self()].mask; return 0; }
static bool sigIn(void *a) { return ((th[who()].pend | procPend[th[who()].proc]) & *(uint64_t *)a) != 0; }
struct SigW { int t; uint64_t set; };
static bool sigW(void *a) { SigW *w = (SigW *)a; return ((th[w->t].pend | procPend[th[w->t].proc]) & w->set) != 0; }
int vkm_sigwait(const sigset_t *s, int *g) { M m; if (int e = faultc(VKF_SIG, EINVAL)) return e; SigW w = {self(), *(const uint64_t *)s}; for (;;) { int k = nextSig(w.set); if (k) { *g = k; return 0; } block(sigW, &w); } }
int vkm_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *ts) { M m; if (fault(VKF_SIG, EINVAL)) return -1; SigW w = {self(), *(const uint64_t *)s}; int k = nextSig(w.set); if (!k && ts && !ts->tv_sec && !ts->tv_nsec) return ERR(EAGAIN); if (!k) { block(sigW, &w, ts ? vkw.now + ts->tv_sec * 1000000000LL + ts->tv_nsec : -1); k = nextSig(w.set); if (!k) return ERR(EAGAIN); } if (i) { memset(i, 0, sizeof *i); i->si_signo = k; } return k; }
int vkm_sigwaitinfo(const sigset_t *s, siginfo_t *i) { return vkm_sigtimedwait(s, i, nullptr); }
int vkm_sigsuspend(const sigset_t *s) {
    uint64_t old; { M m; MThread &t = th[self()]; old = t.mask; t.mask = *(const uint64_t *)s & ~((1ULL << (SIGKILL - 1)) | (1ULL << (SIGSTOP - 1))); }
    for (;;) {
        int g; { M m; SigW w = {self(), ~th[self()].mask}; g = nextSig(w.set); if (!g) { block(sigW, &w); continue; } }
        sigh h = sigact[g].sa_handler; if (h == SIG_IGN || (h == SIG_DFL && defaultIgnored(g))) continue;
        runHandler(g); break;
    }
    { M m; th[self()].mask = old; }
    deliver_signals(); M m; return ERR(EINTR);
}
static void *childEntry(void *f) { ((void (*)())f)(); procExit(0); return nullptr; }
pid_t vkm_fork() {
    M m; if (fault(VKF_FORK, EAGAIN)) return -1;
    initCon(); int p = proc(), q = nproc++; for (int i = 0; i < MAXFD; ++i) { fdt[q][i] = fdt[p][i]; cloexec[q][i] = cloexec[p][i]; if (fdt[q][i]) ++fdt[q][i]->refs; }
    if (vkw.fork_child == 1 || (vkw.fork_child == 2 && vk_choose(2, "child's side"))) { if (vkw.fork_child == 2) vkw.fork_child = 0; th[self()].proc = q; return 0; }
    if (vkw.child_main) { int t = spawn(childEntry, (void *)vkw.child_main); th[t].proc = q; point(VKP_THREAD); }
    return 4000 + q;
}
static void procExit(int status) {
    int p = proc(); procDead[p] = true; procStatus[p] = (status & 255) << 8;
    for (int i = 0; i < MAXFD; ++i) if (fdt[p][i]) { OFile *f = fdt[p][i]; fdt[p][i] = nullptr; unref(f); }
    th[self()].depth = 1; threadExit(nullptr);
}
void vkm__exit(int st) {
    if (vkw.on_exit) { vkw.on_exit(st); vk_exit(); }
    { M m; if (proc() != 0) { procExit(st); } }
    vk_fail("process terminated by _exit");
}
void vkm_exit(int st) { if (vkw.fork_child && vkw.strict_misuse) vk_fail("exit() in a forked child runs the parent's exit handlers"); vkm__exit(st); }
extern char **vkm_environ_ptr();
static char **&environ_ref() { return environ; }
int vkm_execvpe(const char *f, char *const argv[], char *const envp[]) {
    { M m; if (vkw.exec_fail > 0 && vk_choose(2, "exec_fail")) { --vkw.exec_fail; static const int es[] = {ENOENT, EACCES, E2BIG, ENOEXEC, ENOMEM, EIO}; return ERR(es[vk_choose(6, "exec error")]); } }
    if (vkw.on_exec) { vkw.on_exec(f, (char **)argv, (char **)envp); vk_exit(); }
    vk_fail("model: exec without a handler");
}
int vkm_execvp(const char *f, char *const argv[]) { return vkm_execvpe(f, argv, vkm_environ_ptr()); }
int vkm_execlp(const char *f, const char *a0, ...) { char *v[32]; int n = 0; v[n++] = (char *)a0; va_list ap; va_start(ap, a0); while (v[n - 1] && n < 31) v[n++] = va_arg(ap, char *); va_end(ap); v[n] = nullptr; return vkm_execvp(f, v); }
int vkm_execl(const char *f, const char *a0, ...) { char *v[32]; int n = 0; v[n++] = (char *)a0; va_list ap; va_start(ap, a0); while (v[n - 1] && n < 31) v[n++] = va_arg(ap, char *); va_end(ap); v[n] = nullptr; return vkm_execvp(f, v); }
int vkm_execve(const char *f, char *const argv[], char *const envp[]) { return vkm_execvpe(f, argv, envp); }
int vkm_execv(const char *f, char *const argv[]) { return vkm_execvp(f, argv); }
int vkm_setenv(const char *n, const char *v, int over) {
    M m; if (!n || !*n) return ERR(EINVAL); size_t l = strlen(n), k = strlen(v); char **&en = environ_ref();
    char *e = (char *)vk_malloc(l + k + 2); memcpy(e, n, l); e[l] = '='; memcpy(e + l + 1, v, k + 1);
    int c = 0; for (; en && en[c]; ++c) if (!strncmp(en[c], n, l) && en[c][l] == '=') { if (over) en[c] = e; return 0; }
    char **z = (char **)vk_malloc((c + 2) * sizeof *z); for (int i = 0; i < c; ++i) z[i] = en[i]; z[c] = e; z[c + 1] = nullptr; en = z; return 0;
}
int vkm_unsetenv(const char *n) { M m; size_t l = strlen(n); char **e = environ_ref(); if (!e) return 0; char **o = e; for (; *e; ++e) if (strncmp(*e, n, l) || (*e)[l] != '=') *o++ = *e; *o = nullptr; return 0; }
int vkm_clearenv() { M m; environ_ref() = nullptr; return 0; }
int vkm_putenv(char *kv) { M m; char **&en = environ_ref(); size_t l = 0; while (kv[l] && kv[l] != '=') ++l; int c = 0; for (; en && en[c]; ++c) if (!strncmp(en[c], kv, l) && en[c][l] == '=') { en[c] = kv; return 0; } char **z = (char **)vk_malloc((c + 2) * sizeof *z); for (int i = 0; i < c; ++i) z[i] = en[i]; z[c] = kv; z[c + 1] = nullptr; en = z; return 0; }
static bool childDead(void *a) { return procDead[(long)a]; }
static bool childStopped(int p) { return procStopped[p] && !stopTold[p]; }
static bool childChanged(void *a) { return procDead[(long)a] || childStopped((int)(long)a); }
pid_t vkm_waitpid(pid_t pid, int *st, int opt) {
    M m; point(VKP_IO); int p = pid == -1 ? 1 : pid - 4000; if (p < 1 || p >= nproc || procReaped[p]) return ERR(ECHILD);
    if (fault(VKF_WAITPID, ECHILD)) return -1;
    bool tell = opt & WUNTRACED;
    if (!procDead[p] && !(tell && childStopped(p))) { if (opt & WNOHANG) return 0; if (eintr()) return -1; block(tell ? childChanged : childDead, (void *)(long)p); }
    if (!procDead[p]) { stopTold[p] = true; if (st) *st = 0x7f | procStopped[p] << 8; return 4000 + p; }
    procReaped[p] = true; ++vkw.reaped; if (st) *st = procStatus[p]; return 4000 + p;
}
pid_t vkm_wait(int *st) { return vkm_waitpid(-1, st, 0); }
pid_t vkm_wait4(pid_t p, int *st, int opt, struct rusage *) { return vkm_waitpid(p, st, opt); }
int vkm_waitid(idtype_t t, id_t id, siginfo_t *i, int opt) {
    M m; if (t != P_PID && t != P_ALL) return ERR(EINVAL); int p = t == P_ALL ? 1 : (int)id - 4000; if (p < 1 || p >= nproc || procReaped[p]) return ERR(ECHILD);
    bool keep = opt & WNOWAIT; int st = 0; if (i) memset(i, 0, sizeof *i);
    if (keep) { point(VKP_IO); if (fault(VKF_WAITPID, ECHILD)) return -1; if (!procDead[p]) { if (opt & WNOHANG) return 0; if (eintr()) return -1; block(childDead, (void *)(long)p); } st = procStatus[p]; }
    else { int r = vkm_waitpid(4000 + p, &st, (opt & WNOHANG ? WNOHANG : 0) | (opt & WSTOPPED ? WUNTRACED : 0)); if (r <= 0) return r; }
    if (i) { i->si_pid = 4000 + p; i->si_signo = SIGCHLD; if ((st & 0xff) == 0x7f) { i->si_code = CLD_STOPPED; i->si_status = st >> 8; } else if (st & 0x7f) { i->si_code = CLD_KILLED; i->si_status = st & 0x7f; } else { i->si_code = CLD_EXITED; i->si_status = st >> 8 & 255; } }
    return 0;
}
pid_t vkm_gettid() { return 5000 + 1000 * proc() + vk_thread_self(); }
long vkm_syscall(long n, ...) { if (n == SYS_gettid) return vkm_gettid(); M m; return ERR(ENOSYS); }
uid_t vkm_getuid() { return 1000; }
int vkm_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    M m; size_t at = 0; auto out = [&](char c) { if (at + 1 < n) b[at] = c; ++at; };
    auto num = [&](unsigned long v, int base, int pad) { char t[24]; int k = 0; do { t[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v); while (k < pad) t[k++] = '0'; while (k) out(t[--k]); };
    for (; *f; ++f) {
        if (*f != '%') { out(*f); continue; }
        ++f; int prec = 6, l = 0; while ((*f >= '0' && *f <= '9') || *f == '-' || *f == '+' || *f == ' ' || *f == '#') ++f;
        if (*f == '.') { ++f; if (*f == '*') { prec = va_arg(ap, int); ++f; } else for (prec = 0; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + (*f - '0'); }
        for (; *f == 'l' || *f == 'z' || *f == 'h' || *f == 'L'; ++f) if (*f != 'h') ++l;
        if (*f == 'd' || *f == 'i') { long v = l ? va_arg(ap, long) : va_arg(ap, int); if (v < 0) out('-'); num(v < 0 ? 0UL - (unsigned long)v : (unsigned long)v, 10, 0); }
        else if (*f == 'u' || *f == 'x') { unsigned long v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); num(v, *f == 'x' ? 16 : 10, 0); }
        else if (*f == 'f' || *f == 'g' || *f == 'e') { double v = va_arg(ap, double); if (v < 0) { out('-'); v = -v; } double s = 1; for (int i = 0; i < prec; ++i) s *= 10; unsigned long ip = (unsigned long)v, fr = (unsigned long)((v - (double)ip) * s + 0.5); if ((double)fr >= s) { ++ip; fr = 0; } num(ip, 10, 0); if (prec) { out('.'); num(fr, 10, prec); } }
        else if (*f == 's') { const char *s = va_arg(ap, const char *); while (*s) out(*s++); }
        else if (*f == 'c') out((char)va_arg(ap, int)); else if (*f == '%') out('%');
    }
    if (n) b[at < n ? at : n - 1] = 0; return (int)at;
}
int vkm_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vkm_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vkm___vsnprintf_chk(char *b, size_t n, int, size_t, const char *f, va_list ap) { return vkm_vsnprintf(b, n, f, ap); }

// ------------------------------------------------------------------ inspection
int vkw_open_fds() { M m; initCon(); int c = 0; for (int i = 0; i < MAXFD; ++i) if (fdt[proc()][i]) ++c; return c; }
int vkw_fd_open(int fd) { M m; return getf(fd) != nullptr; }
int vkw_fd_flags(int fd) { M m; OFile *f = getf(fd); return f ? f->flags : -1; }
int vkw_total_files() { return nfiles; }
int vkw_interest(int epfd, int fd) { M m; OFile *f = getf(epfd), *t = getf(fd); if (!f || f->type != F_EPOLL) return -2; for (int i = 0; i < f->ep->n; ++i) if (f->ep->e[i].fd == fd && (!t || f->ep->e[i].f == t)) return (int)f->ep->e[i].ev; return -1; }
int vkw_interest_count(int epfd) { M m; OFile *f = getf(epfd); if (!f || f->type != F_EPOLL) return -2; return f->ep->n; }
int vkw_fd_id(int fd) { M m; OFile *f = getf(fd); return f ? f->id : 0; }
int vkw_console(int fd, char *out, int cap) { M m; initCon(); int n = con[fd]->len < cap ? con[fd]->len : cap; memcpy(out, con[fd]->d, n); return con[fd]->len; }
int vkw_threads_alive() { M m; int n = 0; for (int t = 1; t < nth; ++t) if (th[t].state != T_DONE && !th[t].boot) ++n; return n; }
int vkw_thread_done(unsigned long p) { M m; int t = tid_of(p); return t >= 0 && th[t].state == T_DONE; }
int vkw_thread_blocked(int t) { M m; return th[t].state == T_BLOCKED && !isReady(t); }
void vkw_yield() { M m; pick(true); }
static bool othersIdle(void *a) { int me = (int)(long)a; for (int t = 0; t < nth; ++t) if (t != me && eligible(t) && (th[t].state == T_RUN || (th[t].state == T_BLOCKED && th[t].ready != othersIdle && isReady(t)))) return false; return true; }
void vkw_pause() { M m; block(othersIdle, (void *)(long)self()); }
void vkw_block_until(bool (*p)(void *), void *a) { M m; block(p, a); }
int vkw_pipe_len(int fd) { M m; OFile *f = getf(fd); if (!f) return -1; if (f->type == F_PIPER || f->type == F_PIPEW) return f->p->len; if (f->type == F_TCP && f->s->rx) return f->s->rx->len; if (f->type == F_UDP) return f->s->ndg; return -1; }
int vkw_pipe_id(int fd) { M m; OFile *f = getf(fd); return f && (f->type == F_PIPER || f->type == F_PIPEW) ? f->p->id : -1; }
int vkw_cloexec(int fd) { M m; return getf(fd) ? cloexec[proc()][fd] : -1; }
int vkw_proc() { M m; return proc(); }
int vkw_pipe_room(int fd) { M m; OFile *f = getf(fd); if (!f) return -1; if (f->type == F_PIPEW) return f->p->cap - f->p->len; if (f->type == F_TCP && f->s->tx) return f->s->tx->cap - f->s->tx->len; return -1; }
int vkw_mutex_owner(void *m) { M g; return ((Mx *)m)->owner; }
int vkw_rw_readers(void *r) { M g; return ((Rw *)r)->readers; }
int vkw_rw_writer(void *r) { M g; return ((Rw *)r)->writer; }
int vkw_spin_owner(void *s) { M g; return *(volatile int *)s; }
int vkw_sem_value(const char *n) { M m; NSem *s = findSem(n); return s ? s->value : -1; }
int vkw_shm_exists(const char *n) { M m; return findShm(n) != nullptr; }
int vkw_shm_size(const char *n) { M m; Shm *s = findShm(n); return s ? s->size : -1; }
char *vkw_shm_data(const char *n) { M m; Shm *s = findShm(n); return s ? s->mem : nullptr; }
int vkw_maps() { M m; int c = 0; for (auto &x : maps) if (x.used) ++c; return c; }
int vkw_sems_open() { M m; int c = 0; for (auto &x : sems) if (x.used) c += x.opens; return c; }
uint64_t vkw_sigmask() { M m; return th[self()].mask; }
int vkw_self_tid() { return self(); }
void vkw_child_exit(int st) { M m; procExit(st); }
int vkw_child_reaped() { return vkw.reaped; }
void vkw_new_proc() { M m; initCon(); int p = proc(), q = nproc++; for (int i = 0; i < 3; ++i) { fdt[q][i] = fdt[p][i]; if (fdt[q][i]) ++fdt[q][i]->refs; } th[self()].proc = q; }
void vkw_fail_conn(int fd, int err) { M m; OFile *f = getf(fd); if (f && f->type == F_TCP && f->s->other) { f->s->other->reset = true; f->s->other->rstErr = err; } }
void vkw_reset_conn(int fd) { M m; OFile *f = getf(fd); if (f && f->type == F_TCP && f->s->other) { f->s->other->reset = true; f->s->other->rstErr = ECONNRESET; } }
int vkw_cond_waiters(void *c) { M m; int n = 0; for (int t = 0; t < nth; ++t) if (th[t].cond == c && th[t].state == T_BLOCKED && !th[t].woken) ++n; return n; }
void vkw_set_pending(int g) { M m; procPend[proc()] |= 1ULL << (g - 1); }

// ------------------------------------------------------------------ start-up
static void drain() {   // run threads started by static constructors until they block
    for (;;) { int me = self(); int t = -1; for (int i = 0; i < nth; ++i) if (i != me && isReady(i)) { t = i; break; } if (t < 0) return; th[me].state = T_RUN; th[t].state = T_RUN; th[t].ready = nullptr; vk_thread_switch(t); }
}
void vkm_boot(int on) { if (on) { booting = 1; th[0].state = T_RUN; th[0].deadline = -1; th[0].depth = 0; } else { M m; th[0].state = T_RUN; drain(); booting = 0; } }
}
