#include "net.h"
#include "cppev/thread_pool.h"
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_LOCK | VKP_COND | VKP_THREAD; }
// ---- task queue: what every task saw
static const int MAXTASK = 5;
struct Slot { int payload, seen; Cnt runs; };
static Slot slot[MAXTASK]; static Cnt started, finished; static int order[MAXTASK]; static thread_pool_task_queue *gq;
static int total, nested;
static void work(int i);
static thread_pool_task_handler task(int i) { slot[i].payload = 40 + i; return [i]() { work(i); }; }
static void work(int i) {
    int k = started++; if (k < MAXTASK) order[k] = i;
    ++slot[i].runs; slot[i].seen = slot[i].payload;
    if (nested && i == 0) { gq->add_task(task(total - 1)); }
    ++finished;
}
// add tasks first..first+n-1 in one of the ways the interface offers
static void add(int first, int n, int how) {
    if (how == 0) for (int i = 0; i < n; ++i) { auto t = task(first + i); gq->add_task(t); }
    else if (how == 1) for (int i = 0; i < n; ++i) gq->add_task(task(first + i));
    else { std::vector<thread_pool_task_handler> v; for (int i = 0; i < n; ++i) v.push_back(task(first + i)); gq->add_task(v); }
}
static int p_first, p_n, p_how;
ENTRY tq_once() {
    setup(); int workers = range(1, param("workers", 2), "workers"); int n = param("tasks", 3); nested = param("nested", 1) && choose(2, "a task adds a task"); total = n;
    int own = n - nested;   // tasks added from outside
    int other = param("producer", 0) ? choose(own + 1, "added by another thread") : 0, early = param("early", 1) && choose(2, "add before starting"), how = choose(param("hows", 3), "how");
    vkw.spurious = param("spurious", 0);
    {
        thread_pool_task_queue q(workers); gq = &q; VK_ASSERT(q.size() == workers, "the pool has as many threads as asked for");
        vkw.preempt = param("preempt", 1);
        if (!early) q.run();
        Thr t; p_first = own - other; p_n = other; p_how = how;
        if (other) t.start([](void *) -> void * { add(p_first, p_n, p_how); return nullptr; }, nullptr);
        add(0, own - other, how);
        if (early) q.run();
        if (other) t.join();
        bool settle = param("settle", 1) && choose(2, "wait before stopping"); if (settle) vkw_pause();
        q.stop();
        VK_ASSERT(vkw_threads_alive() == 0, "stopping ends every thread");
        for (int i = 0; i < n; ++i) VK_ASSERT(slot[i].runs == 1, "every task added before stopping runs exactly once");
        for (int i = 0; i < n; ++i) VK_ASSERT(slot[i].seen == 40 + i, "a task sees what was written before it was added");
        if (workers == 1 && !other && !nested) for (int i = 0; i < n; ++i) VK_ASSERT(order[i] == i, "one worker runs the tasks in the order they were added");
        vk_reach(early ? "added before starting" : "added while running"); if (nested) vk_reach("nested"); if (other) vk_reach("two producers"); if (workers > 1) vk_reach("several workers");
    }
}
// many tasks
static int mseen[200]; static Cnt mran; static Cnt mruns[200];
ENTRY tq_many() {
    setup(); vkw.order = 1 + choose(3, "order"); int n = param("tasks", 90), workers = choose(2, "workers") ? 3 : 1, how = choose(4, "how"); bool early = how != 2 && choose(2, "add before starting");
    {
        thread_pool_task_queue q(workers); if (!early) { q.run(); vkw_pause(); }
        auto one = [](int i) { return thread_pool_task_handler([i]() { int k = mran++; mseen[k] = i; ++mruns[i]; }); };
        if (how == 0) for (int i = 0; i < n; ++i) q.add_task(one(i)); else if (how == 3) for (int i = 0; i < n; ++i) { const thread_pool_task_handler h = one(i); q.add_task(h); }
        else if (how == 1) { std::vector<thread_pool_task_handler> v; for (int i = 0; i < n; ++i) v.push_back(one(i)); q.add_task(v); }
        else for (int i = 0; i < n; i += 9) { std::vector<thread_pool_task_handler> v; for (int k = i; k < i + 9 && k < n; ++k) v.push_back(one(k)); q.add_task(v); vkw_pause(); VK_ASSERT(mran == std::min(n, i + 9), "an idle worker runs what is added"); }
        if (early) q.run(); if (choose(2, "wait before stopping")) { vkw_pause(); VK_ASSERT(mran == n, "an idle worker runs what is added"); }
        q.stop();
    }
    VK_ASSERT(mran == n && vkw_threads_alive() == 0, "every task added before stopping runs exactly once"); for (int i = 0; i < n; ++i) VK_ASSERT(mruns[i] == 1, "every task added before stopping runs exactly once");
    if (workers == 1) for (int i = 0; i < n; ++i) VK_ASSERT(mseen[i] == i, "one worker runs the tasks in the order they were added"); vk_reach("many");
}
// tasks run outside the queue's lock: one task may wait for another
static Cnt go; static Cnt ran, ran2; static bool isgo(void *) { return go != 0; }
ENTRY tq_parallel() {
    setup(); int n = range(2, param("workers", 2), "workers"); int how = choose(3, "how");
    thread_pool_task_queue q(n); gq = &q; q.run(); if (choose(2, "idle first")) { vkw_pause(); vk_reach("idle"); } vkw.preempt = param("preempt", 2);
    auto waiter = []() { vkw_block_until(isgo, nullptr); ++finished; };
    auto setter = []() { go = 1; ++finished; };
    if (how == 0) { for (int i = 0; i < n - 1; ++i) q.add_task(waiter); q.add_task(setter); }
    else if (how == 2) { const thread_pool_task_handler w = waiter, s = setter; for (int i = 0; i < n - 1; ++i) q.add_task(w); q.add_task(s); vk_reach("copied"); }
    else { std::vector<thread_pool_task_handler> v; for (int i = 0; i < n - 1; ++i) v.push_back(waiter); v.push_back(setter); q.add_task(v); }
    if (choose(2, "stop at once")) q.stop(); else { vkw_block_until([](void *a) { return finished == *(int *)a; }, &n); q.stop(); vk_reach("all ran before stopping"); }
    VK_ASSERT(finished == n, "as many tasks run at a time as there are workers"); vk_reach("done");
}
// what a task holds goes away with it, and may use the queue when it does
static Cnt gone_, after_; struct Held { bool adds; ~Held() { if (adds) gq->add_task([]() { ++after_; }); ++gone_; } };
ENTRY tq_held() {
    setup(); int n = range(1, param("workers", 2), "workers"), how = choose(3, "how"), more = choose(2, "another task"); bool adds = choose(2, "uses the queue"), early = choose(2, "add before starting"), settle;
    {
        thread_pool_task_queue q(n); gq = &q; if (!early) q.run(); vkw.preempt = param("preempt", 1);
        { auto h = std::make_shared<Held>(); h->adds = adds; auto t = [h]() { ++ran; }; h.reset(); const thread_pool_task_handler f = t; if (how == 0) q.add_task(f); else if (how == 1) q.add_task(thread_pool_task_handler(t)); else q.add_task(std::vector<thread_pool_task_handler>{f}); }
        if (more) q.add_task([]() { ++ran; }); if (early) q.run();
        settle = choose(2, "wait before stopping"); if (settle) { vkw_pause(); VK_ASSERT(ran == 1 + more, "an idle worker runs what is added"); VK_ASSERT(gone_ == 1, "what a task holds is released when it has run"); VK_ASSERT(after_ == adds, "an idle worker runs what is added"); }
        q.stop(); VK_ASSERT(vkw_threads_alive() == 0, "stopping ends every thread"); VK_ASSERT(ran == 1 + more, "every task added before stopping runs exactly once"); VK_ASSERT(gone_ == 1, "what a task holds is released when it has run");
    }
    vk_reach(adds ? "adds" : "only released");
}
// as many workers as tasks, in numbers: all of them run at the same time
ENTRY tq_crowd() {
    setup(); vkw.order = 1 + choose(3, "order"); static int n; n = param("workers", 33); int how = choose(4, "how"), early = choose(2, "before"); bool idle = !early && choose(2, "idle first");
    thread_pool_task_queue q(n); VK_ASSERT(q.size() == n, "the pool has as many threads as asked for"); if (!early) q.run(); if (idle) vkw_pause();
    auto t = []() { ++started; vkw_block_until([](void *) { return started >= n; }, nullptr); ++finished; };
    const thread_pool_task_handler h = t; if (how == 0) for (int i = 0; i < n; ++i) q.add_task(t); else if (how == 3) for (int i = 0; i < n; ++i) q.add_task(h); else if (how == 1) q.add_task(std::vector<thread_pool_task_handler>(n, t)); else for (int i = 0; i < n; i += 3) q.add_task(std::vector<thread_pool_task_handler>(3, t));
    if (early) q.run(); vkw_pause(); VK_ASSERT(started == n && finished == n, "as many tasks run at a time as there are workers"); q.stop(); VK_ASSERT(vkw_threads_alive() == 0, "stopping ends every thread"); vk_reach("crowd");
}
// two queues have nothing to do with each other
static Cnt duo_[2], odd_; static int gate_;
ENTRY tq_two() {
    setup(); vkw.preempt = 0; int n = range(1, 2, "tasks"), first = choose(2, "stopped first"), how = choose(3, "how"), w = range(1, 2, "workers"); bool early = choose(2, "add before starting"); static int done; done = 0;
    {
        std::unique_ptr<thread_pool_task_queue> q[2]; for (auto &x : q) x.reset(new thread_pool_task_queue(w)); if (!early) for (auto &x : q) x->run(); vkw.preempt = param("preempt", 1);
        for (int i = 0; i < 2; ++i) { auto t = [i]() { ++duo_[i]; }; const thread_pool_task_handler h = t; if (how == 0) for (int k = 0; k < n; ++k) q[i]->add_task(t); else if (how == 1) for (int k = 0; k < n; ++k) q[i]->add_task(h); else q[i]->add_task(std::vector<thread_pool_task_handler>(n, h)); }
        if (early) for (auto &x : q) x->run(); vkw.preempt = 0;
        q[first]->stop(); VK_ASSERT(duo_[first] == n, "every task added before stopping runs exactly once"); q[first].reset(); int o = 1 - first;
        vkw_pause(); VK_ASSERT(duo_[o] == n, "an idle worker runs what is added"); q[o]->add_task([o]() { ++duo_[o]; }); vkw_pause(); VK_ASSERT(duo_[o] == n + 1, "stopping one queue leaves another working"); VK_ASSERT(vkw_threads_alive() == w, "stopping ends every thread"); q[o]->stop();
    }
    VK_ASSERT(duo_[0] + duo_[1] == 2 * n + 1 && vkw_threads_alive() == 0, "every task added before stopping runs exactly once"); vk_reach("two");
}
// stopping an idle pool or one that was given nothing
ENTRY tq_idle() {
    setup(); int workers = range(1, param("workers", 3), "workers"); vkw.spurious = 1; vkw.preempt = param("preempt", 2);
    thread_pool_task_queue q(workers); q.run(); if (choose(2, "settle")) vkw_pause(); q.stop(); VK_ASSERT(vkw_threads_alive() == 0, "stopping ends every thread"); vk_reach("stopped");
}
// ---- runnable
struct Job : runnable {
    int *out; int in, ms; Cnt *ran;
    Job(int *o, int i, int ms, Cnt *r) : out(o), in(i), ms(ms), ran(r) { }
    void run_impl() override { if (ms) { timespec t = {0, ms * 1000000L}; nanosleep(&t, nullptr); } *out = in + 1; ++*ran; }
};
ENTRY run_join() {
    setup(); vkw.preempt_ops |= VKP_EXIT; int out = 0, in = (int)vk::u8("input"), ms = choose(2, "takes time") ? 5 : 0; vkw.preempt = param("preempt", 2);
    Job j(&out, in, ms, &ran); vkw.faults = choose(2, "fault"); vkw.fault_ops = VKF_PTCREATE;
    int r = throws_sys([&] { j.run(); }); if (r) { VK_ASSERT(r == 1 && g_code == EAGAIN, "failure to start a thread is reported"); VK_ASSERT(ran == 0, "nothing runs after a failed start"); vk_reach("failed start"); return; }
    vkw.faults = 0;
    int span = choose(3, "wait");   // 0 none, 1 shorter than the job, 2 longer
    int64_t t0 = vkw.now; int pre = param("preempt", 2);
    if (span) {
        bool fin = j.wait_for(std::chrono::milliseconds(span == 1 ? 2 : 9));
        if (fin) { VK_ASSERT(ran == 1 && out == in + 1, "a reported end means the job has finished"); vk_reach("finished in time"); if (ms && vkw.preempt == pre) VK_ASSERT(span == 2, "a job is not reported finished early"); }
        else { vk_reach("timeout"); VK_ASSERT(vkw.now - t0 >= 2000000, "a timeout is not reported before the span elapsed"); VK_ASSERT(span != 2 || vkw.preempt != pre, "a job that ends within the span is reported finished"); }
    }
    if (choose(2, "detach")) { j.detach(); vkw_pause(); vkw_block_until([](void *) { return ran == 1; }, nullptr); vk_reach("detached"); VK_ASSERT(throws_sys([&] { j.wait_for(std::chrono::milliseconds(9)); }) == 0, "waiting after detaching works"); }
    else { j.join(); VK_ASSERT(vkw_threads_alive() == 0, "joining waits for the end of the job"); VK_ASSERT(ran == 1 && out == in + 1, "joining waits for the end of the job"); VK_ASSERT(j.wait_for(std::chrono::milliseconds(0)), "a joined job is reported finished"); vk_reach("joined"); }
    VK_ASSERT(ran == 1, "the job runs once");
}
// threads whose start or end the system refuses
struct Slow : runnable { void run_impl() override { ++ran; timespec t = {0, 1000000}; nanosleep(&t, nullptr); ++ran2; } };
struct Long : runnable { void run_impl() override { ++ran; timespec t = {9, 0}; nanosleep(&t, nullptr); ++ran2; } };
static runnable *selfp; static int selfr, selfc;
struct Self : runnable { void run_impl() override { selfr = throws_sys([] { selfp->join(); }); selfc = g_code; ++ran; } };
ENTRY run_refused() {
    setup(); vkw.preempt_ops |= VKP_EXIT; vkw.no_timeout_preempt = 1; vkw.strict_misuse = 0; vkw.preempt = param("preempt", 1);
    switch (choose(4, "case")) {
    case 0: { Self j; selfp = &j; j.run(); vkw_block_until([](void *) { return ran == 1; }, nullptr); VK_ASSERT(selfr == 1 && selfc == EDEADLK, "a refused join is reported"); j.join(); VK_ASSERT(vkw_threads_alive() == 0, "joining waits for the end of the job"); vk_reach("joins itself"); break; }
    case 1: { Slow j; j.run(); j.detach(); VK_ASSERT(throws_sys([&] { j.join(); }) == 1 && g_code == EINVAL, "a refused join is reported"); vkw_block_until([](void *) { return ran2 == 1; }, nullptr); vk_reach("joined when detached"); break; }
    case 2: { Slow j; j.run(); j.detach(); VK_ASSERT(throws_sys([&] { j.detach(); }) == 1 && g_code == EINVAL, "a refused detaching is reported"); vkw_block_until([](void *) { return ran2 == 1; }, nullptr); vk_reach("detached twice"); break; }
    default: { Long j; j.run(); if (choose(2, "settle")) vkw_yield(); int b = ran2; VK_ASSERT(j.cancel(), "a thread can be cancelled"); j.join(); VK_ASSERT(ran2 == b && vkw_threads_alive() == 0, "a cancelled thread ends"); VK_ASSERT(j.wait_for(std::chrono::milliseconds(choose(2, "wait") * 3)), "a joined job is reported finished"); vk_reach("cancelled"); }
    }
}
// a pool of which one thread is gone already
ENTRY pool_refused() {
    setup(); vkw.no_timeout_preempt = 1; int n = range(2, param("threads", 3), "threads"); vkw.preempt = param("preempt", 0);
    thread_pool<Long> p(n); p.run(); int k = choose(n, "member");
    if (choose(2, "settle")) vkw_yield();
    int b = ran2; VK_ASSERT(p[k].cancel(), "a thread can be cancelled"); p[k].join();
    VK_ASSERT(throws_sys([&] { p.cancel(); }) == 0, "cancelling a pool does not fail for a thread that is gone");
    for (int i = 0; i < n; ++i) if (i != k) p[i].join();
    VK_ASSERT(ran2 == b && vkw_threads_alive() == 0, "cancelling reaches every thread that is left"); vk_reach("one was gone");
}
struct Taker : runnable { std::string a, b; std::string &r; int c; std::string d; Taker(std::string x, const std::string &y, std::string &z, int k, const char *s) : a(std::move(x)), b(y), r(z), c(k), d(s) { r += "!"; } void run_impl() override { ++ran; } };
struct Waiter : runnable { void run_impl() override { ++ran; for (;;) { timespec t = {1, 0}; nanosleep(&t, nullptr); } } };
struct Named : runnable { int id, want; static Cnt hits; Named(int w) : want(w) { } void run_impl() override { ++hits; timespec t = {0, 1000}; nanosleep(&t, nullptr); id = want; ++ran; } };
Cnt Named::hits;
ENTRY pool_many() {
    setup(); vkw.order = 1 + choose(3, "order"); int n = param("threads", 33), what = choose(3, "what");
    if (what == 0) { thread_pool<Named, int> p(n, 7); VK_ASSERT(p.size() == n, "the pool has as many threads as asked for"); p.run(); p.join(); VK_ASSERT(ran == n && Named::hits == n, "every thread of the pool runs exactly once"); for (int i = 0; i < n; ++i) VK_ASSERT(p[i].id == 7, "joining waits for every thread"); }
    else { thread_pool<Waiter> p(n); p.run(); vkw_yield(); if (what == 1) p.cancel(); else for (int i = 0; i < n; ++i) VK_ASSERT(p[i].cancel(), "a thread can be cancelled"); p.join(); VK_ASSERT(vkw_threads_alive() == 0, "cancelling ends every thread"); }
    vk_reach("many");
}
ENTRY pool_run() {
    setup(); int n = range(0, param("threads", 3), "threads"); int what = choose(3, "what"); vkw.preempt = param("preempt", 1);
    if (what == 2) {   // every thread is made from the same arguments
        std::string text = anystr(3, "byte") + std::string(20, 'x'), keep = text, other = "o"; bool fwd = choose(2, "moved"); int b = (int)vk::u8("number");
        thread_pool<Taker, std::string, const std::string &, std::string &, int, const char *> p(n, fwd ? std::move(text) : std::string(text), std::string("ref"), other, std::move(b), "lit");
        p.run(); p.join(); VK_ASSERT(ran == n && other == "o" + std::string((size_t)n, '!'), "every thread of the pool runs exactly once"); for (int i = 0; i < n; ++i) VK_ASSERT(p[i].a.size() == 23 && same(p[i].a, keep) && p[i].b == "ref" && p[i].c == b && p[i].d == "lit", "every thread of a pool gets the arguments given to the pool"); vk_reach("arguments");
    } else if (what == 0) {
        thread_pool<Named, int> p(n, 7); VK_ASSERT(p.size() == n, "the pool has as many threads as asked for");
        p.run();
        if (n > 0 && choose(2, "move")) { thread_pool<Named, int> q(std::move(p)); VK_ASSERT(q.size() == n, "a moved pool keeps its threads"); q.join(); VK_ASSERT(ran == n, "joining waits for every thread"); vk_reach("moved"); return; }
        p.join(); VK_ASSERT(ran == n && Named::hits == n, "every thread of the pool runs exactly once"); for (int i = 0; i < n; ++i) VK_ASSERT(p[i].id == 7, "joining waits for every thread"); vk_reach("joined");
    } else {
        thread_pool<Waiter> p(n); p.run(); if (choose(2, "settle")) vkw_yield(); p.cancel(); p.join(); VK_ASSERT(vkw_threads_alive() == 0, "cancelling ends every thread"); vk_reach("cancelled");
    }
}
