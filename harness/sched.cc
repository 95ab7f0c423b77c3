#include "net.h"
#include "cppev/scheduler.h"
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_LOCK | VKP_COND | VKP_THREAD | VKP_ATOMIC; }
typedef std::vector<std::tuple<double, priority, timed_task_handler>> Tasks;
static const double freqs[] = {1, 2, 3, 2.5, 0.5, 4};
static const int64_t periods[] = {1000000000, 500000000, 333333333, 400000000, 2000000000, 250000000};
static const priority prios[] = {p0, p1, p3, p6};
static const int64_t SEC = 1000000000;
struct MicroClock { using duration = std::chrono::microseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<MicroClock>; static constexpr bool is_steady = true; static time_point now() { return time_point(duration(vkw.now / 1000)); } };
struct TenthClock { using duration = std::chrono::duration<int64_t, std::deci>; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<TenthClock>; static constexpr bool is_steady = true; static time_point now() { return time_point(duration(vkw.now / 100000000)); } };
// ---- trigger times
static int cnt[24]; static int64_t per[24], start_, slow[24], lastStamp; static int pr[24], lastTask; static bool begun; static int64_t begunAt;
static void hit(int i, const std::chrono::nanoseconds &t) {
    int64_t s = t.count();
    if (!begun) { begun = true; start_ = s; begunAt = vkw.now; }
    VK_ASSERT(s == start_ + cnt[i] * per[i], "a task is triggered at consecutive multiples of its period, once each");
    VK_ASSERT(vkw.now >= s, "a task is not triggered before its time");
    VK_ASSERT(s >= lastStamp, "triggers are in order of time");
    if (s == lastStamp && lastTask >= 0) VK_ASSERT(pr[lastTask] >= pr[i], "tasks due at the same time run in order of priority");
    ++cnt[i]; lastStamp = s; lastTask = i; if (cnt[i] <= 2) vkw.now += slow[i];
}
ENTRY sch_times() {
    setup(); int n = range(1, param("tasks", 2), "tasks"), nf = param("freqs", 4); vkw.now = 5 * SEC + (int64_t)choose(3, "moment") * 500000001; vkw.late_max = choose(2, "late") ? 700000000 : 0;
    int64_t t0 = vkw.now; bool align = choose(2, "align"); Tasks v; lastTask = -1;
    for (int i = 0; i < n; ++i) { int f = choose(nf, "frequency"); per[i] = periods[f]; int q = choose(3, "priority"); pr[i] = (int)prios[q]; slow[i] = param("slow", 1) && i == 0 && choose(2, "slow") ? 600000000 : 0; v.emplace_back(freqs[f], prios[q], [i](const std::chrono::nanoseconds &t) { hit(i, t); }); }
    int64_t upto; bool isSlow = slow[0] != 0, late = vkw.late_max != 0;
    {
        timed_scheduler<> s(v, {}, {}, align);
        upto = vkw.now + 1700000000LL;
        timespec ts = {1, 700000000}; nanosleep(&ts, nullptr);
        vkw.late_max = 0;
        if (vkw.now < upto) upto = vkw.now;
    }
    int64_t end = vkw.now;
    VK_ASSERT(begun, "the tasks are triggered");
    if (align) { VK_ASSERT(start_ % SEC == 0 && start_ >= t0 && start_ - t0 <= SEC, "an aligned start is the next whole second"); vk_reach("aligned"); }
    else { VK_ASSERT(start_ >= t0 && start_ <= begunAt, "an unaligned start is the present"); vk_reach("unaligned"); }
    for (int i = 0; i < n; ++i) { int64_t due = start_ + cnt[i] * per[i]; VK_ASSERT(due >= upto, "every trigger before the destruction has happened"); VK_ASSERT(start_ + (cnt[i] - 1) * per[i] <= end, "no task is triggered before its time"); if (cnt[i] > 2) vk_reach("several triggers"); }
    if (n > 1 && per[0] != per[1]) vk_reach("different periods"); if (late) vk_reach("late"); if (isSlow) vk_reach("slow");
}
// far behind: wake-ups and tasks that take much longer than a period, and a long run
ENTRY sch_far() {
    setup(); vkw.now = 5 * SEC + 300000000; lastTask = -1; int what = choose(3, "what"), n = 1 + choose(2, "tasks"); int64_t len = what == 0 ? (int64_t)param("run", 30) * SEC : what == 1 ? 40 * SEC : 200 * SEC;
    if (what) slow[0] = what == 1 ? 7 * SEC : 70 * SEC; Tasks v; static const int f[2] = {0, 5}; bool align = choose(2, "align");
    for (int i = 0; i < n; ++i) { per[i] = periods[f[i]]; pr[i] = (int)prios[i]; v.emplace_back(freqs[f[i]], prios[i], [i](const std::chrono::nanoseconds &t) { hit(i, t); }); }
    int64_t t0 = vkw.now;
    { timed_scheduler<> s(v, {}, {}, align); timespec ts = {len / SEC, 0}; nanosleep(&ts, nullptr); }
    VK_ASSERT(begun, "the tasks are triggered"); for (int i = 0; i < n; ++i) { VK_ASSERT(start_ + cnt[i] * per[i] >= t0 + len, "every trigger before the destruction has happened"); VK_ASSERT(start_ + (cnt[i] - 1) * per[i] <= t0 + len, "no task is triggered before its time"); }
    vk_reach(what ? "far behind" : "long run");
}
// frequencies from one in hours to one in a nanosecond, alone and together
ENTRY sch_freq() {
    setup(); static const double f[] = {0.0001, 0.1, 0.3, 0.45, 7, 1000, 3000000, 5000000, 1000000000}; static const int64_t q[] = {10000000000000LL, 10000000000LL, 3333333333LL, 2222222222LL, 142857142, 1000000, 333, 200, 1};
    vkw.now = 5 * SEC + 300000000; lastTask = -1; bool align = choose(2, "align"); int n = 1 + choose(2, "tasks"); Tasks v; int a = choose(9, "frequency"), b = a < 4 ? choose(5, "other") : a; per[0] = q[a]; per[1] = q[b];
    for (int i = 0; i < n; ++i) { pr[i] = (int)prios[i]; v.emplace_back(f[i ? b : a], prios[i], [i](const std::chrono::nanoseconds &t) { hit(i, t); }); }
    int64_t len = 3 * std::max(per[0], n > 1 ? per[1] : 0), t0 = vkw.now; if (n > 1 && len / std::min(per[0], per[1]) > 400) len = 400 * std::min(per[0], per[1]); if (align) len += SEC - t0 % SEC;
    { timed_scheduler<> s(v, {}, {}, align); timespec ts = {len / SEC, len % SEC}; nanosleep(&ts, nullptr); }
    for (int i = 0; i < n; ++i) { VK_ASSERT(cnt[i] > 0, "the tasks are triggered"); VK_ASSERT(start_ + cnt[i] * per[i] >= t0 + len, "every trigger before the destruction has happened"); VK_ASSERT(start_ + (cnt[i] - 1) * per[i] <= t0 + len, "no task is triggered before its time"); }
    VK_ASSERT(!align || (start_ % SEC == 0 && start_ >= t0), "an aligned start is the next whole second"); vk_reach(n > 1 ? "different" : "single");
}
// many tasks, many of them due at the same time
ENTRY sch_many() {
    setup(); vkw.now = 5 * SEC + 300000000; lastTask = -1; int n = param("many", 13), k = choose(3, "pattern"); Tasks v; std::vector<init_task_handler> a; std::vector<exit_task_handler> b; static int ni, ne; ni = ne = 0; bool align = choose(2, "align");
    for (int i = 0; i < n; ++i) { int f = (i * 5 + k) % 6, q = k == 2 ? (i * 7) % 4 : (n - i + k) % 4; per[i] = periods[f]; pr[i] = (int)prios[q]; v.emplace_back(freqs[f], prios[q], [i](const std::chrono::nanoseconds &t) { hit(i, t); }); }
    for (int i = 0; i < n; ++i) { a.push_back([i]() { VK_ASSERT(ni == i && ne == 0 && !begun, "start tasks run once each, in order, before everything else"); ++ni; }); b.push_back([i, n]() { VK_ASSERT(ni == n && ne == i, "end tasks run once each, in order, after everything else"); ++ne; }); }
    int64_t t0 = vkw.now, len = 6 * SEC; { timed_scheduler<> s(v, a, b, align); timespec ts = {6, 0}; nanosleep(&ts, nullptr); }
    VK_ASSERT(ni == n, "start tasks run once each"); VK_ASSERT(ne == n, "end tasks run once each");
    for (int i = 0; i < n; ++i) { VK_ASSERT(start_ + cnt[i] * per[i] >= t0 + len, "every trigger before the destruction has happened"); VK_ASSERT(start_ + (cnt[i] - 1) * per[i] <= t0 + len, "no task is triggered before its time"); }
    vk_reach("many");
}
// ---- life cycle
static Cnt inits, exits, calls; static int ninit, nexit; static Cnt over;
ENTRY sch_life() {
    setup(); vkw.now = 5 * SEC + 300000000; ninit = choose(3, "start tasks"); nexit = choose(3, "end tasks"); int nt = choose(param("tasks", 2) + 1, "timed tasks"); bool align = choose(2, "align"); lastTask = -1;
    Tasks v; std::vector<init_task_handler> a; std::vector<exit_task_handler> b; int moment = choose(4, "destroyed");
    for (int i = 0; i < ninit; ++i) a.push_back([i]() { VK_ASSERT(inits == i && calls == 0 && exits == 0, "start tasks run once each, in order, before everything else"); ++inits; });
    for (int i = 0; i < nexit; ++i) b.push_back([i]() { VK_ASSERT(inits == ninit && exits == i, "end tasks run once each, in order, after everything else"); VK_ASSERT(!over, "no task runs after the destruction"); ++exits; });
    for (int i = 0; i < nt; ++i) { per[i] = SEC / (i + 1); pr[i] = (int)prios[2 - i]; v.emplace_back((double)(i + 1), prios[2 - i], [i](const std::chrono::nanoseconds &t) { VK_ASSERT(inits == ninit && exits == 0, "timed tasks run between start and end tasks"); VK_ASSERT(!over, "no task runs after the destruction"); ++calls; hit(i, t); }); }
    {
        vkw.preempt = param("preempt", 2);
        timed_scheduler<> s(v, a, b, align);
        if (moment == 1) vkw_yield(); if (moment == 2) { timespec t = {1, 0}; nanosleep(&t, nullptr); } if (moment == 3) { timespec t = {0, 700000000}; nanosleep(&t, nullptr); }
    }
    over = 1; VK_ASSERT(vkw_threads_alive() == 0, "destroying a scheduler ends its thread");
    VK_ASSERT(inits == ninit, "start tasks run once each"); VK_ASSERT(exits == nexit, "end tasks run once each");
    if (nt && calls) vk_reach("triggered"); if (nt && !calls) vk_reach("destroyed at once"); if (!nt) vk_reach("no timed tasks"); if (ninit == 2 && nexit == 2) vk_reach("start and end tasks");
    timespec t = {3, 0}; nanosleep(&t, nullptr);
}
// several schedulers at a time, made from lists that are gone before the first trigger
struct Plan { int n, calls[2], inits, exits; int64_t start, period[2]; bool begun; }; static Plan plans_[2];
__attribute__((noinline)) static timed_scheduler<> *make_(int k, bool align, int f0, int f1) {
    Plan *p = &plans_[k]; Tasks v; std::vector<init_task_handler> a; std::vector<exit_task_handler> b; p->n = 2; p->period[0] = periods[f0]; p->period[1] = periods[f1];
    for (int i = 0; i < 2; ++i) v.emplace_back(freqs[i ? f1 : f0], prios[i], [p, i](const std::chrono::nanoseconds &t) { if (!p->begun) { p->begun = true; p->start = t.count(); } VK_ASSERT(p->inits == 2 && p->exits == 0, "timed tasks run between start and end tasks"); VK_ASSERT(t.count() == p->start + p->calls[i] * p->period[i], "a task is triggered at consecutive multiples of its period, once each"); ++p->calls[i]; });
    for (int i = 0; i < 2; ++i) { a.push_back([p, i]() { VK_ASSERT(p->inits == i && !p->begun && !p->exits, "start tasks run once each, in order, before everything else"); ++p->inits; }); b.push_back([p, i]() { VK_ASSERT(p->inits == 2 && p->exits == i, "end tasks run once each, in order, after everything else"); ++p->exits; }); }
    return new timed_scheduler<>(v, a, b, align);
}
__attribute__((noinline)) static void scribble_() { volatile char b[2048]; for (int i = 0; i < 2048; ++i) b[i] = (char)0x5a; }
ENTRY sch_two() {
    setup(); vkw.now = 5 * SEC + 300000000; int64_t t0 = vkw.now; bool align = choose(2, "align"), first = choose(2, "ends first"); int f = choose(3, "frequency"); if (choose(2, "order")) vkw.order = 1 + choose(3, "which order");
    timed_scheduler<> *s[2]; s[0] = make_(0, align, f, 1); scribble_(); if (choose(2, "later")) { timespec t = {0, 400000000}; nanosleep(&t, nullptr); } s[1] = make_(1, !align, 5, f + 1); scribble_(); timespec t = {2, 0}; nanosleep(&t, nullptr);
    int64_t end[2]; end[first] = vkw.now; delete s[first]; VK_ASSERT(plans_[first].exits == 2 && plans_[!first].exits == 0, "end tasks run once each"); t = {1, 0}; nanosleep(&t, nullptr); end[!first] = vkw.now; delete s[!first];
    for (int k = 0; k < 2; ++k) { VK_ASSERT(plans_[k].inits == 2, "start tasks run once each"); VK_ASSERT(plans_[k].exits == 2, "end tasks run once each"); for (int i = 0; i < 2; ++i) { VK_ASSERT(plans_[k].begun && plans_[k].start >= t0 && plans_[k].start + plans_[k].calls[i] * plans_[k].period[i] >= end[k], "every trigger before the destruction has happened"); } } vk_reach("two");
}
__attribute__((noinline)) static timed_scheduler<> *make_single_(int f, bool align) { std::function<void(const std::chrono::nanoseconds &)> h = [](const std::chrono::nanoseconds &t) { hit(0, t); }; return new timed_scheduler<>(freqs[f], h, align); }
ENTRY sch_single() {   // the short form
    setup(); vkw.now = 5 * SEC + 300000000; lastTask = -1; int f = choose(6, "frequency"); per[0] = periods[f]; bool align = choose(2, "align"); int64_t t0 = vkw.now;
    { timed_scheduler<std::chrono::system_clock> s(freqs[f], [](const std::chrono::nanoseconds &t) { hit(0, t); }, align); timespec t = {2, 0}; nanosleep(&t, nullptr); }
    if (choose(2, "made elsewhere")) { begun = false; cnt[0] = 0; t0 = vkw.now; timed_scheduler<> *s = make_single_(f, align); scribble_(); timespec t = {2, 0}; nanosleep(&t, nullptr); delete s; }
    VK_ASSERT(begun && start_ + cnt[0] * per[0] >= t0 + 2 * SEC, "every trigger before the destruction has happened"); VK_ASSERT(!align || start_ % SEC == 0, "an aligned start is the next whole second"); vk_reach("done");
}
// ---- waiting for a moment, in clocks of different resolution, with signals and late wake-ups
ENTRY slp_until() {
    setup(); vkw.now = 7 * SEC + (int64_t)choose(3, "moment") * 123456789; vkw.eintr = param("eintr", 2); vkw.late_max = choose(2, "late") ? 300000 : 0; bool late = vkw.late_max; int e0 = vkw.eintr;
    static const int64_t ahead[] = {-7 * SEC, -SEC, -1, 0, 1, 999, 1000, 1001, 999999999, SEC, 3 * SEC + 1, 86400 * 365 * SEC}; int64_t t0 = vkw.now, t = t0 + ahead[choose(12, "ahead")]; int c = choose(5, "clock"); std::chrono::nanoseconds st(t);
    if (c == 0) cppev::sleep_until(st); if (c == 1) cppev::sleep_until<std::chrono::system_clock>(st); if (c == 2) cppev::sleep_until<std::chrono::steady_clock>(st); if (c == 3) cppev::sleep_until<MicroClock>(st); if (c == 4) cppev::sleep_until<TenthClock>(st);
    int64_t res = c == 3 ? 1000 : c == 4 ? 100000000 : 1; VK_ASSERT(vkw.now >= t, "nobody goes on before the moment"); int64_t up = (std::max(t, t0) + res - 1) / res * res + (res > 1 ? res : 0);   // a clock shows its time rounded down, so that a wait may take one step more
    if (t <= t0) { if (!late) VK_ASSERT(vkw.now <= up, "a moment that has passed is not waited for"); vk_reach("passed"); }
    else { VK_ASSERT(vkw.now <= up + (late ? 300000 : 0), "the wait ends when the moment has come"); vk_reach("came"); } if (vkw.eintr < e0) vk_reach("interrupted");
}
// schedulers driven by clocks of other kinds
template <typename C> static void clocked(const Tasks &v, bool align) { timed_scheduler<C> s(v, {}, {}, align); timespec t = {2, 500000000}; nanosleep(&t, nullptr); }
ENTRY sch_clocks() {
    setup(); vkw.now = 5 * SEC + (int64_t)choose(2, "moment") * 300000777; lastTask = -1; int n = range(1, 2, "tasks"), c = choose(3, "clock"); bool align = choose(2, "align"); Tasks v;
    for (int i = 0; i < n; ++i) { int f = choose(6, "frequency"); per[i] = periods[f]; pr[i] = (int)prios[i]; v.emplace_back(freqs[f], prios[i], [i](const std::chrono::nanoseconds &t) { hit(i, t); }); }
    int64_t t0 = vkw.now, len = 2500000000LL, res = c == 1 ? 1000 : c == 2 ? 100000000 : 1; if (c == 0) clocked<std::chrono::steady_clock>(v, align); if (c == 1) clocked<MicroClock>(v, align); if (c == 2) clocked<TenthClock>(v, align);
    VK_ASSERT(begun, "the tasks are triggered"); if (align) VK_ASSERT(start_ % SEC == 0 && start_ >= t0 / res * res, "an aligned start is the next whole second");
    for (int i = 0; i < n; ++i) { VK_ASSERT(start_ + cnt[i] * per[i] >= t0 + len - 2 * res, "every trigger before the destruction has happened"); VK_ASSERT(start_ + (cnt[i] - 1) * per[i] <= vkw.now, "no task is triggered before its time"); } vk_reach(c == 0 ? "steady" : c == 1 ? "microseconds" : "tenths");
}
