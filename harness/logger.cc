#include "net.h"
#include "cppev/async_logger.h"
using namespace cppev;
static void setup() { calm(); vkw.park_boot = 1; vkw.preempt_ops = VKP_LOCK | VKP_COND | VKP_THREAD | VKP_UNLOCK; vkw.sigpipe_kills = 1; vkw.pipe_cap = 250; }
// the output is a pipe read at the end (or as it comes, when it is small)
static int rd; static std::string out_;
static void redirect(int level) { int p[2]; ::pipe(p); ::dup2(p[1], level); ::close(p[1]); rd = p[0]; ::fcntl(rd, F_SETFL, O_NONBLOCK); }
static void collect() { char b[256]; for (int n; (n = (int)::read(rd, b, sizeof b)) > 0;) out_.append(b, n); }
static async_logger *lg; static int level_, msgs; static int tid_[3];
struct Line { std::string head, body; };
// cut the output into lines "header body"; the body starts with <
static std::vector<Line> lines() {
    std::vector<Line> v; size_t at = 0; static char ks[512]; memset(ks, 'k', sizeof ks);
    while (at < out_.size()) {
        size_t e = at; while (e < out_.size() && out_[e] != '\n') { if (out_[e] == 'k' && e + sizeof ks < out_.size() && !memcmp(&out_[e], ks, sizeof ks)) e += sizeof ks; else ++e; }   // long runs in one step
        VK_ASSERT(e < out_.size(), "every message is written whole");
        size_t b = at; while (b < e && out_[b] != '<') ++b;
        v.push_back({out_.substr(at, b - at), out_.substr(b, e - b)}); at = e + 1;
    }
    return v;
}
static void header(const std::string &h, int tid) {
    VK_ASSERT(h.find(level_ == 1 ? "INFO" : "ERROR") != std::string::npos, "the header names the level");
    VK_ASSERT(h.find(std::to_string(tid)) != std::string::npos, "the header names the thread");
}
static void *writer(void *a) {
    int w = (int)(long)a; tid_[w] = 5000 + vkw_self_tid();
    for (int m = 0; m < msgs; ++m) { if (m && param("yield", 0)) vkw_yield(); *lg << "<" << w << "." << m << ">" << log::endl; }
    return nullptr;
}
ENTRY log_threads() {
    setup(); int writers = range(1, param("writers", 2), "writers"); msgs = param("msgs", 1); level_ = range(1, 2, "level"); redirect(level_); vkw.spurious = param("spurious", 0);
    bool settle;
    {
        vkw.preempt = param("preempt", 1);
        async_logger l(level_); lg = &l; Thr t[3];
        for (int i = 1; i < writers; ++i) t[i].start(writer, (void *)(long)i);
        settle = choose(2, "wait before starting"); if (settle) vkw_pause();
        writer(nullptr);
        for (int i = 1; i < writers; ++i) t[i].join();
        if (choose(2, "wait before the destruction")) { vkw_pause(); vk_reach("settled"); }
    }
    VK_ASSERT(vkw_threads_alive() == 0, "destroying a logger ends its thread");
    collect(); auto v = lines(); int next[3] = {};
    for (auto &x : v) {
        int w = x.body.size() == 5 ? x.body[1] - '0' : -1; VK_ASSERT(w >= 0 && w < writers && x.body == "<" + std::to_string(w) + "." + std::to_string(next[w]) + ">", "messages are written whole and in the order of each thread, once each");
        ++next[w]; header(x.head, tid_[w]);
    }
    for (int i = 0; i < writers; ++i) VK_ASSERT(next[i] == msgs, "every message is written"); 
    if (writers > 1) vk_reach("several writers"); vk_reach("done");
}
// a process that forks and logs on
ENTRY log_fork() {
    setup(); level_ = 1; redirect(1); vkw.fork_child = 1; int before = choose(2, "logged before"), self = vkw_self_tid();
    if (before) { { async_logger l(1); l << "<a>" << log::endl; } vk_reach("logged before"); }
    VK_ASSERT(::fork() == 0, "the child goes on"); { async_logger l(1); l << "<b>" << log::endl; }
    collect(); auto v = lines(); VK_ASSERT((int)v.size() == 1 + before && v[before].body == "<b>", "messages of a child are written once"); if (before) header(v[0].head, 5000 + self); header(v[before].head, 6000 + self); vk_reach("child");
}
// whatever is logged appears as text
ENTRY log_types() {
    setup(); level_ = 1; redirect(1); std::string want = "<", s = anystr(range(0, 2, "length"), "byte"); for (char c : s) vk_assume(c != '\n' && c != '<');
    {
        async_logger l(1);
        l << "<"; int n = range(1, param("parts", 2), "parts");
        static const long longs[] = {0, -1, 1234567890123L, -9223372036854775807L - 1}; static const int ints[] = {0, -7, 2147483647, -2147483647 - 1};
        for (int i = 0; i < n; ++i) {
            int k = choose(6, "type"); std::string add;
            if (k == 0) { std::string z = s; for (char &c : z) if (!c) c = 'z'; l << z.c_str(); add = z; } else if (k == 1) { l << s; add = s; } else if (k == 2) { int j = choose(4, "value"); l << longs[j]; add = std::to_string(longs[j]); } else if (k == 3) { int j = choose(4, "value"); l << ints[j]; add = std::to_string(ints[j]); }
            else if (k == 4) { l << 1.5; add = std::to_string(1.5); } else { l << -2.25f; add = std::to_string(-2.25f); }
            want += add;
        }
        l << log::endl;
    }
    collect(); auto v = lines(); VK_ASSERT(v.size() == 1 && v[0].body.size() == want.size() && same(v[0].body, want), "what is logged appears as text, unchanged"); header(v[0].head, 5000 + vkw_self_tid()); vk_reach("done");
}
// many parts, many messages, long parts
ENTRY log_large() {
    setup(); level_ = 2; int big_ = choose(4, "long part"); if (big_ >= 2) vkw.pipe_cap = 65536; redirect(2); static const int N = 3; std::string want[N]; int parts = param("parts", 80), len = big_ == 2 ? 9000 : big_ == 3 ? 70000 : 3000 * big_; static std::string got; 
    {
        async_logger l(2); lg = &l;
        for (int m = 0; m < N; ++m) { l << "<"; want[m] = "<"; for (int i = 0; i < parts; ++i) { l << i % 10; want[m] += (char)('0' + i % 10); } if (len) { std::string big((size_t)len, 'k'); if (big_ == 2) l << big.c_str(); else l << big; want[m] += big; } l << log::endl; if (choose(2, "settle")) for (int k = 0; k < 40; ++k) { vkw_pause(); collect(); } }
        for (int k = 0; k < 60; ++k) { vkw_pause(); collect(); }
        VK_ASSERT((int)lines().size() == N, "a completed message appears without waiting for another one");
    }
    collect(); auto v = lines(); VK_ASSERT((int)v.size() == N, "every message is written");
    for (int m = 0; m < N; ++m) { VK_ASSERT(v[m].body == want[m], "messages are written whole and in the order of each thread, once each"); header(v[m].head, 5000 + vkw_self_tid()); }
    vk_reach(big_ == 3 ? "very long part" : big_ == 2 ? "long text" : len ? "long part" : "many parts");
}
// output that is still to be taken when the logger is destroyed
static Cnt dying, over;
static void *reader(void *) { while (!over) { vkw_block_until([](void *) { return over || (dying && vkw_pipe_len(rd) > 0); }, nullptr); if (!over) collect(); } return nullptr; }
ENTRY log_destroy() {
    setup(); level_ = 2; vkw.pipe_cap = 40; redirect(2); if (choose(2, "non-blocking output")) { ::fcntl(2, F_SETFL, O_NONBLOCK | O_WRONLY); vk_reach("non-blocking"); } vkw.preempt = 0; int n = range(1, 3, "messages"); std::string want;
    Thr t; t.start(reader, nullptr);
    { async_logger l(2); for (int i = 0; i < n; ++i) { l << "<" << i << "abcdefghi" << ">" << log::endl; want += "<" + std::to_string(i) + "abcdefghi>"; } if (choose(2, "settle")) { vkw_pause(); vk_reach("full"); } dying = 1; }
    over = 1; t.join(); collect(); std::string got; for (auto &x : lines()) { header(x.head, 5000 + vkw_self_tid()); got += x.body; }
    VK_ASSERT(got == want, "what was logged before the destruction is written, however slowly it is taken"); vk_reach("done");
}
// much output pending on a non-blocking output
ENTRY log_pending() {
    setup(); level_ = 2; static const int CAP[] = {4096, 65536}, LEN[] = {70000, 200000, 1100000}; vkw.pipe_cap = CAP[choose(2, "pipe")]; redirect(2); ::fcntl(2, F_SETFL, O_NONBLOCK | O_WRONLY); vkw.preempt = 0; int len = LEN[choose(param("sizes", 2), "size")]; std::string big((size_t)len, 'k'), after;
    Thr t; t.start(reader, nullptr);
    { async_logger l(2); l << "<" << big << log::endl << "<2>" << log::endl; bool settle = choose(2, "settle"); if (settle) { vkw_pause(); collect(); vkw_pause(); vk_reach("full"); } dying = 1; }
    over = 1; t.join(); collect(); auto v = lines(); VK_ASSERT(v.size() == 2 && v[0].body.size() == big.size() + 1 && v[0].body.compare(1, std::string::npos, big) == 0 && v[1].body == "<2>", "all output arrives, however little is taken at a time"); vk_reach("done");
}
// two loggers with different outputs, used in turns by the same threads
static async_logger *two_[2]; static int turns_; static std::string when_[2][3][2];
static void *two_writer(void *a) {
    int w = (int)(long)a; tid_[w] = 5000 + vkw_self_tid();
    for (int m = 0; m < 3; ++m) { int k = (turns_ >> m & 1) ^ w; when_[w][m][0] = timestamp(); *two_[k] << "<" << w << "." << m << ">" << log::endl; when_[w][m][1] = timestamp(); if (m == 1 && param("pass", 1)) vkw.now += 61000000000LL; }
    return nullptr;
}
ENTRY log_two() {
    setup(); vkw.pipe_cap = 4096; redirect(1); int rd1 = rd; redirect(2); int rd2 = rd; turns_ = choose(param("turns", 8), "turns"); int writers = range(1, 2, "writers");
    { async_logger a(1), b(2); two_[0] = &a; two_[1] = &b; vkw.preempt = param("preempt", 0); Thr t; if (writers > 1) t.start(two_writer, (void *)1L); two_writer(nullptr); if (writers > 1) t.join(); }
    int seen[2] = {};
    for (int k = 0; k < 2; ++k) {
        out_.clear(); rd = k ? rd2 : rd1; level_ = k + 1; collect(); int next[2] = {};
        for (auto &x : lines()) {
            VK_ASSERT(x.body.size() == 5, "messages are written whole and in the order of each thread, once each"); int w = x.body[1] - '0', m = x.body[3] - '0'; VK_ASSERT(w >= 0 && w < writers && m >= next[w] && m < 3 && ((turns_ >> m & 1) ^ w) == k, "a message appears in the output of its logger"); next[w] = m + 1; ++seen[w]; header(x.head, tid_[w]);
            VK_ASSERT(x.head.find(level_ == 1 ? "ERROR" : "INFO") == std::string::npos, "the header names the level");
            VK_ASSERT(x.head.find(when_[w][m][0]) != std::string::npos || x.head.find(when_[w][m][1]) != std::string::npos, "the header names the time");
        }
    }
    for (int w = 0; w < writers; ++w) VK_ASSERT(seen[w] == 3, "every message is written"); vk_reach(writers > 1 ? "two threads" : "one thread");
}
// messages without content, and nothing at all
ENTRY log_empty() {
    setup(); level_ = 1; redirect(1); int k[3], n = range(0, 3, "messages"); vkw.pipe_cap = 400;
    { async_logger l(1); for (int i = 0; i < n; ++i) { k[i] = choose(3, "content"); if (k[i] == 1) l << ""; else if (k[i] == 2) l << "<x>"; l << log::endl; } if (choose(2, "settle")) vkw_pause(); }
    collect(); auto v = lines(); VK_ASSERT((int)v.size() == n, "every message is written");
    for (int i = 0; i < n; ++i) { VK_ASSERT(v[i].body == (k[i] == 2 ? "<x>" : ""), "messages are written whole and in the order of each thread, once each"); header(v[i].head, 5000 + vkw_self_tid()); } vk_reach(n ? "messages" : "nothing");
}
// the output takes what it takes
ENTRY log_output() {
    setup(); level_ = 2; int small = choose(3, "small pipe"), rounds = small == 2 ? 30 : 8; vkw.pipe_cap = small ? small == 1 ? 16 : 5 : 200; redirect(2); vkw.shorts = param("shorts", 1); vkw.eintr = param("eintr", 1); std::string want; if (choose(2, "non-blocking output")) { ::fcntl(2, F_SETFL, O_NONBLOCK | O_WRONLY); vkw.shorts = 0; vk_reach("non-blocking"); }
    {
        async_logger l(2);
        int n = range(1, 2, "messages");
        for (int i = 0; i < n; ++i) { l << "<" << i << "abcdefghi" << ">" << log::endl; want += "<" + std::to_string(i) + "abcdefghi>"; if (small) for (int k = 0; k < rounds; ++k) { vkw_pause(); collect(); } else if (i == 0 && choose(2, "wait")) vkw_pause(); }
        // the remaining output is taken while the logger is being destroyed
        if (!small) { vkw_pause(); }
        for (int k = 0; k < rounds; ++k) { vkw_pause(); collect(); }
        VK_ASSERT((int)lines().size() == n, "a completed message appears without waiting for another one");
    }
    collect(); std::string got; for (auto &x : lines()) { header(x.head, 5000 + vkw_self_tid()); got += x.body; }
    VK_ASSERT(got == want, "all output arrives, however little is taken at a time"); vk_reach(small ? "small" : "large"); if (vkw.shorts == 0) vk_reach("short write"); if (vkw.eintr == 0) vk_reach("interrupted");
}
