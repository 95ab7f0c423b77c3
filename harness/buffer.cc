#include "h.h"
#include "cppev/buffer.h"
using cppev::buffer;

// reference: the queue of bytes produced and not yet consumed
struct Ref { char d[64]; int b = 0, e = 0; int size() const { return e - b; } };

static void agree(const buffer &x, const Ref &r) {
    VK_ASSERT(x.size() == r.size(), "size() is the number of bytes produced and not consumed");
    VK_ASSERT(x.capacity() >= x.size(), "capacity() covers the content");
    unsigned d = 0;
    const char *p = x.rawbuf();
    for (int i = 0; i < r.size(); ++i) d |= (unsigned char)(p[i] ^ r.d[r.b + i]) | (unsigned char)(x[i] ^ r.d[r.b + i]);
    VK_ASSERT(d == 0, "content is the bytes produced and not consumed, in order");
}
static void step(buffer &x, Ref &r, int maxlen) {
    switch (choose(9, "op")) {
    case 0: { int n = range(0, maxlen, "len"); char t[16]; for (int i = 0; i < n; ++i) { t[i] = (char)u8("byte"); r.d[r.e++] = t[i]; } x.produce(t, n); break; }
    case 1: { int n = choose(r.size() + 1, "len"); x.consume(n); r.b += n; break; }
    case 2: { x.consume(); r.b = r.e; break; }
    case 3: { int n = range(0, maxlen, "len"); std::string s = anystr(n, "byte"); for (int i = 0; i < n; ++i) r.d[r.e++] = s[i]; x.put_string(s); break; }
    case 4: { int n = choose(r.size() + 2, "len") - 1; bool rm = choose(2, "remove");
              std::string s = x.get_string(n, rm); int k = n == -1 ? r.size() : n;
              VK_ASSERT((int)s.size() == k, "get_string returns the requested number of bytes");
              VK_ASSERT(same(s.data(), r.d + r.b, k), "get_string returns the oldest bytes in order");
              if (rm) r.b += k; vk_reach("get_string"); break; }
    case 5: { int c = range(-1, 9, "cap"); int before = x.capacity(); x.resize(c); VK_ASSERT(x.capacity() >= c && x.capacity() >= before, "resize makes room and never shrinks"); break; }
    case 6: x.tiny(); break;
    case 7: x.clear(); r.b = r.e = 0; break;
    case 8: if (r.size()) { int i = choose(r.size(), "index"); char c = (char)u8("byte"); x[i] = c; r.d[r.b + i] = c; } break;
    }
}
ENTRY buf_fifo() {
    int ops = param("ops", 3), maxlen = param("maxlen", 3);
    size_t blocks = vk_heap_blocks(~0ULL);
    {
        int cap = range(0, 3, "cap");
        buffer x0(cap ? cap : 1), x1; buffer &x = cap ? x0 : x1; Ref r;
        agree(x, r);
        for (int i = 0; i < ops; ++i) { step(x, r, maxlen); agree(x, r); }
        vk_reach("sequence done");
    }
    VK_ASSERT(vk_heap_blocks(blocks) == 0, "no memory is leaked");
}
// a long production forces several growth steps
ENTRY buf_growth() {
    int a = range(1, param("len", 20), "a"), b = range(1, param("len", 20), "b"), c = choose(a + 1, "consumed");
    buffer x(range(1, 4, "cap"));
    std::string s = anystr(a, "byte"), t = anystr(b, "byte");
    x.put_string(s); x.consume(c); if (choose(2, "tiny")) x.tiny(); x.produce(t.data(), b);
    std::string all = s.substr(c) + t;
    VK_ASSERT(x.size() == (int)all.size(), "size() is the number of bytes produced and not consumed");
    VK_ASSERT(same(x.rawbuf(), all.data(), (int)all.size()), "content is the bytes produced and not consumed, in order");
    std::string g = x.get_string();
    VK_ASSERT(same(g, all), "get_string returns the oldest bytes in order");
    VK_ASSERT(x.size() == 0, "buffer is empty after everything was taken");
    vk_reach("grown");
}
// long strings with every byte value in them
ENTRY buf_long() {
    static const int sizes[6] = {255, 257, 4097, 65537, 131071, 32768}; int n = sizes[choose(6, "size")], m = sizes[choose(6, "second")], first; std::string s((size_t)n, 0), t((size_t)m, 0);
    for (int i = 0; i < n; ++i) s[i] = (char)(i * 7 + i / 256); for (int i = 0; i < m; ++i) t[i] = (char)(i + 5);
    buffer x(range(1, 2, "cap")); int how = choose(2, "how"); first = how ? n / 2 : n / 3; if (how) x.put_string(s); else x.produce(s.data(), n);
    VK_ASSERT(x.size() == n, "size() is the number of bytes produced and not consumed"); std::string g = x.get_string(first); VK_ASSERT((int)g.size() == first && !memcmp(g.data(), s.data(), first), "get_string returns the oldest bytes in order");
    if (choose(2, "tiny")) x.tiny(); if (choose(2, "copy")) { buffer y(x); x.clear(); std::swap(x, y); } if (how) x.put_string(t); else x.produce(t.data(), m);
    std::string all = s.substr(first) + t; VK_ASSERT(x.size() == (int)all.size() && !memcmp(x.rawbuf(), all.data(), all.size()), "content is the bytes produced and not consumed, in order");
    if (int left = choose(4, "left")) { left = left == 3 ? m / 2 : left; g = x.get_string((int)all.size() - left); VK_ASSERT(g.size() == all.size() - left && !memcmp(g.data(), all.data(), g.size()) && x.size() == left, "get_string returns the oldest bytes in order"); all.erase(0, g.size()); x.put_string("end"); all += "end"; }
    g = x.get_string(); VK_ASSERT(g.size() == all.size() && !memcmp(g.data(), all.data(), all.size()), "get_string returns the oldest bytes in order"); VK_ASSERT(x.size() == 0, "buffer is empty after everything was taken"); vk_reach("long");
}
// ---- copies and moves
ENTRY buf_shift() {   // buffers whose front was consumed, of several sizes
    size_t blocks = vk_heap_blocks(~0ULL);
    {
        static const int sizes[7] = {1, 2, 3, 5, 8, 40, 300}; int n = sizes[choose(7, "size")]; std::string s((size_t)n, 0); for (int i = 0; i < n; ++i) s[i] = (char)(i + 1); s[n - 1] = (char)u8("byte");
        buffer x(1), o(2); x.put_string(s); int k = std::min(n, (int[]){0, 1, 2, 7, n - 1, n / 2}[choose(6, "consumed")]); x.consume(k); std::string e = s.substr(k); o.put_string("old");
        int how = choose(5, "how"); buffer y; if (how == 0) { buffer z(std::move(x)); y = std::move(z); x = y; } else if (how == 1) { y = std::move(x); x = o; x = y; } else if (how == 2) { buffer z(x); y = z; } else if (how == 3) { o.consume(1); std::swap(x, o); y = o; VK_ASSERT(x.size() == 2 && !memcmp(x.rawbuf(), "ld", 2), "content of the source"); std::swap(x, o); } else { std::vector<buffer> v; v.push_back(std::move(x)); v.emplace_back(o); v.insert(v.begin(), o); y = v[1]; x = std::move(v[1]); VK_ASSERT(v[2].size() == 3 && v[0].size() == 3, "content of the source"); }
        for (int r = 0; r < 2; ++r) { buffer &b = r ? x : y; VK_ASSERT(b.size() == n - k && same(std::string(b.rawbuf(), b.size()), e), "a copied or moved buffer has the content of its source"); b.put_string("zz"); VK_ASSERT(same(b.get_string(), e + "zz") && b.size() == 0, "a copied or moved buffer has the content of its source"); }
        vk_reach("shift");
    }
    VK_ASSERT(vk_heap_blocks(blocks) == 0, "no memory is leaked");
}
ENTRY buf_copy() {
    int ops = param("ops", 2), maxlen = param("maxlen", 2);
    size_t blocks = vk_heap_blocks(~0ULL);
    {
        buffer x(range(1, 2, "cap")); Ref r;
        for (int i = 0; i < ops; ++i) step(x, r, maxlen);
        buffer other(3); Ref ro;
        if (choose(2, "prefill")) { std::string s = anystr(3, "byte"); other.put_string(s); for (char c : s) ro.d[ro.e++] = c; }
        int how = choose(6, "how");
        if (how == 0) { buffer y(x); Ref ry = r; agree(y, ry); step(y, ry, maxlen); agree(x, r); agree(y, ry); step(x, r, maxlen); agree(y, ry); agree(x, r); vk_reach("copy construct"); }
        else if (how == 1) { other = x; Ref ry = r; agree(other, ry); step(x, r, maxlen); agree(other, ry); step(other, ry, maxlen); agree(x, r); agree(other, ry); vk_reach("copy assign"); }
        else if (how == 2) { buffer &self = x; x = self; agree(x, r); step(x, r, maxlen); agree(x, r); vk_reach("self assign"); }
        else if (how == 3) { buffer y(std::move(x)); agree(y, r); step(y, r, maxlen); agree(y, r); x = y; agree(x, r); vk_reach("move construct"); }
        else if (how == 4) { other = std::move(x); agree(other, r); step(other, r, maxlen); agree(other, r); vk_reach("move assign"); }
        else { buffer y(x); Ref ry = r; { buffer z(y); step(z, ry, maxlen); agree(z, ry); } agree(y, r); agree(x, r); std::swap(x, other); agree(x, ro); agree(other, r); vk_reach("swap"); }
    }
    VK_ASSERT(vk_heap_blocks(blocks) == 0, "no memory is leaked");
}
