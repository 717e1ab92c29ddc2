// Runtime contract checker for the public operations of the filter (histories).
//   api MODE SEED START COUNT SECONDS     runs histories START..START+COUNT-1 of MODE
// exit 0: "RAC-OK ..."; exit 1: "RAC-FAIL <clause> | <history>".
#include "diva.hpp"
#include "common.h"
#include <array>
#include <memory>

struct Content { S key; bool partial; u32 invalid; std::vector<u64> list; };
typedef std::vector<Content> Snap;

#ifndef PUBLIC_ONLY
class DivaTests { public:
    template <bool O> static void simple(Diva<O> &d, const S &k) { typename Diva<O>::InfiniteByteString x((const uint8_t *) k.data(), k.size()); d.InsertSimple(x); }
    template <bool O> static void split(Diva<O> &d, const S &k) { typename Diva<O>::InfiniteByteString x((const uint8_t *) k.data(), k.size()); d.InsertSplit(x); }
    template <bool O> static Snap snap(Diva<O> &d) {
        Snap r; const uint8_t *k; u32 kl, dummy; typename Diva<O>::InfixStore *st;
        auto add = [&]() {
            Content c; c.key = S((const char *) k, kl); c.partial = st->IsPartialKey(); c.invalid = st->GetInvalidBits();
            if (st->ptr) { c.list.resize(st->GetElemCount() + 4096); u32 n = d.GetInfixList(*st, c.list.data());
                if (n != st->GetElemCount()) fail("a store holds %u infixes but its element count is %u (boundary %s)", n, st->GetElemCount(), hex(c.key).c_str());
                c.list.resize(n);
                for (u32 j = 1; j < n; j++) if (infix_less(c.list[j], c.list[j - 1])) fail("the infixes of a store are not in order (boundary %s, position %u: %llx before %llx)", hex(c.key).c_str(), j, (unsigned long long) c.list[j - 1], (unsigned long long) c.list[j]); }
            r.push_back(c); };
        if constexpr (O) {
            wormhole_int_iter it; it.ref = d.better_tree_int_; it.map = d.better_tree_int_->map; it.leaf = nullptr; it.is = 0;
            for (wh_int_iter_seek(&it, nullptr, 0); wh_int_iter_valid(&it); wh_int_iter_skip1(&it)) { wh_int_iter_peek_ref(&it, (const void **) &k, &kl, (void **) &st, &dummy); add(); }
            if (it.leaf) wormleaf_int_unlock_read(it.leaf);
        } else {
            wormhole_iter it; it.ref = d.better_tree_; it.map = d.better_tree_->map; it.leaf = nullptr; it.is = 0;
            for (wh_iter_seek(&it, nullptr, 0); wh_iter_valid(&it); wh_iter_skip1(&it)) { wh_iter_peek_ref(&it, (const void **) &k, &kl, (void **) &st, &dummy); add(); }
            if (it.leaf) wormleaf_unlock_read(it.leaf);
        }
        return r;
    }
};
#endif

struct KeyGen {           // key universe of one history
    int dist, lenmode; u64 base; u32 L; Rng &r; S pre;
    KeyGen(Rng &r, bool O, bool variable) : r(r) {
        dist = r.below(8); base = r();
        lenmode = O ? 0 : variable ? r.below(4) : r.below(3);  // 0: 8 bytes, 1: fixed L bytes, 2: fixed L bytes with a common prefix, 3: prefix-free variable length
        L = lenmode == 0 ? 8 : (r.p(1, 2) ? 4 + r.below(13) : 9 + r.below(20));
        if (lenmode == 2) { pre = S(1 + r.below(20), (char) (1 + r.below(100))); L = pre.size() + 5 + r.below(14); }
    }
    S operator()() {
        u64 v = r();
        switch (dist) { case 0: break; case 1: v = base + v % 100000000; break; case 2: v = base + (v >> r.below(30)); break;
                        case 3: v &= 0x0f0f0f0f0f0f0f0full; break; case 4: v = (v % 1000000000) << 20; break;
                        case 5: v = base + v % 20000; break;                                    // dense
                        case 6: if (r.p(2, 3)) { u32 z = 1 + r.below(7); for (u32 i = 0; i < z; i++) v = (v & ~(0xffull << (56 - 8 * i))) | (u64) (base & 1 ? 0x7f : 1) << (56 - 8 * i); } break; // hot spots
                        case 7: { u64 c = (base | 1ull << 62) & ~mask(20 + base % 40), d = v >> (4 + r.below(60)); v = r.p(1, 2) ? c + d : c - d; } break; } // both sides of a carry
        if (v == 0) v = 1; if (v >> 56 == 255) v ^= 1ull << 63;
        u64 b = __builtin_bswap64(v); S s((char *) &b, 8);
        if (lenmode == 1 || lenmode == 2) { s = pre + s; while (s.size() < L) s.push_back(r.p(1, 3) ? (char) r.below(4) : (char) r()); s.resize(L); { bool z = true; for (char c : s) z &= c == 0; if (z) s[L - 1] = 1; } }
        if (lenmode == 3) { // bytes 1..255 closed by one 0x00: no key is a prefix of another
            u32 n = 3 + r.below(14); while (s.size() < n) s.push_back((char) r()); s.resize(n);
            for (auto &c : s) if (!c) c = 1; s.push_back(0); }
        return s;
    }
};

template <bool O> struct Filter {
    std::unique_ptr<Diva<O>> d; u32 w; float lf; int way, via; KeyGen &g; Rng &r; S min, max;
    Filter(KeyGen &g, Rng &r) : w(0), lf(0.95f), way(0), via(0), g(g), r(r) {}
    void load(const std::vector<S> &v, u32 seed, int way_) {
        way = way_; bool all8 = true, all16 = true; for (auto &k : v) { all8 &= k.size() == 8; all16 &= k.size() == 16; }
        if (way == 1 && !all8 && !(all16 && !O)) way = 0;
        if (way == 4 && !all8) way = 2;
        switch (way) {
        case 0: d.reset(new Diva<O>(w, v.begin(), v.end(), seed, lf)); break;
        case 1: if (all8) { std::vector<u64> u; for (auto &k : v) { u64 x; memcpy(&x, k.data(), 8); u.push_back(O ? __builtin_bswap64(x) : x); }
                    d.reset(new Diva<O>(w, u.begin(), u.end(), 8u, seed, lf)); }
                else { std::vector<std::array<uint8_t, 16>> u(v.size()); for (size_t i = 0; i < v.size(); i++) memcpy(u[i].data(), v[i].data(), 16);
                    if constexpr (!O) d.reset(new Diva<O>(w, u.begin(), u.end(), 16u, seed, lf)); }
                break;
        default: d.reset(new Diva<O>(w, seed, lf));
            for (auto &k : v) { if (way == 2) d->BulkLoadStreaming(std::string_view(k)); else if (way == 3) d->BulkLoadStreaming((const uint8_t *) k.data(), k.size());
                                else { u64 x; memcpy(&x, k.data(), 8); d->BulkLoadStreaming(__builtin_bswap64(x)); } }
            d->BulkLoadStreamingFinish();
        }
    }
    void insert(const S &k) { g_calls++;
        u64 x = 0; if (k.size() == 8) memcpy(&x, k.data(), 8);
        switch (via % 3) { case 0: d->Insert(std::string_view(k)); break; case 1: d->Insert((const uint8_t *) k.data(), k.size()); break; default: if (k.size() == 8) d->Insert(__builtin_bswap64(x)); else d->Insert(std::string_view(k)); } }
    void del(const S &k) { g_calls++;
        u64 x = 0; if (k.size() == 8) memcpy(&x, k.data(), 8);
        switch (via % 3) { case 0: d->Delete(std::string_view(k)); break; case 1: d->Delete((const uint8_t *) k.data(), k.size()); break; default: if (k.size() == 8) d->Delete(__builtin_bswap64(x)); else d->Delete(std::string_view(k)); } }
    bool point(const S &k) { g_evals++; u64 x = 0; if (k.size() == 8 && via == 2) { memcpy(&x, k.data(), 8); return d->PointQuery(__builtin_bswap64(x)); }
        return via == 1 ? d->PointQuery((const uint8_t *) k.data(), k.size()) : d->PointQuery(std::string_view(k)); }
    bool range(const S &a, const S &b) { g_evals++; u64 x = 0, y = 0; if (a.size() == 8 && b.size() == 8 && via == 2) { memcpy(&x, a.data(), 8); memcpy(&y, b.data(), 8); return d->RangeQuery(__builtin_bswap64(x), __builtin_bswap64(y)); }
        return via == 1 ? d->RangeQuery((const uint8_t *) a.data(), a.size(), (const uint8_t *) b.data(), b.size()) : d->RangeQuery(std::string_view(a), std::string_view(b)); }
    template <class C> void no_fn(const C &m, const char *when, bool ranges) {
        const S *prev = nullptr;
        for (auto &k : m) {
            if (!point(k)) fail("false negative: PointQuery(%s) is false for a key in the set, after %s", hex(k).c_str(), when);
            if (ranges) {
                if (!range(k, k)) fail("false negative: RangeQuery(%s,%s) is false, after %s", hex(k).c_str(), hex(k).c_str(), when);
                if (prev && !range(*prev, k)) fail("false negative: RangeQuery over two keys of the set is false, after %s", when);
                S lo = k, hi = k; // a range that strictly contains k
                for (int i = lo.size() - 1; i >= 0; i--) if (lo[i]) { lo[i]--; break; } else lo[i] = (char) 0xff;
                for (int i = hi.size() - 1; i >= 0; i--) if ((unsigned char) hi[i] != 0xff) { hi[i]++; break; } else hi[i] = 0;
                if (lo <= k && !range(lo, k)) fail("false negative: RangeQuery(%s,%s) is false though the right end is in the set, after %s", hex(lo).c_str(), hex(k).c_str(), when);
                if (k <= hi && !range(k, hi)) fail("false negative: RangeQuery(%s,%s) is false though the left end is in the set, after %s", hex(k).c_str(), hex(hi).c_str(), when);
            }
            prev = &k;
        }
    }
};

static std::vector<S> pick_keys(Rng &r, KeyGen &g, size_t n) {
    std::set<S> ks; size_t t = 0; while (ks.size() < n && t++ < n * 4 + 8) ks.insert(g());
    return std::vector<S>(ks.begin(), ks.end());
}
static size_t pick_n(Rng &r) {
    switch (r.below(5)) { case 0: return 1 + r.below(60); case 1: return 1024 * (1 + r.below(4)) + r.below(5) - 2; case 2: return 1000 + r.below(60); case 3: return 512 + r.below(1500); default: return 2 + r.below(5000); }
}

// the oracle over abstract contents: which queries must be positive, which must be negative
static bool spec_point(const Snap &s, u32 w, const S &q) {
    size_t i = 0; { size_t lo = 0, hi = s.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s[m].key < q) lo = m + 1; else hi = m; } i = lo; }
    if (i < s.size() && s[i].key == q) return true;
    if (i == 0 || i >= s.size()) return false;
    const Content &p = s[i - 1]; const S &n = s[i].key;
    if (p.partial && p.key.size() <= q.size()) { u32 b = 8 * p.key.size() - p.invalid; bool pre = true; for (u32 j = 0; j < b && pre; j++) pre = kbit(p.key, j) == kbit(q, j); if (pre) return true; }
    SII x = spec_sii(p.key, n); u64 pi = spec_extract(p.key, x, w, 0) >> w; u64 e = spec_extract(q, x, w, kbit(q, x.shared)) - (pi << w);
    for (u64 v : p.list) if (lo_of(v) <= (e | 1) && e <= hi_of(v)) return true;
    return false;
}
static bool spec_range(const Snap &s, u32 w, const S &l, const S &rr) {
    size_t i = 0; { size_t lo = 0, hi = s.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s[m].key < l) lo = m + 1; else hi = m; } i = lo; }
    if (i < s.size() && s[i].key <= rr) return true;
    if (i == 0 || i >= s.size()) return false;
    const Content &p = s[i - 1]; const S &n = s[i].key;
    if (p.partial && p.key.size() <= l.size()) { u32 b = 8 * p.key.size() - p.invalid; bool pre = true; for (u32 j = 0; j < b && pre; j++) pre = kbit(p.key, j) == kbit(l, j); if (pre) return true; }
    SII x = spec_sii(p.key, n); u64 pi = spec_extract(p.key, x, w, 0) >> w;
    u64 a = (spec_extract(l, x, w, kbit(l, x.shared)) | 1) - (pi << w), b = (spec_extract(rr, x, w, kbit(rr, x.shared)) | 1) - (pi << w);
    for (u64 v : p.list) if (lo_of(v) <= b && a <= hi_of(v)) return true;
    return false;
}
// contents a freshly loaded filter must have
static Snap spec_load(const std::vector<S> &v, u32 w, bool zeros8, u32 zlen) {
    Snap s; size_t n = v.size(), max_len = 0; for (auto &k : v) max_len = std::max(max_len, k.size());
    S zero(zeros8 ? 8 : zlen, 0); std::map<S, Content> m;
    m[zero] = {zero, false, 0, {}}; S ff(max_len, (char) 0xff); m[ff] = {ff, false, 0, {}};
    for (size_t b = 0; b < n; ) {
        size_t e = std::min(b + 1024, n - 1); Content c{v[b], false, 0, {}};
        if (e > b) { SII x = spec_sii(v[b], v[e]); u64 pi = spec_extract(v[b], x, w, 0) >> w;
            for (size_t i = b + 1; i < e; i++) c.list.push_back((spec_extract(v[i], x, w, kbit(v[i], x.shared)) | 1) - (pi << w)); }
        std::sort(c.list.begin(), c.list.end(), infix_less); m[v[b]] = c; if (e == b) break; b = e;
    }
    for (auto &p : m) s.push_back(p.second);
    return s;
}
static S near(Rng &r, const S &k) {   // a key close to k, same length
    S q = k; int t = r.below(4); size_t n = q.size();
    if (t == 0) { int i = r.below(n * 8); q[i / 8] ^= 1 << (i % 8); }
    else if (t == 1) { for (size_t i = n - 1 - r.below(std::min<size_t>(n, 5)); i < n; i++) q[i] = (char) r(); }
    else if (t == 2) { q[n - 1] += 1; } else { int i = std::min<int>(n * 8 - 1, r.below(40)); q[i / 8] ^= 0x80 >> (i % 8); }
    return q;
}
static bool all_eq(const S &k, int c) { for (char x : k) if ((unsigned char) x != c) return false; return true; }
static S probe(Rng &r, KeyGen &g, const std::vector<S> &v) { S q; for (;;) { q = r.p(2, 3) && !v.empty() ? near(r, v[r.below(v.size())]) : g(); if (!q.empty() && (unsigned char) q[0] != 255) return q; } }

template <bool O> static void exact_queries(Filter<O> &f, const Snap &s, Rng &r, const std::vector<S> &v, int n, const char *when) {
    for (int i = 0; i < n; i++) {
        S a = probe(r, f.g, v), b = r.p(1, 2) ? near(r, a) : probe(r, f.g, v); if ((unsigned char) b[0] == 255) b = a; if (b < a) std::swap(a, b);
        bool e = spec_point(s, f.w, a); if (f.point(a) != e) fail("PointQuery(%s) is %d but the stored prefixes say %d, %s", hex(a).c_str(), !e, e, when);
        e = spec_range(s, f.w, a, b); if (f.range(a, b) != e) fail("RangeQuery(%s,%s) is %d but the stored prefixes say %d, %s", hex(a).c_str(), hex(b).c_str(), !e, e, when);
    }
}
static S show(const Content &c) { char b[64]; snprintf(b, 64, " partial=%d invalid=%u n=%zu", c.partial, c.invalid, c.list.size()); return hex(c.key) + b; }
static void same_snap(const Snap &a, const Snap &b, const char *what) {
    if (a.size() != b.size()) fail("%s: %zu boundaries, expected %zu", what, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].key != b[i].key || a[i].partial != b[i].partial || a[i].invalid != b[i].invalid || a[i].list.size() != b[i].list.size()) fail("%s: boundary %zu is %s, expected %s", what, i, show(a[i]).c_str(), show(b[i]).c_str());
        for (size_t j = 0; j < a[i].list.size(); j++) if (a[i].list[j] != b[i].list[j]) fail("%s: boundary %s infix %zu is %llx, expected %llx", what, hex(a[i].key).c_str(), j, (unsigned long long) a[i].list[j], (unsigned long long) b[i].list[j]);
    }
}
#ifndef PUBLIC_ONLY
template <bool O> static Snap snap(Filter<O> &f) { return DivaTests::snap(*f.d); }
static size_t store_of(const Snap &s, const S &k) { size_t lo = 0, hi = s.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s[m].key <= k) lo = m + 1; else hi = m; } return lo - 1; }
static u64 infix_of(const Snap &s, size_t i, u32 w, const S &k) { SII x = spec_sii(s[i].key, s[i + 1].key); u64 pi = spec_extract(s[i].key, x, w, 0) >> w; return (spec_extract(k, x, w, kbit(k, x.shared)) | 1) - (pi << w); }
#endif

enum Mode { INS, DEL, SHRINK, SER, BULK, EXACT, U64, MONO, DET, NMODES };
static const char *mode_name[] = {"ins", "del", "shrink", "ser", "bulk", "exact", "u64", "mono", "det"};

template <bool O> static void do_insert(Filter<O> &f, Rng &r, const S &k, int per) {
#ifndef PUBLIC_ONLY
    if (per > 0) { g_calls++; if (r.below(per) == 0) DivaTests::split(*f.d, k); else DivaTests::simple(*f.d, k); return; }
#endif
    f.insert(k);
}

template <bool O> static void history(Mode m, u64 seed, u64 idx) {
    Rng r(seed * 1000003 + idx * 16 + m); KeyGen g(r, O, m != DEL || r.p(1, 2)); Filter<O> f(g, r);
    static u32 MAXW = getenv("MAXW") ? atoi(getenv("MAXW")) : 24; f.w = r.p(1, 12) ? 1 : r.p(1, 8) ? MAXW - r.below(2) : 2 + r.below(MAXW - 2); f.via = r.below(3);
    static const float lfs[] = {0.95f, 0.9f, 0.95f, 0.8f}; f.lf = lfs[r.below(4)];
    u32 w0 = f.w; size_t n0 = pick_n(r); if (m == DEL || m == U64 || m == DET || m == EXACT) n0 = std::min<size_t>(n0, 3500);
    std::vector<S> v = pick_keys(r, g, n0);
    if ((m == BULK || m == SER) && r.p(1, 3)) { u32 L = v[0].size(); if (r.p(1, 2)) { v.insert(v.begin(), S(std::max(L, 8u), 0)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); if (g.lenmode) v.erase(v.begin()); } }
    u32 fs = r(); int way = r.below(5); char what[200];
    ctx("history mode=%s seed=%llu index=%llu int_optimized=%d infix_size=%u load_factor=%.2f n=%zu load_way=%d lenmode=%d L=%u dist=%d", mode_name[m], (unsigned long long) seed, (unsigned long long) idx, O, f.w, f.lf, v.size(), way, g.lenmode, g.L, g.dist);
    f.load(v, fs, way);
    f.no_fn(v, "loading", true);
    if (m == BULK) {
        bool stream = f.way >= 2; u32 ml = 0; for (auto &k : v) ml = std::max<u32>(ml, k.size());
        u32 zl = stream ? ml : f.way == 1 ? v[0].size() : 8; Snap e = spec_load(v, f.w, false, zl);
#ifndef PUBLIC_ONLY
        same_snap(snap(f), e, "contents after loading");
#endif
        exact_queries(f, e, r, v, 300, "after loading");
        return;
    }
    std::multiset<S> ms(v.begin(), v.end()); std::vector<S> keys(v);
    int per = 0;
#ifndef PUBLIC_ONLY
    per = r.p(1, 4) ? 0 : r.p(1, 2) ? 1000 : 120;
#endif
    if (m == INS || m == DEL || m == SHRINK || m == EXACT || m == SER) {
        int pd = m == DEL ? 10 + 10 * r.below(7) : (m == SER || m == EXACT || m == SHRINK) && r.p(1, 2) ? 20 : 0; int nops = m == INS ? 2500 + r.below(6000) : m == EXACT ? 600 : 2500; int shrinks = 0; int drain = m == DEL && r.p(1, 3) ? nops / 2 : 1 << 30;
        double t0 = now();
        for (int op = 0; op < nops; op++) {
            if (op > drain) pd = 97;
            bool check = false, heavy = r.p(1, m == EXACT ? 15 : 150); (void) heavy;
            if ((int) r.below(100) < pd && ms.size() > 2) {
                auto it = ms.lower_bound(r.p(1, 8) ? keys[r.below(keys.size())] : g()); if (it == ms.end()) it = ms.begin(); S k = *it;
                if (all_eq(k, 0) || all_eq(k, 255)) continue;
                snprintf(what, sizeof what, "operation %d: Delete(%s)", op, hex(k).c_str());
#ifndef PUBLIC_ONLY
                if (heavy) {
                    Snap a = snap(f); f.del(k); ms.erase(it); Snap b = snap(f);
                    if (a.size() == b.size()) { // no merge: exactly the longest matching infix disappeared
                        size_t i = store_of(a, k); u64 e = infix_of(a, i, f.w, k); int best = -1;
                        for (size_t j = 0; j < a[i].list.size(); j++) { u64 x = a[i].list[j]; if (lo_of(x) <= e && e <= hi_of(x) && (best < 0 || (x & -x) < (a[i].list[best] & -a[i].list[best]))) best = j; }
                        if (best < 0) fail("the key being deleted had no matching infix before %s", what);
                        a[i].list.erase(a[i].list.begin() + best);
                        same_snap(b, a, "contents after Delete of a key that is not a boundary");
                    } else if (a.size() != b.size() + 1) fail("Delete changed the number of boundaries from %zu to %zu", a.size(), b.size());
                    check = true;
                } else
#endif
                { f.del(k); ms.erase(it); }
            } else {
                S k = g(); if (ms.count(k) || all_eq(k, 255)) continue;
                snprintf(what, sizeof what, "operation %d: Insert(%s)", op, hex(k).c_str());
#ifndef PUBLIC_ONLY
                if (heavy && per) {
                    Snap a = snap(f); bool sp = r.p(1, 10); std::vector<S> qs; std::vector<char> was;
                    for (int j = 0; j < 60; j++) { S q = probe(r, g, keys); qs.push_back(q); was.push_back(f.point(q)); }
                    size_t i = store_of(a, k); u64 e = infix_of(a, i, f.w, k); S pk = a[i].key, nk = a[i + 1].key; SII x = spec_sii(pk, nk);
                    if (sp) DivaTests::split(*f.d, k); else DivaTests::simple(*f.d, k);
                    ms.insert(k); keys.push_back(k);
                    if (!sp) { a[i].list.insert(std::upper_bound(a[i].list.begin(), a[i].list.end(), e, infix_less), e); same_snap(snap(f), a, "contents after Insert"); }
                    for (size_t j = 0; j < qs.size(); j++) if (!was[j] && f.point(qs[j])) {
                        bool same = true; for (u32 b = 0; b < x.shared + x.ignore + x.implicit + f.w - 1 && same; b++) same = kbit(qs[j], b) == kbit(k, b);
                        if (!same) fail("Insert(%s) made PointQuery(%s) positive though they share no stored prefix (%s)", hex(k).c_str(), hex(qs[j]).c_str(), sp ? "split" : "no split"); }
                    check = sp;
                } else
#endif
                { do_insert(f, r, k, per); ms.insert(k); keys.push_back(k); }
            }
            if (m == SHRINK && f.w > 1 && shrinks < 4 && r.below(500) == 0) {
                u32 nw = f.w - 1 - r.below(std::min(3u, f.w - 1)); shrinks++;
                snprintf(what, sizeof what, "operation %d: ShrinkInfixSize(%u)", op, nw);
#ifndef PUBLIC_ONLY
                Snap a = snap(f);
#endif
                f.d->ShrinkInfixSize(nw);
#ifndef PUBLIC_ONLY
                for (auto &c : a) for (auto &x : c.list) { u32 sh = f.w - nw; bool cut = x & mask(sh); x = (x >> sh) | cut; }
                Snap b = snap(f); for (auto &c : a) std::sort(c.list.begin(), c.list.end()); for (auto &c : b) std::sort(c.list.begin(), c.list.end());
                same_snap(b, a, "contents after ShrinkInfixSize");
#endif
                f.w = nw; check = true;
            }
            if (check || op % 500 == 499 || (m == DEL && op % 50 == 0)) f.no_fn(ms, what, m != DEL || op % 500 == 499);
#ifndef PUBLIC_ONLY
            if (m == EXACT && op % 100 == 99) exact_queries(f, snap(f), r, keys, 60, what);
#endif
            if (now() > g_deadline + 5) break;
        }
        (void) t0; f.no_fn(ms, "the whole history", true);
#ifndef PUBLIC_ONLY
        if (m == SHRINK || m == EXACT) exact_queries(f, snap(f), r, keys, 100, "at the end");
#endif
    }
    if (m == SER) {
        u32 sz = f.d->Size(); std::vector<char> buf(sz + 4096, (char) 0x5a); u32 n = f.d->Serialize(buf.data());
        if (n != sz) fail("Size() is %u but Serialize wrote %u bytes", sz, n);
        for (size_t i = sz; i < buf.size(); i++) if (buf[i] != (char) 0x5a) fail("Serialize wrote past the %u bytes Size() announced", sz);
        std::vector<char> c1(buf.begin(), buf.begin() + n), b2(buf);
        Diva<O> *e; { char *tmp = (char *) malloc(n); memcpy(tmp, buf.data(), n); e = new Diva<O>(tmp); memset(tmp, 0xa5, n); free(tmp); }
        Filter<O> h(g, r); h.d.reset(e); h.w = f.w; h.via = f.via; h.lf = f.lf;
        if (e->Size() != sz) fail("the deserialized filter announces %u bytes, the original %u", e->Size(), sz);
        std::vector<char> o2(sz + 64); u32 n2 = e->Serialize(o2.data());
        if (n2 != n || memcmp(o2.data(), c1.data(), n)) fail("serializing the deserialized filter gives different bytes");
#ifndef PUBLIC_ONLY
        same_snap(snap(h), snap(f), "contents of the deserialized filter");
#endif
        for (int i = 0; i < 400; i++) { S a = probe(r, g, keys), b = probe(r, g, keys); if (b < a) std::swap(a, b);
            if (f.point(a) != h.point(a)) fail("PointQuery(%s) differs between original and deserialized filter", hex(a).c_str());
            if (f.range(a, b) != h.range(a, b)) fail("RangeQuery(%s,%s) differs between original and deserialized filter", hex(a).c_str(), hex(b).c_str()); }
        f.d.reset(); h.no_fn(ms, "deserialization and destruction of the original", true);
        for (int op = 0; op < 800; op++) { if (ms.size() > 3 && r.p(1, 2)) { auto it = ms.lower_bound(g()); if (it == ms.end()) it = ms.begin(); S k = *it; if (all_eq(k, 0) || all_eq(k, 255)) continue; h.del(k); ms.erase(it); }
            else { S k = g(); if (ms.count(k)) continue; do_insert(h, r, k, per); ms.insert(k); }
            if (op % 100 == 99) h.no_fn(ms, "further operations on the deserialized filter", false); }
        std::vector<char> o3(h.d->Size() + 64); if (h.d->Serialize(o3.data()) != h.d->Size()) fail("Size() and Serialize disagree after further operations on the deserialized filter");
        (void) b2;
    }
    if (m == MONO) {
        for (int op = 0; op < 1500; op++) { S k = g(); if (ms.count(k)) continue; do_insert(f, r, k, per); ms.insert(k); keys.push_back(k); }
        for (int i = 0; i < 2500; i++) {
            S a = probe(r, g, keys), b = r.p(1, 2) ? near(r, a) : probe(r, g, keys); if ((unsigned char) b[0] == 255) continue; if (b < a) std::swap(a, b);
            if (f.point(a) != f.range(a, a)) fail("PointQuery(%s) != RangeQuery(%s,%s)", hex(a).c_str(), hex(a).c_str(), hex(a).c_str());
            S l = a, h = b; if (r.p(1, 2)) { l = near(r, a); if (l > a) l = a; } else { h = near(r, b); if (h < b || (unsigned char) h[0] == 255) h = b; } if (r.p(1, 4)) { S q = probe(r, g, keys); if (q < l) l = q; else if (q > h) h = q; }
            if (f.range(a, b) && !f.range(l, h)) fail("RangeQuery(%s,%s) is true but the wider RangeQuery(%s,%s) is false", hex(a).c_str(), hex(b).c_str(), hex(l).c_str(), hex(h).c_str());
            if (f.point(a) && !f.range(l, h)) fail("PointQuery(%s) is true but RangeQuery(%s,%s) is false", hex(a).c_str(), hex(l).c_str(), hex(h).c_str());
        }
    }
    if (m == U64 || m == DET) {
        // same seed, same operations: the same filter, however the key is passed and whatever was asked meanwhile
        Filter<O> h(g, r); h.w = w0; h.lf = f.lf; h.via = m == U64 ? (f.via + 1) % 3 : f.via;
        bool all8 = g.lenmode == 0; int way2 = f.way;
        if (m == U64 && all8 && f.way >= 2) way2 = 2 + (f.way - 2 + 1 + r.below(2)) % 3;
        h.load(v, fs, way2);
        auto bytes = [&](Filter<O> &x) { std::vector<char> b(x.d->Size() + 64); u32 n = x.d->Serialize(b.data()); b.resize(n); return b; };
        if (bytes(f) != bytes(h)) fail("two filters loaded alike with the same seed differ");
        int nops = 1500 + r.below(1500); bool dels = r.p(1, 2);
        for (int op = 0; op < nops; op++) {
            if (dels && ms.size() > 3 && r.p(1, 4)) { auto it = ms.lower_bound(g()); if (it == ms.end()) it = ms.begin(); S k = *it; f.del(k); h.del(k); ms.erase(it); }
            else { S k = g(); if (ms.count(k)) continue; f.insert(k); h.insert(k); ms.insert(k); keys.push_back(k); }
            if (m == DET && r.p(1, 4)) { S a = probe(r, g, keys), b = probe(r, g, keys); if (b < a) std::swap(a, b); auto b0 = r.p(1, 100) ? bytes(f) : std::vector<char>(); bool p1 = f.point(a), q1 = f.range(a, b); f.d->Size();
                if (p1 != f.point(a) || q1 != f.range(a, b)) fail("asking PointQuery(%s) or RangeQuery(%s,%s) twice gives different answers", hex(a).c_str(), hex(a).c_str(), hex(b).c_str());
                if (!b0.empty() && b0 != bytes(f)) fail("queries changed the filter"); }
        }
        if (bytes(f) != bytes(h)) fail(m == U64 ? "the same operations through two key types give different filters" : "the same operations with the same seed give different filters (one of them also answered queries)");
        for (int i = 0; i < 600; i++) { S a = probe(r, g, keys), b = probe(r, g, keys); if (b < a) std::swap(a, b);
            if (f.point(a) != h.point(a) || f.range(a, b) != h.range(a, b)) fail("answers for %s..%s differ between two filters with the same history", hex(a).c_str(), hex(b).c_str()); }
        f.no_fn(ms, "the whole history", false);
    }
}

// the integer specialisation answers like the general one (8-byte keys, same seed, same operations)
static void twin(u64 seed, u64 idx) {
    Rng r(seed * 7 + idx * 31 + 5); KeyGen g(r, true, false); Filter<true> f(g, r); Filter<false> h(g, r); f.w = h.w = 1 + r.below(24); f.via = 2; h.via = 0; f.lf = h.lf = 0.95f;
    std::vector<S> v = pick_keys(r, g, std::min<size_t>(pick_n(r), 3000)); u32 fs = r(); int way = r.below(5);
    ctx("history mode=u64(twin) seed=%llu index=%llu infix_size=%u n=%zu load_way=%d dist=%d", (unsigned long long) seed, (unsigned long long) idx, f.w, v.size(), way, g.dist);
    f.load(v, fs, way); h.load(v, fs, way); std::multiset<S> ms(v.begin(), v.end()); std::vector<S> keys(v);
    auto cmp = [&](const char *when) { for (int i = 0; i < 500; i++) { S a = probe(r, g, keys), b = r.p(1, 2) ? near(r, a) : probe(r, g, keys); if ((unsigned char) b[0] == 255) b = a; if (b < a) std::swap(a, b);
        if (f.point(a) != h.point(a)) fail("PointQuery(%s): the integer filter says %d, the general filter says %d, %s", hex(a).c_str(), f.point(a), h.point(a), when);
        if (f.range(a, b) != h.range(a, b)) fail("RangeQuery(%s,%s): the integer filter says %d, the general filter says %d, %s", hex(a).c_str(), hex(b).c_str(), f.range(a, b), h.range(a, b), when); } };
    cmp("after loading");
    for (int op = 0; op < 2500; op++) { S k = g(); if (ms.count(k)) continue; f.insert(k); h.insert(k); ms.insert(k); keys.push_back(k); if (r.p(1, 6)) { auto it = ms.lower_bound(g()); if (it == ms.end()) it = ms.begin(); S q = *it; f.del(q); h.del(q); ms.erase(it); } if (op % 500 == 499) cmp("after inserts and deletes"); }
}

int main(int c, char **v) {
    wormhole *dummy = wh_create(); (void) dummy;   // installs its signal handlers once; ours replace them
    install_signals();
    Mode m = NMODES; for (int i = 0; i < NMODES; i++) if (!strcmp(v[1], mode_name[i])) m = (Mode) i;
    if (m == NMODES) return 3;
    u64 seed = strtoull(v[2], 0, 0), st = strtoull(v[3], 0, 0), n = strtoull(v[4], 0, 0); g_deadline = now() + atof(v[5]); u64 done = 0;
    for (u64 i = st; i < st + n && now() < g_deadline; i++, done++) {
        alarm(getenv("ALRM") ? atoi(getenv("ALRM")) : 300);
        if (m == U64 && i % 3 == 0) twin(seed, i); else if (i & 1) history<true>(m, seed, i); else history<false>(m, seed, i);
    }
    printf("RAC-OK histories=%llu evals=%llu calls=%llu\n", (unsigned long long) done, (unsigned long long) g_evals, (unsigned long long) g_calls);
    fflush(stdout); _exit(0);
}
