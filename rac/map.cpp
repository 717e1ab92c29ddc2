// Runtime contract checker for the boundary trees (wh, wh_int) as Diva uses them: an ordered map from byte strings to
// small values, driven by one thread, against std::map.
//   map MODE SEED START COUNT SECONDS      MODE: wh | wh_int | all
#include "diva.hpp"
#include "common.h"
typedef std::map<S, u64> M;
#define DRIVER(P, IT, LEAF) \
struct P##_d { \
    wormhole##IT *w; wormref##IT *ref; \
    P##_d() { w = P##_create(); ref = P##_ref(w); } ~P##_d() { P##_unref(ref); P##_destroy(w); } \
    void put(const S &k, u64 v) { u64 vv[2] = {v, ~v}; if (!P##_put(ref, k.data(), k.size(), vv, 16)) fail("put(%s) reports failure", hex(k).c_str()); } \
    bool del(const S &k) { return P##_del(ref, k.data(), k.size()); } \
    /* seek k, then walk: dir>0 forward n steps, dir<0 backward n steps; compares with the map */ \
    void walk(const M &m, const S &k, int n, bool rev) { \
        wormhole##IT##_iter i; i.ref = ref; i.map = ref->map; i.leaf = nullptr; i.is = 0; P##_iter_seek(&i, k.data(), k.size()); auto it = m.lower_bound(k); bool end = it == m.end(); \
        for (int q = 0; ; q++) { \
            g_evals++; bool ok = P##_iter_valid(&i); if (ok == end) fail("after seek(%s) and %d steps %s the iterator is %s but the map says %s (%zu keys)", hex(k).c_str(), q, rev ? "back" : "forward", ok ? "valid" : "at the end", end ? "at the end" : "valid", m.size()); \
            if (!ok) break; const char *s = 0; u32 l = 0, vl = 0; void *val = 0; P##_iter_peek_ref(&i, (const void **) &s, &l, &val, &vl); u64 x[2]; memcpy(x, val, 16); \
            if (S(s, l) != it->first) fail("after seek(%s) and %d steps %s the key is %s, expected %s (%zu keys)", hex(k).c_str(), q, rev ? "back" : "forward", hex(S(s, l)).c_str(), hex(it->first).c_str(), m.size()); \
            if (vl != 16 || x[0] != it->second || x[1] != ~it->second) fail("wrong value of key %s", hex(it->first).c_str()); \
            if (q == n) break; if (rev) { P##_iter_skip1_rev(&i); end = it == m.begin(); if (!end) --it; } else { P##_iter_skip1(&i); ++it; end = it == m.end(); } } \
        if (i.leaf) LEAF##_unlock_read(i.leaf); } \
};
DRIVER(wh, , wormleaf)
DRIVER(wh_int, _int, wormleaf_int)
template <class D> static void run(const char *nm, u64 seed, u64 idx) {
    Rng r(seed * 1013 + idx); D d; M m; int km = r.below(5); bool i8 = !strcmp(nm, "wh_int"); S common(r.below(20), 'x');
    auto gen = [&]() { u64 x = r(); S s((char *) &x, 8); if (i8) { if (km == 1) for (int i = 0; i < 6; i++) s[i] = 0; if (km == 2) for (auto &c : s) c &= 1; if (km == 3) s[0] = s[1] = s[2] = 0; return s; }
        if (km == 1) s.resize(1 + r.below(8)); if (km == 2) { for (auto &c : s) c &= 1; s.resize(1 + r.below(8)); } if (km == 3) s = common + s; if (km == 4) { s = S(r.below(30), (char) r.below(3)) + s.substr(0, 1 + r.below(3)); } return s; };
    ctx("%s seed=%llu index=%llu keys=%d", nm, (unsigned long long) seed, (unsigned long long) idx, km); int phase = 0, ops = 3000 + r.below(9000);
    for (int op = 0; op < ops; op++) {
        if (r.below(1500) == 0) phase ^= 1;
        if ((int) r.below(100) < (phase ? 25 : 70)) { S k = r.p(1, 10) && !m.empty() ? m.begin()->first : gen(); u64 v = r(); d.put(k, v); m[k] = v; g_calls++; }
        else if (!m.empty()) { S k = gen(); auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); if (r.p(1, 20) && !m.count(k)) { if (d.del(k)) fail("del of absent key %s reports success", hex(k).c_str()); } if (!d.del(it->first)) fail("operation %d: del of present key %s reports failure", op, hex(it->first).c_str()); m.erase(it); g_calls++; }
        if (r.p(2, 3)) { S k = gen(); if (r.p(1, 4) && !m.empty()) { auto it = m.lower_bound(k); if (it != m.end()) k = it->first; } d.walk(m, k, r.p(1, 20) ? r.below(300) : r.below(3), r.p(1, 2)); }
        if (op % 2000 == 1999) d.walk(m, S(i8 ? 8 : 1, 0), 1 << 30, false);
    }
}
int main(int c, char **v) {
    wormhole *dummy = wh_create(); (void) dummy; install_signals(); int mode = !strcmp(v[1], "wh") ? 0 : !strcmp(v[1], "wh_int") ? 1 : 2;
    u64 seed = strtoull(v[2], 0, 0), st = strtoull(v[3], 0, 0), n = strtoull(v[4], 0, 0), done = 0; g_deadline = now() + atof(v[5]);
    for (u64 i = st; i < st + n && now() < g_deadline; i++, done++) { alarm(60); if (mode == 0 || (mode == 2 && i % 2 == 0)) run<wh_d>("wh", seed, i); else run<wh_int_d>("wh_int", seed, i); }
    printf("RAC-OK histories=%llu evals=%llu calls=%llu\n", (unsigned long long) done, (unsigned long long) g_evals, (unsigned long long) g_calls); fflush(stdout); _exit(0);
}
