// Runtime contract checker for the primitives, function by function, against bit-by-bit spec functions.
//   prim MODE SEED START COUNT SECONDS     MODE: bits | store | key | update | all
#include "diva.hpp"
#include "common.h"
static inline int gb(const std::vector<u64> &b, u64 i) { return b[i / 64] >> (i % 64) & 1; }
static inline void pb(std::vector<u64> &b, u64 i, int v) { if (v) b[i / 64] |= 1ull << (i % 64); else b[i / 64] &= ~(1ull << (i % 64)); }
static u64 rw(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << r.below(64); case 3: return r() & r() & r(); case 4: return r() | r() | r(); } return r(); }
static std::vector<u64> rnd(Rng &r, size_t n) { std::vector<u64> v(n); int t = r.below(3); for (auto &x : v) x = t == 0 ? rw(r) : t == 1 ? r() : (r.p(1, 8) ? r() : 0); return v; }
static void bits(Rng &r) {
    u64 x = rw(r); ctx("word %016llx", (unsigned long long) x); int pc = __builtin_popcountll(x); g_evals += 6;
    { u32 k = r.below(64); u32 e = 64; if ((int) k < pc) { int c = k; for (int i = 0; i < 64; i++) if (x >> i & 1) { if (!c--) { e = i; break; } } }
      if (bit_select(x, k) != e) fail("bit_select(%016llx,%u) = %u, expected %u", (unsigned long long) x, k, bit_select(x, k), e);
      if (_select64(x, k) != e) fail("_select64(%016llx,%u) = %u, expected %u", (unsigned long long) x, k, (u32) _select64(x, k), e); }
    { u32 i = r.below(65), e = 0; for (u32 j = 0; j < i; j++) e += x >> j & 1; if (bit_rank(x, i) != e) fail("bit_rank(%016llx,%u) = %u, expected %u", (unsigned long long) x, i, bit_rank(x, i), e); }
    { int lo = 64, hi = -1; for (int j = 63; j >= 0; j--) if (x >> j & 1) { lo = j; if (hi < 0) hi = j; } if (lowbit_pos(x) != lo) fail("lowbit_pos(%016llx) = %d", (unsigned long long) x, lowbit_pos(x)); if (highbit_pos(x) != hi) fail("highbit_pos(%016llx) = %d", (unsigned long long) x, highbit_pos(x)); }
    { std::vector<u64> b = rnd(r, 40), c = b; u32 p = r.below(40 * 64); if (get_bitmap_bit(b.data(), p) != (u64) gb(b, p)) fail("get_bitmap_bit(%u)", p); set_bitmap_bit(b.data(), p); pb(c, p, 1); if (b != c) fail("set_bitmap_bit(%u)", p); p = r.below(40 * 64); reset_bitmap_bit(b.data(), p); pb(c, p, 0); if (b != c) fail("reset_bitmap_bit(%u)", p); }
    { u32 words = 2 + r.below(40); std::vector<u64> b = rnd(r, words), c = b; u32 nb = words * 64; u32 a = r.below(nb), z = r.below(nb); if (a > z) std::swap(a, z); if (r.p(1, 3)) z = std::min<u32>(nb - 1, a + r.below(200)); u32 sh = r.p(1, 3) ? 1 : 1 + r.below(std::min(150u, nb)); bool right = r.p(1, 2); bool empty = r.p(1, 15);
      if (right) { if (z + sh >= nb) sh = nb - 1 - z; if (!sh) return; if (empty && a) z = a - 1;
          ctx("shift_bitmap_right(l=%u, r=%u, shamt=%u)", a, z, sh); std::vector<u64> o = b; for (u64 i = a; i <= z && z + 1 != a; i++) pb(c, i + sh, gb(o, i)); for (u64 i = a; i < a + sh; i++) pb(c, i, 0);
          shift_bitmap_right(b.data(), a, z, sh); if (b != c) { for (u32 i = 0; i < nb; i++) if (gb(b, i) != gb(c, i)) fail("bit %u is %d, expected %d", i, gb(b, i), gb(c, i)); } }
      else { if (sh > a) sh = a; if (!sh) return; if (empty) z = a - 1; if (z + 1 < sh) return;
          ctx("shift_bitmap_left(l=%u, r=%u, shamt=%u)", a, z, sh); std::vector<u64> o = b; for (u64 i = a; i < (u64) z + 1; i++) pb(c, i - sh, gb(o, i)); for (u64 i = z + 1 - sh; i < (u64) z + 1; i++) pb(c, i, 0);
          shift_bitmap_left(b.data(), a, z, sh); if (b != c) { for (u32 i = 0; i < nb; i++) if (gb(b, i) != gb(c, i)) fail("bit %u is %d, expected %d", i, gb(b, i), gb(c, i)); } } }
}
#ifndef BITS_ONLY
template <bool O> struct T; class DivaTests { public:
    template <bool O> static void store(Rng &r) {
        typedef Diva<O> D; typedef typename D::InfixStore St; u32 w = 1 + r.below(r.p(1, 4) ? 57 : 16); static D *cache[60]; if (!cache[w]) cache[w] = new D(w, 1u, 0.95f); D &d = *cache[w];
        u32 g = r.p(1, 2) ? 40 + r.below(30) : r.below(120); u32 n = d.scaled_sizes_[g]; u32 words = St::GetPtrWordCount(n, w);
        St s; s.SetSizeGrade(g); s.SetElemCount(r.below(1 << 20)); s.SetInvalidBits(r.below(8)); s.SetPartialKey(r.p(1, 2)); std::vector<u64> b = rnd(r, words); s.ptr = b.data(); u64 base = 64 + 1024 + n;
        ctx("store with infix_size=%u size grade %u (%u slots)", w, g, n); g_evals += 12;
        { u32 st = s.status; u32 ec = s.GetElemCount(), iv = s.GetInvalidBits(); bool pk = s.IsPartialKey(); if (ec != (st & 0xfffff) || s.GetSizeGrade() != g || iv != (st >> 28 & 7) || pk != (bool) (st >> 31)) fail("status fields overlap");
          u32 ne = r.below(1 << 20), ng = r.below(256), ni = r.below(8); bool np = r.p(1, 2); switch (r.below(5)) { case 0: s.SetElemCount(ne); ec = ne; break; case 1: s.SetSizeGrade(ng); s.SetSizeGrade(g); break; case 2: s.SetInvalidBits(ni); iv = ni; break; case 3: s.SetPartialKey(np); pk = np; break; default: if (ec + 1 < 1u << 20) { s.UpdateElemCount(1); ec++; } if (ec) { s.UpdateElemCount(-1); ec--; } }
          if (s.GetElemCount() != ec || s.GetSizeGrade() != g || s.GetInvalidBits() != iv || s.IsPartialKey() != pk) fail("setting one status field changed another"); }
        auto slot = [&](const std::vector<u64> &x, u32 i) { u64 v = 0; for (u32 j = 0; j < w; j++) v |= (u64) gb(x, base + (u64) i * w + j) << j; return v; };
        { u32 i = r.below(n); if (d.GetSlot(s, i) != slot(b, i)) fail("GetSlot(%u) is %llx, expected %llx", i, (unsigned long long) d.GetSlot(s, i), (unsigned long long) slot(b, i));
          u64 v = r() & mask(w); std::vector<u64> c = b; for (u32 j = 0; j < w; j++) pb(c, base + (u64) i * w + j, v >> j & 1); if (r.p(1, 2)) d.SetSlot(s, i, v); else d.SetSlot(s, i, v, w); if (b != c) fail("SetSlot(%u,%llx) does not write exactly slot %u", i, (unsigned long long) v, i); }
        { u32 a = r.below(n), z = a + r.below(n - a); std::vector<u64> c = b, o = b; int t = r.below(4); u32 sh = r.p(1, 2) ? 1 : 1 + r.below(5);
          if (t == 0 && z + sh <= n && z > a) { for (u32 i = a * w; i < z * w; i++) pb(c, base + i + sh * w, gb(o, base + i)); for (u32 i = a * w; i < (a + sh) * w; i++) pb(c, base + i, 0); d.ShiftSlotsRight(s, a, z, sh); if (b != c) fail("ShiftSlotsRight(%u,%u,%u)", a, z, sh); }
          if (t == 1 && a >= sh && z > a) { for (u32 i = a * w; i < z * w; i++) pb(c, base + i - sh * w, gb(o, base + i)); for (u32 i = (z - sh) * w; i < z * w; i++) pb(c, base + i, 0); d.ShiftSlotsLeft(s, a, z, sh); if (b != c) fail("ShiftSlotsLeft(%u,%u,%u)", a, z, sh); }
          if (t == 2 && z + sh <= n && z > a) { for (u32 i = a; i < z; i++) pb(c, 1088 + i + sh, gb(o, 1088 + i)); for (u32 i = a; i < a + sh; i++) pb(c, 1088 + i, 0); d.ShiftRunendsRight(s, a, z, sh); if (b != c) fail("ShiftRunendsRight(%u,%u,%u)", a, z, sh); }
          if (t == 3 && a >= sh && z > a) { for (u32 i = a; i < z; i++) pb(c, 1088 + i - sh, gb(o, 1088 + i)); for (u32 i = z - sh; i < z; i++) pb(c, 1088 + i, 0); d.ShiftRunendsLeft(s, a, z, sh); if (b != c) fail("ShiftRunendsLeft(%u,%u,%u)", a, z, sh); } }
        u32 oc = 0, rc = 0, to = 0, tr = 0; for (u32 i = 0; i < 1024; i++) { to += gb(b, 64 + i); if (i < 512) oc += gb(b, 64 + i); } for (u32 i = 0; i < n; i++) { tr += gb(b, 1088 + i); if (i < 512) rc += gb(b, 1088 + i); } ((uint32_t *) b.data())[0] = oc; ((uint32_t *) b.data())[1] = rc;
        { u32 p = r.below(1024), e = 0; for (u32 i = 0; i < p; i++) e += gb(b, 64 + i); if (d.RankOccupieds(s, p) != e) fail("RankOccupieds(%u) = %u, expected %u", p, d.RankOccupieds(s, p), e);
          if (tr) { u32 k = r.below(tr), c = k, e2 = 0; for (u32 i = 0; i < n; i++) if (gb(b, 1088 + i) && !c--) { e2 = i; break; } if (d.SelectRunends(s, k) != e2) fail("SelectRunends(%u) = %u, expected %u", k, d.SelectRunends(s, k), e2); }
          if (p < 1023) { u32 e3 = 1024; for (u32 i = p + 1; i < 1024; i++) if (gb(b, 64 + i)) { e3 = i; break; } if (d.NextOccupied(s, p) != (int) e3) fail("NextOccupied(%u) = %d, expected %u", p, d.NextOccupied(s, p), e3); }
          if (p > 0) { int e4 = -1; for (int i = p - 1; i >= 0; i--) if (gb(b, 64 + i)) { e4 = i; break; } if (d.PreviousOccupied(s, p) != e4) fail("PreviousOccupied(%u) = %d, expected %d", p, d.PreviousOccupied(s, p), e4); }
          u32 q = r.below(n); if (q > 0) { int e5 = -1; for (int i = q - 1; i >= 0; i--) if (gb(b, 1088 + i)) { e5 = i; break; } if (d.PreviousRunend(s, q) != e5) fail("PreviousRunend(%u) = %d, expected %d", q, d.PreviousRunend(s, q), e5); }
          if (q + 1 < n) { int e6 = -1; for (u32 i = q + 1; i < n; i++) if (gb(b, 1088 + i)) { e6 = i; break; } int x = d.NextRunend(s, q); if (e6 >= 0 ? x != e6 : x < (int) n) fail("NextRunend(%u) = %d, expected %d (%u slots)", q, x, e6, n); } }
        { u32 ti = 512 + r.below(513); u64 is = d.implicit_scalars_[ti - 512]; u32 a = r.below(ti), c = r.below(ti); if (a > c) std::swap(a, c); int x = d.GetMappedPos(a, g, is), y = d.GetMappedPos(c, g, is); if (x < 0 || y >= (int) n || x > y) fail("GetMappedPos not monotone into [0,%u): %u->%d, %u->%d", n, a, x, c, y); }
    }
    static S rkey(Rng &r, u32 n) { S s(n, 0); int t = r.below(4); for (auto &c : s) c = t == 0 ? (char) r() : t == 1 ? (r.p(1, 2) ? 0 : (char) 0xff) : t == 2 ? (char) r.below(2) : (char) (r() | r()); return s; }
    static S mutate(Rng &r, const S &a, u32 n) { S s = a; s.resize(n); int i = r.below(n * 8); for (int b = i; b < (int) n * 8; b++) if (b == i || r.p(1, 3)) s[b / 8] ^= 0x80 >> (b % 8); return s; }
    static bool padless(const S &a, const S &b) { S x = a, y = b; size_t n = std::max(a.size(), b.size()); x.resize(n); y.resize(n); return x < y; }
    template <bool O> static void key(Rng &r) {
        typedef Diva<O> D; typedef typename D::InfiniteByteString I; u32 w = 1 + r.below(r.p(1, 4) ? 46 : 16); static D *cache[60]; if (!cache[w]) cache[w] = new D(w, 1u, 0.95f); D &d = *cache[w];
        S a = rkey(r, 1 + r.below(24)), b = r.p(1, 2) ? mutate(r, a, r.p(1, 2) ? a.size() : 1 + r.below(24)) : rkey(r, 1 + r.below(24)); if (O) { a.resize(8); b.resize(8); } g_evals += 8;
        ctx("keys %s %s infix_size=%u", hex(a).c_str(), hex(b).c_str(), w);
        I x((const uint8_t *) a.data(), a.size()), y((const uint8_t *) b.data(), b.size());
        if ((x < y) != (a < b) || (x <= y) != (a <= b) || (x == y) != (a == b)) fail("key comparison");
        { u32 p = r.below(40); u64 e = 0; for (int i = 0; i < 8; i++) e = e << 8 | (p + i < a.size() ? (unsigned char) a[p + i] : 0); if (x.WordAt(p) != e) fail("WordAt(%u)", p); u32 q = r.below(300); if ((int) x.GetBit(q) != kbit(a, q)) fail("GetBit(%u)", q); u32 n = 1 + r.below(57); if (x.BitsAt(q, n) != kbits(a, q, n)) fail("BitsAt(%u,%u)", q, n); }
        if (a.size() <= b.size()) { u32 ig = r.below(8); S c = b; if (r.p(1, 2)) { for (size_t i = 0; i < a.size(); i++) c[i] = a[i]; c[a.size() - 1] ^= r() & mask(r.p(1, 2) ? ig : 8); } I z((const uint8_t *) c.data(), c.size()); bool e = true; for (u32 i = 0; i < 8 * a.size() - ig && e; i++) e = kbit(a, i) == kbit(c, i); if (x.IsPrefixOf(z, ig) != e) fail("IsPrefixOf(%s, %u)", hex(c).c_str(), ig); }
        if (padless(b, a)) std::swap(a, b); if (!padless(a, b)) return; I p((const uint8_t *) a.data(), a.size()), n((const uint8_t *) b.data(), b.size());
        auto [s, g, im] = d.GetSharedIgnoreImplicitLengths(p, n); SII e = spec_sii(a, b); if (s != e.shared || g != e.ignore || im != e.implicit) fail("GetSharedIgnoreImplicitLengths = (%u,%u,%u), expected (%u,%u,%u)", s, g, (u32) im, e.shared, e.ignore, e.implicit);
        S k = r.p(1, 2) ? mutate(r, a, O ? 8 : 1 + r.below(24)) : mutate(r, b, O ? 8 : 1 + r.below(24)); I z((const uint8_t *) k.data(), k.size()); u64 m = r.below(2);
        if (d.ExtractPartialKey(z, s, g, im, m) != spec_extract(k, e, w, m)) fail("ExtractPartialKey(%s) = %llx, expected %llx", hex(k).c_str(), (unsigned long long) d.ExtractPartialKey(z, s, g, im, m), (unsigned long long) spec_extract(k, e, w, m));
        // order preserving and in range between the two boundaries
        if (padless(a, k) && padless(k, b)) { u64 pi = spec_extract(a, e, w, 0) >> w, ni = spec_extract(b, e, w, 1) >> w, v = d.ExtractPartialKey(z, s, g, im, z.GetBit(s)); u32 ti = ni - pi + 1; if (ti < 512 || ti > 1024) fail("total implicit %u outside [512,1024]", ti); if ((v >> w) < pi || (v >> w) > ni) fail("key %s between the boundaries maps outside their groups", hex(k).c_str());
            S k2 = mutate(r, k, k.size()); if (padless(k, k2) && padless(k2, b)) { I z2((const uint8_t *) k2.data(), k2.size()); u64 v2 = d.ExtractPartialKey(z2, s, g, im, z2.GetBit(s)); if (v2 < v) fail("the mapping of keys to infixes is not order preserving: %s %s", hex(k).c_str(), hex(k2).c_str()); } }
    }
    template <bool O> static void update(Rng &r) {
        typedef Diva<O> D; typedef typename D::InfiniteByteString I; u32 w = 1 + r.below(24); static D *cache[60]; if (!cache[w]) cache[w] = new D(w, 1u, 0.95f); D &d = *cache[w]; u32 L = O ? 8 : 8 + r.below(12);
        // merge: boundaries a < m < b, a key k strictly between two neighbours, its (possibly cut) infix re-expressed for (a, b)
        S a = rkey(r, L), b = r.p(2, 3) ? mutate(r, a, L) : rkey(r, L), m = r.p(1, 2) ? mutate(r, a, L) : mutate(r, b, L); if (b < a) std::swap(a, b); if (!(a < m && m < b)) return;
        bool left = r.p(1, 2); const S &lo = left ? a : m, &hi = left ? m : b; S k = r.p(1, 2) ? mutate(r, lo, L) : mutate(r, hi, L); if (!(lo < k && k < hi)) return;
        SII o = spec_sii(lo, hi), n = spec_sii(a, b); u64 oi = spec_extract(lo, o, w, 0) >> w, base = oi << w; u64 v = spec_extract(k, o, w, kbit(k, o.shared)) | 1; if (r.p(1, 3)) { u32 z = r.below(w); v = (v >> z | 1) << z; } u64 rel = v - base;
        ctx("UpdateInfixListDelete boundaries %s < %s < %s, %s part, key %s, infix_size=%u, infix %llx", hex(a).c_str(), hex(m).c_str(), hex(b).c_str(), left ? "left" : "right", hex(k).c_str(), w, (unsigned long long) rel); g_evals++;
        u64 list[3] = {rel, rel, rel}; u32 cnt = 1 + r.below(3); d.UpdateInfixListDelete(n.shared, n.ignore, n.implicit, I((const uint8_t *) lo.data(), L), I((const uint8_t *) hi.data(), L), list, cnt);
        for (u32 i = 0; i < cnt; i++) { u64 x = list[i]; u64 e = spec_extract(k, n, w, kbit(k, n.shared)); if (!x) fail("the infix became 0"); if (!(lo_of(x) <= (e | 1) && e <= hi_of(x))) fail("the merged infix %llx does not cover the key (%llx)", (unsigned long long) x, (unsigned long long) e);
            int oend = o.shared + o.ignore + o.implicit + w - __builtin_ctzll(v) - 1, nend = n.shared + n.ignore + n.implicit + w - 1; int want = std::max(0, nend - oend); (void) want;
            if (__builtin_ctzll(x) > std::max(want, 0)) fail("the merged infix %llx keeps fewer bits than it could (marker at %d, expected at most %d)", (unsigned long long) x, __builtin_ctzll(x), want); 
            S k2 = k; for (int b2 = oend; b2 < (int) L * 8; b2++) if (r.p(1, 2)) k2[b2 / 8] ^= 0x80 >> (b2 % 8); if (lo < k2 && k2 < hi) { u64 e2 = spec_extract(k2, n, w, kbit(k2, n.shared)); if (!(lo_of(x) <= (e2 | 1) && e2 <= hi_of(x))) fail("the merged infix %llx loses key %s that the old infix covered", (unsigned long long) x, hex(k2).c_str()); } }
        // split: lists shifted by shamt, cut-short infixes expanded over the groups they cover
        u32 sh = r.below(8); u32 len = r.below(12); std::vector<u64> li; u64 grp = r.below(1000) + 1; for (u32 i = 0; i < len; i++) { u64 e = (r() & mask(w)) | 1; if (r.p(1, 2)) { u32 z = r.below(w); e = (e >> z | 1) << z & mask(w); if (!e) e = 1; } li.push_back((grp + r.below(3)) << w | e); } std::sort(li.begin(), li.end(), infix_less);
        u64 lowg = (grp << sh) - (r.p(1, 2) ? r.below(3) : 0), upg = ((grp + 3) << sh); if (r.p(1, 2)) upg -= r.below(1u << sh);
        u64 ll = lowg << w, ul = upg << w; ctx("UpdateInfixList infix_size=%u shamt=%u len=%u", w, sh, len);
        bool ok = true; for (u64 v2 : li) { u64 q = v2 << sh; if (lo_of(q) >> w > upg || hi_of(q) >> w < lowg) ok = false; if ((q & mask(w)) && ((q >> w) < lowg || (q >> w) > upg)) ok = false; } if (!ok) return;
        auto [rl, ex] = d.GetExpandedInfixListLength(li.data(), li.size(), 11, sh, ll, ul); std::vector<u64> res(rl + 2, 0xabcdef), exp; if (rl > 100000) fail("list length %u", rl); d.UpdateInfixList(li.data(), li.size(), sh, ll, ul, res.data(), rl, ex); g_evals++;
        for (u64 v2 : li) { u64 q = v2 << sh; if (q & mask(w)) exp.push_back(q - ll); else { u64 ip = q >> w; for (u64 j = std::max(ip & (ip - 1), lowg); j <= std::min(ip | (ip - 1), upg); j++) exp.push_back((j - lowg) << w | 1ull << (w - 1)); } }
        std::sort(exp.begin(), exp.end(), infix_less); if (rl != exp.size()) fail("GetExpandedInfixListLength = %u, expected %zu", rl, exp.size()); if (res[rl] != 0xabcdef) fail("UpdateInfixList wrote past its result"); res.resize(rl); std::sort(res.begin(), res.end(), infix_less); if (res != exp) fail("UpdateInfixList gives a wrong list");
    }
};
#endif
int main(int c, char **v) {
    wormhole *dummy = wh_create(); (void) dummy; install_signals(); int mode = !strcmp(v[1], "bits") ? 0 : !strcmp(v[1], "store") ? 1 : !strcmp(v[1], "key") ? 2 : !strcmp(v[1], "update") ? 3 : 4;
    u64 seed = strtoull(v[2], 0, 0), st = strtoull(v[3], 0, 0), n = strtoull(v[4], 0, 0), done = 0; g_deadline = now() + atof(v[5]);
    for (u64 i = st; i < st + n; i++, done++) { if (i % 256 == 0) { if (now() >= g_deadline) break; alarm(60); } Rng r(seed * 991 + i * 8 + mode); int md = mode == 4 ? i % 4 : mode;
#ifndef BITS_ONLY
        if (md == 1) { if (i & 4) DivaTests::store<true>(r); else DivaTests::store<false>(r); } else if (md == 2) { if (i & 4) DivaTests::key<true>(r); else DivaTests::key<false>(r); } else if (md == 3) { if (i & 4) DivaTests::update<true>(r); else DivaTests::update<false>(r); } else
#endif
        bits(r); }
    printf("RAC-OK histories=%llu evals=%llu calls=%llu\n", (unsigned long long) done, (unsigned long long) g_evals, (unsigned long long) g_calls); fflush(stdout); _exit(0);
}
