// Runtime contract checker for one infix store: operations against a multiset of infixes.
//   store MODE SEED START COUNT SECONDS      MODE: raw | list | query | shrink | all
#include "diva.hpp"
#include "common.h"

typedef std::vector<u64> L;
template <bool O> struct Runner;
class InfixStoreTests { public:
    template <bool O> static void run(int mode, u64 seed, u64 idx) {
        typedef Diva<O> D; typedef typename D::InfixStore St;
        Rng r(seed * 77773 + idx * 8 + mode); u32 w = r.p(1, 6) ? 1 + r.below(40) : 1 + r.below(12); static const float lfs[] = {0.95f, 0.95f, 0.9f, 0.8f};
        float lf = lfs[r.below(4)]; D d(w, (u32) r(), lf); u32 ti = r.p(1, 3) ? 1024 : r.p(1, 3) ? 512 + r.below(3) : 512 + r.below(513);
        int dist = r.below(6); u32 init = r.p(1, 3) ? r.below(40) : r.p(1, 2) ? r.below(1300) : 900 + r.below(300);
        auto imp = [&]() -> u64 { switch (dist) { case 1: return ti - 1 - r.below(20); case 2: return r.below(20); case 3: return ti / 2 - 10 + r.below(20); case 4: return (r.below(ti / 16) * 16) % ti; case 5: return r.p(1, 3) ? ti - 1 - r.below(60) : r.below(ti); } return r.below(ti); };
        auto gen = [&](bool cut) -> u64 { u64 e = (r() & mask(w)) | 1; if (cut) { u32 z = r.below(w); e = (e >> z | 1) << z; } return imp() << w | (e & mask(w)); };
        L m; bool cuts = r.p(1, 2); for (u32 i = 0; i < init; i++) m.push_back(gen(cuts && r.p(1, 4))); if (r.p(1, 4) && m.size() > 4) for (u32 i = 0; i < m.size() / 3; i++) m[r.below(m.size())] = m[r.below(m.size())];
        std::sort(m.begin(), m.end(), infix_less);
        char what[160] = "allocation with a list";
        ctx("store mode=%d seed=%llu index=%llu int_optimized=%d infix_size=%u load_factor=%.2f total_implicit=%u dist=%d initial=%zu", mode, (unsigned long long) seed, (unsigned long long) idx, O, w, lf, ti, dist, m.size());
        St s = d.AllocateInfixStoreWithList(m.data(), m.size(), ti);
        auto read = [&](St &x) { L l(x.GetElemCount() + 4096); u32 n = d.GetInfixList(x, l.data()); if (n > l.size()) fail("GetInfixList wrote %u infixes", n); l.resize(n); return l; };
        auto wf = [&](St &x, u32 width, const char *wh) {
            u32 n = d.scaled_sizes_[x.GetSizeGrade()]; const uint32_t *pc = (const uint32_t *) x.ptr; const u64 *oc = x.ptr + 1, *re = x.ptr + 17; u32 a = 0, b = 0, ta = 0, tb = 0, used = 0; g_evals++;
            for (u32 i = 0; i < 1024; i++) { u32 q = oc[i / 64] >> (i % 64) & 1; ta += q; if (i < 512) a += q; }
            for (u32 i = 0; i < n; i++) { u32 q = re[i / 64] >> (i % 64) & 1; tb += q; if (i < 512) b += q; }
            if (ta != tb) fail("%u occupied groups but %u run ends, after %s", ta, tb, wh);
            if (pc[0] != a || pc[1] != b) fail("cached counts %u/%u but the bitmaps say %u/%u, after %s", pc[0], pc[1], a, b, wh);
            // every run sits at or after its canonical slot unless it is packed against the end; slots in between are in use
            u32 prev_end = 0, g = 0; std::vector<u64> sl(n); for (u32 i = 0; i < n; i++) { u64 bit = 64 + 1024 + n + (u64) i * width; u64 v; memcpy(&v, (char *) x.ptr + bit / 8, 8); sl[i] = v >> (bit % 8) & mask(width); used += sl[i] != 0; }
            if (used != x.GetElemCount()) fail("%u slots in use but the element count is %u, after %s", used, x.GetElemCount(), wh);
            u64 iscal = d.implicit_scalars_[ti - 512]; int st = -1;
            for (u32 i = 0; i < n; i++) { if (sl[i] && st < 0) st = i; if (!sl[i] && st >= 0) fail("slot %u inside a run is empty, after %s", i, wh);
                if (re[i / 64] >> (i % 64) & 1) { if (st < 0) fail("run end %u on an empty slot, after %s", i, wh); while (g < 1024 && !(oc[g / 64] >> (g % 64) & 1)) g++;
                    u32 mp = std::min<u64>(n - 1, g * d.size_scalars_[x.GetSizeGrade()] * iscal >> 30); g++;
                    if ((u32) st > mp) { for (u32 j = mp; j < (u32) st; j++) if (!sl[j]) fail("run of group %u starts at %d, canonical %u, with empty slot %u between, after %s", g - 1, st, mp, j, wh); }
                    else if ((u32) st < mp) for (u32 j = st; j < n; j++) if (!sl[j]) fail("run of group %u starts at %d before its canonical slot %u though slot %u is free, after %s", g - 1, st, mp, j, wh);
                    prev_end = i + 1; st = -1; } }
            if (st >= 0) fail("run without end, after %s", wh); (void) prev_end;
        };
        auto same = [&](St &x, const L &e, const char *wh) {
            if (x.GetElemCount() != e.size()) fail("element count %u, expected %zu, after %s", x.GetElemCount(), e.size(), wh);
            L l = read(x); g_evals++; if (l.size() != e.size()) fail("GetInfixList returns %zu infixes, expected %zu, after %s", l.size(), e.size(), wh);
            for (size_t i = 0; i < e.size(); i++) if (l[i] != e[i]) fail("infix %zu is %llx, expected %llx, after %s", i, (unsigned long long) l[i], (unsigned long long) e[i], wh);
        };
        auto queries = [&](St &x, const L &e, int k) { std::vector<u64> img((u64 *) x.ptr, (u64 *) x.ptr + St::GetPtrWordCount(d.scaled_sizes_[x.GetSizeGrade()], w)); u32 status = x.status;
            for (int q = 0; q < k; q++) { u64 a = !e.empty() && r.p(1, 2) ? std::min<u64>(std::max<int64_t>(0, (int64_t) e[r.below(e.size())] + (int64_t) r.below(7) - 3), ((u64) ti << w) - 1) : gen(false); u64 b = r.p(1, 2) ? std::min<u64>(a + (r() & mask(1 + r.below(w + 4))), ((u64) ti << w) - 1) : gen(false); if (a > b) std::swap(a, b); a |= 1; b |= 1; if (a > b) b = a;
                bool pe = false, re_ = false; int best = -1; u64 pt = r.p(1, 2) ? a : a & ~1ull;
                for (u64 v : e) { pe |= lo_of(v) <= (pt | 1) && (pt) <= hi_of(v); re_ |= lo_of(v) <= b && a <= hi_of(v); if (lo_of(v) <= a && a <= hi_of(v)) best = std::max(best, (int) w - __builtin_ctzll(v)); }
                g_evals += 3;
                if (d.PointQueryInfixStore(x, pt, ti) != pe) fail("PointQueryInfixStore(%llx) is %d, expected %d, after %s", (unsigned long long) pt, !pe, pe, what);
                if (d.RangeQueryInfixStore(x, a, b, ti) != re_) fail("RangeQueryInfixStore(%llx,%llx) is %d, expected %d, after %s", (unsigned long long) a, (unsigned long long) b, !re_, re_, what);
                u32 lm = d.GetLongestMatchingInfixSize(x, a, ti); if (lm != (u32) std::max(best, 0)) fail("GetLongestMatchingInfixSize(%llx) is %u, expected %d, after %s", (unsigned long long) a, lm, std::max(best, 0), what); }
            if (x.status != status || memcmp(img.data(), x.ptr, img.size() * 8)) fail("queries changed the store, after %s", what); };
        wf(s, w, what); same(s, m, what); queries(s, m, mode == 2 ? 300 : 20);
        if (mode == 1) { // lists and capacity changes
            for (int k = 0; k < 40; k++) { u32 g = s.GetSizeGrade(); bool up = r.p(1, 2); if (!up && (g == 0 || d.scaled_sizes_[g - 1] < m.size())) up = true; if (g > 120) up = false;
                if (!up && (g == 0 || d.scaled_sizes_[g - 1] < m.size())) break;
                d.ResizeInfixStore(s, up, ti); snprintf(what, sizeof what, "resize number %d to grade %u", k, s.GetSizeGrade());
                if (s.GetSizeGrade() != (up ? g + 1 : g - 1)) fail("resize went from grade %u to %u", g, s.GetSizeGrade());
                wf(s, w, what); same(s, m, what); queries(s, m, 5); }
        }
        if (mode == 3) { for (int k = 0; k < 3 && w > 1; k++) { u32 nw = 1 + r.below(w - 1); d.ShrinkInfixStoreInfixSize(s, nw); snprintf(what, sizeof what, "shrinking the infix size from %u to %u", w, nw);
                for (auto &v : m) { u32 sh = w - nw; v = v >> sh | ((v & mask(sh)) != 0); } w = nw; d.infix_size_ = nw; wf(s, w, what);
                L l = read(s), e = m; std::sort(l.begin(), l.end()); std::sort(e.begin(), e.end()); if (l != e) fail("wrong infixes after %s", what); if (s.GetElemCount() != m.size()) fail("wrong element count after %s", what); m = read(s); } }
        if (mode == 0 || mode == 4 || mode == 2) {
            int pi = 30 + 10 * r.below(5); int ops = mode == 2 ? 60 : 400;
            for (int op = 0; op < ops; op++) {
                if (m.size() > 2500) pi = 20;
                if (m.empty() || (int) r.below(100) < pi) { u64 k = gen(false); snprintf(what, sizeof what, "operation %d: insert %llx", op, (unsigned long long) k); g_calls++;
                    d.InsertRawIntoInfixStore(s, k, ti); m.insert(std::upper_bound(m.begin(), m.end(), k, infix_less), k); }
                else { u64 k = m[r.below(m.size())] | 1; int best = -1; for (size_t j = 0; j < m.size(); j++) if (lo_of(m[j]) <= k && k <= hi_of(m[j]) && (m[j] >> w) == (k >> w) && (best < 0 || (m[j] & -m[j]) < (m[best] & -m[best]))) best = j;
                    snprintf(what, sizeof what, "operation %d: delete %llx", op, (unsigned long long) k); g_calls++; d.DeleteRawFromInfixStore(s, k, ti); m.erase(m.begin() + best); }
                wf(s, w, what); same(s, m, what); if (op % 20 == 0) queries(s, m, 4);
                if (now() > g_deadline + 5) break;
            }
            queries(s, m, 60);
        }
        delete[] s.ptr;
    }
};
int main(int c, char **v) {
    wormhole *dummy = wh_create(); (void) dummy; install_signals();
    int mode = !strcmp(v[1], "raw") ? 0 : !strcmp(v[1], "list") ? 1 : !strcmp(v[1], "query") ? 2 : !strcmp(v[1], "shrink") ? 3 : 4;
    u64 seed = strtoull(v[2], 0, 0), st = strtoull(v[3], 0, 0), n = strtoull(v[4], 0, 0), done = 0; g_deadline = now() + atof(v[5]);
    for (u64 i = st; i < st + n && now() < g_deadline; i++, done++) { alarm(120); int md = mode == 4 ? i % 4 : mode; if (i % 3 == 0) InfixStoreTests::run<true>(md, seed, i); else InfixStoreTests::run<false>(md, seed, i); }
    printf("RAC-OK histories=%llu evals=%llu calls=%llu\n", (unsigned long long) done, (unsigned long long) g_evals, (unsigned long long) g_calls); fflush(stdout); _exit(0);
}
