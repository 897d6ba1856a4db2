// Decision procedure for congruences between polynomial expressions over Z/2^64.
// Every node carries (poly, prec): the unsigned value of the term is congruent to poly modulo 2^prec.
// ops (array of int64, one record per node):
//   0 LEAF  varid                       exact value
//   1 CONST value width
//   2 SUM   width const n (coef node)*  value = const + sum coef*node   (coef, const modulo 2^64)
//   3 MUL   width a b
//   4 SHR   lo n a varid top            ext(a, lo, n): exact shift if divisible, otherwise the leaf varid, which
//                                       stands for a >> lo (top: the field reaches the top of a, so it is exact)
//   5 PMUL  width i n a0..a(n-1) b0..b(n-1)    coefficient i of the negacyclic product
// goals: triples (x, y, bits); result 1 proved, 0 polynomials differ, 2 not enough precision
#include <cstdint>
#include <vector>
#include <algorithm>
#include <unordered_map>
#include <cstring>
using namespace std;
typedef uint64_t u64; typedef int64_t i64;
struct Mono { u64 k, c; };
typedef vector<Mono> Poly;
static inline u64 mkkey(const u64 *v, int n) { u64 k = 0; for (int i = 0; i < n; i++) k = (k << 21) | v[i]; return k; }
// variables are numbered from 1; a key holds up to three variables in ascending order, 0 = absent
static bool keymul(u64 a, u64 b, u64 &r) {
  u64 v[6]; int n = 0;
  const u64 m = (1ULL << 21) - 1;
  for (int s = 42; s >= 0; s -= 21) { u64 x = (a >> s) & m; if (x) v[n++] = x; x = (b >> s) & m; if (x) v[n++] = x; }
  if (n > 3) return false;
  sort(v, v + n);
  r = 0; for (int i = 0; i < n; i++) r = (r << 21) | v[i];
  return true;
}
static inline u64 msk(int p) { return p >= 64 ? ~0ULL : ((1ULL << p) - 1); }
static void norm(Poly &p, int prec) {
  sort(p.begin(), p.end(), [](const Mono &a, const Mono &b) { return a.k < b.k; });
  size_t o = 0; u64 m = msk(prec);
  for (size_t i = 0; i < p.size();) {
    u64 k = p[i].k, c = 0;
    while (i < p.size() && p[i].k == k) c += p[i++].c;
    c &= m;
    if (c) { p[o].k = k; p[o].c = c; o++; }
  }
  p.resize(o); 
}
struct Node { Poly p; int prec; int refs; bool bad; };
static int v2(u64 c) { return c ? __builtin_ctzll(c) : 64; }
static void addscaled(Poly &acc, const Poly &x, u64 c) { // merge of sorted lists
  if (!c) return;
  Poly out; out.reserve(acc.size() + x.size());
  size_t i = 0, j = 0;
  while (i < acc.size() || j < x.size()) {
    if (j >= x.size() || (i < acc.size() && acc[i].k < x[j].k)) out.push_back(acc[i++]);
    else if (i >= acc.size() || x[j].k < acc[i].k) { out.push_back({x[j].k, x[j].c * c}); j++; }
    else { u64 s = acc[i].c + x[j].c * c; if (s) out.push_back({acc[i].k, s}); i++; j++; }
  }
  acc.swap(out);
}
static bool domul(Poly &out, const Poly &a, const Poly &b, u64 sg) {
  for (auto &x : a) for (auto &y : b) { u64 k; if (!keymul(x.k, y.k, k)) return false; out.push_back({k, x.c * y.c * sg}); }
  return true;
}
extern "C" int ring_prove(const i64 *code, const i64 *off, i64 n, const i64 *goals, i64 ng, int *res, u64 *stats) {
  vector<Node> N(n);
  vector<int> refs(n, 0);
  for (i64 i = 0; i < n; i++) {
    const i64 *c = code + off[i];
    switch (c[0]) {
      case 2: for (i64 k = 0; k < c[3]; k++) refs[c[5 + 2 * k]]++; break;
      case 3: refs[c[2]]++; refs[c[3]]++; break;
      case 4: refs[c[3]]++; break;
      case 5: for (i64 k = 0; k < 2 * c[3]; k++) refs[c[4 + k]]++; break;
    }
  }
  for (i64 g = 0; g < ng; g++) { refs[goals[3 * g]]++; refs[goals[3 * g + 1]]++; }
  auto drop = [&](i64 j) { if (--refs[j] == 0) { Poly().swap(N[j].p); } };
  u64 maxm = 0, tot = 0;
  for (i64 i = 0; i < n; i++) {
    const i64 *c = code + off[i];
    Node &d = N[i]; d.prec = 64; d.bad = false;
    switch (c[0]) {
      case 0: d.p.push_back({(u64)c[1], 1}); break;
      case 1: if (c[1]) d.p.push_back({0, (u64)c[1]}); break;
      case 2: {
        int pr = (int)c[1];
        for (i64 k = 0; k < c[3]; k++) { int q = N[c[5 + 2 * k]].prec; u64 cf = (u64)c[4 + 2 * k]; if (q < 64) pr = min(pr, min(64, q + v2(cf))); }
        size_t tsz = 0; for (i64 k = 0; k < c[3]; k++) tsz += N[c[5 + 2 * k]].p.size();
        if (c[3] <= 3) {
          if (c[2]) d.p.push_back({0, (u64)c[2]});
          for (i64 k = 0; k < c[3]; k++) addscaled(d.p, N[c[5 + 2 * k]].p, (u64)c[4 + 2 * k]);
          u64 m = msk(pr); size_t o = 0;
          for (auto &x : d.p) { x.c &= m; if (x.c) d.p[o++] = x; }
          d.p.resize(o);
        } else {
          d.p.reserve(tsz + 1);
          if (c[2]) d.p.push_back({0, (u64)c[2]});
          for (i64 k = 0; k < c[3]; k++) { u64 cf = (u64)c[4 + 2 * k]; for (auto &x : N[c[5 + 2 * k]].p) d.p.push_back({x.k, x.c * cf}); }
          norm(d.p, pr);
        }
        d.prec = pr;
        for (i64 k = 0; k < c[3]; k++) drop(c[5 + 2 * k]);
        break;
      }
      case 3: {
        Node &a = N[c[2]], &b = N[c[3]];
        d.prec = min((int)c[1], min(a.prec, b.prec));
        if ((u64)a.p.size() * b.p.size() > 50000000ULL || !domul(d.p, a.p, b.p, 1)) { d.bad = true; d.prec = 0; d.p.clear(); }
        norm(d.p, d.prec);
        drop(c[2]); drop(c[3]);
        break;
      }
      case 4: {
        int lo = (int)c[1], w = (int)c[2]; Node &a = N[c[3]];
        bool ok = a.prec > lo;
        u64 m = msk(lo);
        if (ok && lo) for (auto &x : a.p) if (x.c & m) { ok = false; break; }
        if (ok) {
          d.prec = min(w, a.prec >= 64 ? (lo ? 64 - lo : 64) : a.prec - lo);
          u64 mm = msk(d.prec);
          d.p.reserve(a.p.size());
          for (auto &x : a.p) { u64 v = (x.c >> lo) & mm; if (v) d.p.push_back({x.k, v}); }
        } else {
          d.p.push_back({(u64)c[4], 1}); d.prec = c[5] ? 64 : w;
        }
        drop(c[3]);
        break;
      }
      case 5: {
        i64 w = c[1], idx = c[2], m = c[3]; d.prec = (int)w; const i64 *A = c + 4, *B = c + 4 + m;
        for (i64 k = 0; k < 2 * m; k++) d.prec = min(d.prec, N[c[4 + k]].prec);
        for (i64 j = 0; j < m; j++) {
          i64 k = idx - j; u64 sg = 1; if (k < 0) { k += m; sg = ~0ULL; }
          if (!domul(d.p, N[A[j]].p, N[B[k]].p, sg)) { d.bad = true; d.prec = 0; d.p.clear(); break; }
        }
        norm(d.p, d.prec);
        for (i64 k = 0; k < 2 * m; k++) drop(c[4 + k]);
        break;
      }
    }
    tot += d.p.size(); maxm = max(maxm, (u64)d.p.size());
  }
  for (i64 g = 0; g < ng; g++) {
    Node &a = N[goals[3 * g]], &b = N[goals[3 * g + 1]]; int bits = (int)goals[3 * g + 2];
    if (a.prec < bits || b.prec < bits) { res[g] = 2; continue; }
    u64 m = msk(bits);
    size_t i = 0, j = 0; bool ok = true;
    while (ok && (i < a.p.size() || j < b.p.size())) {
      if (j >= b.p.size() || (i < a.p.size() && a.p[i].k < b.p[j].k)) { if (a.p[i++].c & m) ok = false; }
      else if (i >= a.p.size() || b.p[j].k < a.p[i].k) { if (b.p[j++].c & m) ok = false; }
      else { if ((a.p[i].c - b.p[j].c) & m) ok = false; i++; j++; }
    }
    res[g] = ok ? 1 : 0;
  }
  if (stats) { stats[0] = tot; stats[1] = maxm; }
  return 0;
}
