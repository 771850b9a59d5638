#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <elf.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <set>
#include <time.h>

X step(X x, int prec, int k)
{
   const bool up = k > 0;
   int m = k < 0 ? -k : k;
   if (prec == P32) { float f = (float)x; while (m--) f = std::nextafterf(f, up ? INFINITY : -INFINITY); return f; }
   if (prec == P64) { double f = (double)x; while (m--) f = std::nextafter(f, up ? INFINITY : -INFINITY); return f; }
   while (m--) x = std::nextafterl(x, up ? (X)INFINITY : -(X)INFINITY);
   return x;
}
bool rep_finite(int prec, X x) { return std::isfinite(rnd(prec, x)); }
std::string strf(const char* f, ...)
{
   char buf[2048];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   return buf;
}
std::string hexs(X x) { return strf("%La", x); }
std::string decs(X x) { return strf("%.21Lg", x); }
X parse_hex(const std::string& s) { return strtold(s.c_str(), nullptr); }

std::string describe(const Ctx& c, const Case& k)
{
   std::string s = k.subj >= 0 ? c.plain.s[k.subj].name : "-";
   s += strf(" n=%lld a=%s (%s) b=%s (%s)", (long long)k.p.n, hexs(k.p.a).c_str(), decs(k.p.a).c_str(), hexs(k.p.b).c_str(), decs(k.p.b).c_str());
   if (k.op || k.q.n || k.q.a != 0 || k.q.b != 0)
      s += strf(" | op=%d n2=%lld a2=%s b2=%s", k.op, (long long)k.q.n, hexs(k.q.a).c_str(), hexs(k.q.b).c_str());
   return s;
}

// ---- lattices ---------------------------------------------------------------------------------
std::vector<X> special_values(int prec)
{
   std::vector<X> p = {0, dmin_of(prec), min_of(prec), step(min_of(prec), prec, -1), eps_of(prec), eps_of(prec)/2,
      0.25L, 0.5L, 0.75L, 1, 1.5L, 2, 3, 4, 6, 8, 10, 100, 1e4L, 1e10L, std::sqrt(min_of(prec)), std::sqrt(max_of(prec)),
      max_of(prec), max_of(prec)/2, std::sqrt(eps_of(prec)), 1e-3L, 0.1L, 0.3L, 0.7L, 0.9L, 1.1L, 5, 12.595170369845016L,
      0.70710678118654752440L, 0.86602540378443864676L, 0.6L, 0.8L, 3.14159265358979323846L, 6.28318530717958647693L};
   std::vector<X> r;
   for (X x : p) {
      x = rnd(prec, x);
      for (int k = -1; k <= 1; ++k) {
         X y = (k == 0 || x == 0) ? x : step(x, prec, k);
         if (!std::isfinite(y)) continue;
         if (k != 0 && (x < 0.2L || x > 4.1L) && x != 0) continue;
         r.push_back(y);
         r.push_back(-y);
      }
   }
   std::sort(r.begin(), r.end(), [](X a, X b) { return a < b || (a == b && std::signbit(a) && !std::signbit(b)); });
   r.erase(std::unique(r.begin(), r.end(), [](X a, X b) { return same_bits(a, b); }), r.end());
   return r;
}

static void sort_unique(std::vector<X>& v)
{
   std::sort(v.begin(), v.end(), [](X a, X b) { return a < b || (a == b && std::signbit(a) && !std::signbit(b)); });
   v.erase(std::unique(v.begin(), v.end(), [](X a, X b) { return same_bits(a, b); }), v.end());
}

static std::vector<X> real_values(int prec, int density, const std::vector<X>& dict)
{
   std::vector<X> v = special_values(prec);
   static const X M[] = {1.0L, 1.0123456789012345678L, 1.2345678901234567890L, 1.5L, 1.7320508075688772935L, 1.98765432109876543211L};
   const int far = (density == 0 ? 16 : 1)*(prec == P80 ? 8 : 1);
   for (int e = emin_of(prec); e <= emax_of(prec); ++e) {
      if (std::abs(e) > 70 && e % far != 0 && e > emin_of(prec) + 1 && e < emax_of(prec) - 1) continue;
      for (X m : M) {
         if (density == 0 && (m == 1.5L || m == M[2] || m == M[4] || (std::abs(e) > 8 && m != M[1]))) continue;
          const X x = rnd(prec, std::ldexp(m, e)); if (std::isfinite(x)) { v.push_back(x); v.push_back(-x); } }
      int k = 0;
      if (std::abs(e) <= 3) k = 64*density;
      else if (std::abs(e) <= 10) k = 16*density;
      else if (std::abs(e) <= 70) k = density;
      for (int i = 0; i < k; ++i) {
         const X x = rnd(prec, std::ldexp(1 + (i + 0.3819660112501051518L)/k, e));
         v.push_back(x);
         v.push_back(-x);
      }
   }
   for (X d : dict) {
      if (!rep_finite(prec, d)) continue;
      X x = rnd(prec, d);
      for (int k = -2; k <= 2; ++k) { const X y = step(x, prec, k); if (std::isfinite(y)) { v.push_back(y); v.push_back(-y); } }
   }
   sort_unique(v);
   return v;
}

Lattice real_lattice(int prec, int density, const std::vector<X>& dict)
{
   Lattice l;
   Line ln;
   for (X x : real_values(prec, density, dict)) { Point p; p.a = x; ln.push_back(p); }
   l.lines.push_back(ln);
   return l;
}

Lattice angle_lattice(int prec, int density, const std::vector<X>& dict)
{
   std::vector<X> v = real_values(prec, density, dict);
   const X pi = 3.14159265358979323846264338327950288L;
   // neighbourhoods of multiples of pi/6 (all for small multiples, sparse for large ones)
   std::vector<X> mult;
   for (int k = 0; k <= 24; ++k) mult.push_back(k);
   for (X k = 30; k < 1e6L; k = std::ceil(k*1.7L)) mult.push_back(k);
   for (X k = 24; k < 1e15L; k *= 12) { mult.push_back(k); mult.push_back(k*0.5L); mult.push_back(k + 6); }
   for (X k : mult) {
      const X c = k*pi/6;
      if (!rep_finite(prec, c)) continue;
      for (X base : {rnd(prec, c), rnd(prec, (X)(double)(pi)*k/6)}) {
         for (int s : {-1, 1}) {
            for (int u = -3; u <= 3; ++u) v.push_back(s*step(base, prec, u));
            for (int e = -60; e < 0; ++e) { v.push_back(s*rnd(prec, base + std::ldexp(1.1234567890123L, e))); v.push_back(s*rnd(prec, base - std::ldexp(1.1234567890123L, e))); }
         }
      }
   }
   // uniform grid over a few periods
   const int N = 400*density;
   for (int i = 0; i < N; ++i) { const X x = rnd(prec, 14*(i + 0.3819660112501051518L)/N); v.push_back(x); v.push_back(-x); }
   sort_unique(v);
   Lattice l;
   Line ln;
   for (X x : v) if (std::isfinite(x)) { Point p; p.a = x; ln.push_back(p); }
   l.lines.push_back(ln);
   return l;
}

Lattice complex_lattice(int prec, int density, const std::vector<X>& dict)
{
   Lattice l;
   const X pi = 3.14159265358979323846264338327950288L;
   const X xmax = max_of(prec);
   auto mk = [&](X a, X b, Line& ln) {
      a = rnd(prec, a); b = rnd(prec, b);
      if (!std::isfinite(a) || !std::isfinite(b)) return;
      Point p; p.a = a; p.b = b;
      ln.push_back(p);
   };
   const int emant = prec == P32 ? 24 : prec == P64 ? 53 : 64;
   // angles: uniform with a full-mantissa offset, axes, near the axes
   std::vector<X> ang;
   const int NA = density == 0 ? 8 : 8 + 8*density;
   for (int i = 0; i < NA; ++i) ang.push_back(pi*(-1 + (2*i + 1.0123456789L)/NA));
   for (X base : {(X)0, pi/2, pi, -pi/2})
      for (X d : {1e-2L, 1e-4L, 1e-8L, 1e-15L, 1e-19L, 1e-30L}) {
         if (density == 0 && d != 1e-4L && d != 1e-15L) continue;
         ang.push_back(base + d); ang.push_back(base - d); }
   std::sort(ang.begin(), ang.end());
   for (int c = 0; c < 3; ++c) {
      const X cen = c == 0 ? 0 : c == 1 ? 1 : -1;
      std::vector<X> rad;
      if (c == 0) {
         for (int e = emin_of(prec); e <= emax_of(prec); ++e) {
            const int ae = std::abs(e);
            const int far = prec == P80 ? 128 : prec == P64 ? 16 : 4;
            int k = ae <= 1 ? 8*density : ae <= 3 ? 3*density : ae <= 8 ? density : 0;
            if (density == 0) k = ae <= 1 ? 4 : (ae <= 8 || e % 8 == 0) ? 1 : 0;
            else if (k == 0) k = ae <= emant + 12 ? 1 : (e % far == 0 || e < emin_of(prec) + 3 || e > emax_of(prec) - 2) ? 1 : 0;
            for (int i = 0; i < k; ++i) rad.push_back(std::ldexp(1 + (i + 0.3819660112501051518L)/k, e));
         }
      } else {
         for (int e = -emant - 10; e <= 1; ++e) {
            const int k = density == 0 ? (e >= -6 || e % 4 == 0) : e >= -4 ? 2*density : 1 + density/4;
            for (int i = 0; i < k; ++i) rad.push_back(std::ldexp(1 + (i + 0.3819660112501051518L)/k, e));
         }
      }
      // radial lines with circular neighbours
      std::vector<Line> byang(ang.size());
      for (X r : rad) {
         Line circ;
         for (size_t i = 0; i < ang.size(); ++i) {
            const X x = cen + r*std::cos(ang[i]), y = r*std::sin(ang[i]);
            mk(x, y, circ);
            mk(x, y, byang[i]);
         }
         const bool near = r > 1e-3L && r < 1e3L;
         const int er = std::ilogb(r);
         if (near || (density > 0 && c == 0 && er % (density >= 6 ? 4 : 20) == 0)) l.lines.push_back(circ);
      }
      if (c == 0) // the modulus overflows, the components do not
         for (X f : {(X)0.75L, (X)1.1L, (X)1.38L}) {
            Line circ;
            for (size_t i = 0; i < ang.size(); ++i) mk(xmax*(f*std::cos(ang[i])), xmax*(f*std::sin(ang[i])), circ);
            l.lines.push_back(circ);
         }
      for (auto& b : byang) l.lines.push_back(b);
   }
   const auto rv = real_values(prec, density >= 6 ? 1 : 0, {});
   // exactly on the axes, with both signs of zero, and next to them
   for (X o : {(X)0, (X)-0.0L, dmin_of(prec), -dmin_of(prec), min_of(prec), -min_of(prec), eps_of(prec), -eps_of(prec), std::sqrt(eps_of(prec))}) {
      Line la, lb;
      if (density == 0 && o != 0 && o != eps_of(prec)) continue;
      for (X x : rv) {
         mk(x, o, la);
         mk(o, x, lb);
      }
      l.lines.push_back(la);
      l.lines.push_back(lb);
   }
   // special x special
   const auto sp = special_values(prec);
   for (size_t i = 0; i < sp.size(); i += density == 0 ? 4 : 1) {
      Line ln;
      for (size_t j = i%3; j < sp.size(); j += density == 0 ? 3 : 1) mk(sp[i], sp[j], ln);
      l.lines.push_back(ln);
   }
   // Cartesian grid over the interesting square
   const int N = density == 0 ? 16 : 24*density;
   for (int i = 0; i < N; ++i) {
      Line row, col;
      const X y = -3 + 6*(i + 0.3819660112501051518L)/N;
      for (int j = 0; j < N; ++j) { const X x = -3 + 6*(j + 0.2360679774997896964L)/N; mk(x, y, row); }
      l.lines.push_back(row);
   }
   // constants the implementation knows about
   for (X d : dict) {
      if (!rep_finite(prec, d) || d == 0) continue;
      Line a, b, m, q;
      const X ad = std::fabs(d);
      for (int i = 0; i < 24; ++i) {
         const X t = -2.4L + 4.8L*(i + 0.3819660112501051518L)/24;
         mk(d, t, a);
         mk(t, d, b);
         const X phi = pi*(-1 + (2*i + 1.0123456789L)/24);
         mk(ad*std::cos(phi), ad*std::sin(phi), m);
         mk(std::sqrt(ad)*std::cos(phi), std::sqrt(ad)*std::sin(phi), q);
      }
      l.lines.push_back(a); l.lines.push_back(b); l.lines.push_back(m); l.lines.push_back(q);
   }
   (void)xmax;
   return l;
}

std::vector<X> rodata_constants(const std::string& so, int prec, X lo, X hi)
{
   std::vector<X> r;
   const int fd = open(so.c_str(), O_RDONLY);
   if (fd < 0) return r;
   const off_t len = lseek(fd, 0, SEEK_END);
   const char* m = (const char*)mmap(nullptr, len, PROT_READ, MAP_PRIVATE, fd, 0);
   close(fd);
   const Elf64_Ehdr* eh = (const Elf64_Ehdr*)m;
   const Elf64_Shdr* sh = (const Elf64_Shdr*)(m + eh->e_shoff);
   const char* names = m + sh[eh->e_shstrndx].sh_offset;
   for (int i = 0; i < eh->e_shnum; ++i) {
      if (strcmp(names + sh[i].sh_name, ".rodata") != 0 && strcmp(names + sh[i].sh_name, ".data") != 0) continue;
      const char* d = m + sh[i].sh_offset;
      const size_t n = sh[i].sh_size;
      auto add = [&](X x) { if (std::isfinite(x) && std::fabs(x) >= lo && std::fabs(x) <= hi) r.push_back(std::fabs(x)); };
      if (prec == P32) for (size_t o = 0; o + 4 <= n; o += 4) { float f; memcpy(&f, d + o, 4); add(f); }
      for (size_t o = 0; o + 8 <= n; o += 8) { double f; memcpy(&f, d + o, 8); add(f); }
      if (prec == P80) for (size_t o = 0; o + 16 <= n; o += 16) {
         uint64_t mant; uint16_t se; uint16_t pad[3];
         memcpy(&mant, d + o, 8); memcpy(&se, d + o + 8, 2); memcpy(pad, d + o + 10, 6);
         if (!(mant >> 63) || pad[0] || pad[1] || pad[2] || (se & 0x7fff) == 0x7fff) continue;
         X f; memcpy(&f, d + o, 16); add(f);
      }
   }
   munmap((void*)m, len);
   std::sort(r.begin(), r.end());
   r.erase(std::unique(r.begin(), r.end()), r.end());
   return r;
}

// ---- closure -----------------------------------------------------------------------------------
namespace {
struct Rec {
   uint64_t blocks = 0;
   std::vector<std::pair<uint64_t, int8_t>> sg; // sorted by pc
   std::vector<double> d;
};
int8_t look(const Rec& r, uint64_t pc, double* d = nullptr)
{
   auto it = std::lower_bound(r.sg.begin(), r.sg.end(), std::make_pair(pc, (int8_t)-128));
   if (it == r.sg.end() || it->first != pc) return 9; // not reached
   if (d) *d = r.d[it - r.sg.begin()];
   return it->second;
}
struct Tracer {
   const Variant& tv;
   const Subject& s;
   TraceBuf b;
   std::set<double>* consts = nullptr;
   std::set<int64_t>* ints = nullptr;
   Rec operator()(const Point& p)
   {
      X in[2] = {p.a, p.b}, out[4];
      tv.trace_begin(&b);
      guarded_call(s, p.n, in, out);
      tv.trace_end();
      Rec r;
      r.blocks = b.blockset;
      std::vector<int> idx(b.ncmp);
      for (int i = 0; i < b.ncmp; ++i) idx[i] = i;
      std::sort(idx.begin(), idx.end(), [&](int x, int y) { return b.cmp[x].pc < b.cmp[y].pc; });
      for (int i : idx) { r.sg.push_back({b.cmp[i].pc, b.cmp[i].sgn}); r.d.push_back(b.cmp[i].d); }
      if (ints) for (int i = 0; i < b.ncmp; ++i) if (b.cmp[i].kind >= 2) { ints->insert(b.cmp[i].ib); ints->insert(b.cmp[i].ia); }
      return r;
   }
};
/// midpoint in the floating-point ordering (1-D) or of the segment (2-D)
bool mid(int prec, const Point& p, const Point& q, Point& m)
{
   m = p;
   auto mid1 = [&](X a, X b) -> X {
      if (same_bits(a, b)) return a;
      if (a == 0 && b == 0) return a;
      X c;
      const X fa = std::fabs(a), fb = std::fabs(b);
      if ((a > 0) == (b > 0) && a != 0 && b != 0 && (fa > 4*fb || fb > 4*fa)) {
         c = std::ldexp((X)1, (std::ilogb(fa) + std::ilogb(fb))/2)*(1 + 0.25L);
         if (a < 0) c = -c;
      } else if ((a == 0 && fb > 8*min_of(prec)) || (b == 0 && fa > 8*min_of(prec))) {
         const X o = a == 0 ? b : a;
         c = std::ldexp((X)1, (std::ilogb(std::fabs(o)) + emin_of(prec))/2);
         if (o < 0) c = -c;
      } else {
         c = a/2 + b/2;
      }
      c = rnd(prec, c);
      if (!((c >= a && c <= b) || (c <= a && c >= b))) c = a;
      return c;
   };
   m.a = mid1(p.a, q.a);
   m.b = mid1(p.b, q.b);
   const bool ep = same_bits(m.a, p.a) && same_bits(m.b, p.b), eq = same_bits(m.a, q.a) && same_bits(m.b, q.b);
   if (ep || eq) {
      // try the neighbouring representable point in each component before giving up
      Point t = p;
      if (!same_bits(p.a, q.a)) { X s = step(p.a, prec, q.a > p.a ? 1 : -1); if (s != q.a || !same_bits(p.b, q.b)) t.a = s; }
      if (!same_bits(p.b, q.b)) { X s = step(p.b, prec, q.b > p.b ? 1 : -1); if (s != q.b || !same_bits(p.a, q.a)) t.b = s; }
      const bool tp = same_bits(t.a, p.a) && same_bits(t.b, p.b), tq = same_bits(t.a, q.a) && same_bits(t.b, q.b);
      if (tp || tq) return false;
      m = t;
   }
   return true;
}
} // namespace

void closure(const Variant& tv, int subj, const Lattice& lat, std::vector<Point>& out, ClosureStats& st, size_t quota)
{
   const Subject& s = tv.s[subj];
   const bool two_d = s.kind == K_C || s.kind == K_NC;
   struct Task { uint64_t pc; Point p, q; int what; Point m; };
   std::vector<Task> tasks;
   std::mutex mtx;
   std::set<int64_t> ints;
   std::atomic<size_t> traced{0};
   // split long lines for parallelism
   struct Seg { const Line* l; size_t b, e; };
   std::vector<Seg> segs;
   for (auto& l : lat.lines)
      for (size_t b = 0; b + 1 < l.size(); b += 512) segs.push_back({&l, b, std::min(l.size(), b + 514)});
   std::vector<std::vector<Task>> res(segs.size());
   parallel(segs.size(), [&](size_t b, size_t e) {
      Tracer tr{tv, s, {}, nullptr, nullptr};
      std::set<int64_t> li;
      tr.ints = &li;
      for (size_t k = b; k < e; ++k) {
         const Line& l = *segs[k].l;
         std::vector<Rec> r;
         for (size_t i = segs[k].b; i < segs[k].e; ++i) r.push_back(tr(l[i]));
         traced += r.size();
         for (size_t i = 0; i + 1 < r.size(); ++i) {
            const Point &p = l[segs[k].b + i], &q = l[segs[k].b + i + 1];
            bool cmpdiff = false;
            // merge the two sorted records
            size_t x = 0, y = 0;
            const Rec &A = r[i], &B = r[i + 1];
            while (x < A.sg.size() || y < B.sg.size()) {
               if (y >= B.sg.size() || (x < A.sg.size() && A.sg[x].first < B.sg[y].first)) { ++x; cmpdiff = true; }
               else if (x >= A.sg.size() || B.sg[y].first < A.sg[x].first) { ++y; cmpdiff = true; }
               else {
                  if (A.sg[x].second != B.sg[y].second) { res[k].push_back({A.sg[x].first, p, q, 0, p}); cmpdiff = true; }
                  ++x; ++y;
               }
            }
            (void)cmpdiff;
            if (A.blocks != B.blocks) {
               uint64_t key = A.blocks < B.blocks ? A.blocks*31 + B.blocks : B.blocks*31 + A.blocks;
               res[k].push_back({key, p, q, 1, p});
            }
            if (i + 2 < r.size()) { // local minima of |a - b| without a change of sign
               const Rec& Cc = r[i + 2];
               for (size_t z = 0; z < B.sg.size(); ++z) {
                  double da, dc;
                  const int8_t sb = B.sg[z].second;
                  if (sb != 1 && sb != -1) continue;
                  if (look(A, B.sg[z].first, &da) != sb || look(Cc, B.sg[z].first, &dc) != sb) continue;
                  const double db = std::fabs(B.d[z]);
                  if (db < std::fabs(da) && db < std::fabs(dc) && std::isfinite(da) && std::isfinite(dc))
                     res[k].push_back({B.sg[z].first, p, l[segs[k].b + i + 2], 2, q});
               }
            }
         }
      }
      std::lock_guard<std::mutex> g(mtx);
      ints.insert(li.begin(), li.end());
   });
   // quotas per decision (deterministic stride)
   std::map<std::pair<int, uint64_t>, size_t> cnt, pos;
   for (auto& r : res) for (auto& t : r) cnt[{t.what, t.pc}]++;
   for (auto& r : res)
      for (auto& t : r) {
         const auto k = std::make_pair(t.what, t.pc);
         const size_t q = t.what == 0 ? quota : quota/8 + 4;
         const size_t stride = (cnt[k] + q - 1)/q;
         if (pos[k]++ % stride == 0) tasks.push_back(t);
      }
   st.decisions += cnt.size();
   res.clear();
   std::vector<std::pair<Point, Point>> found(tasks.size());
   std::vector<char> okv(tasks.size(), 0);
   parallel(tasks.size(), [&](size_t b, size_t e) {
      Tracer tr{tv, s, {}, nullptr, nullptr};
      for (size_t i = b; i < e; ++i) {
         const Task& t = tasks[i];
         Point p = t.p, q = t.q, m;
         if (t.what == 2) { // shrink towards the minimum of |a - b|
            Point c = t.m;
            double d0, dc;
            look(tr(c), t.pc, &dc);
            for (int it = 0; it < 200; ++it) {
               Point u, v;
               bool any = false;
               if (mid(s.prec, p, c, u)) {
                  any = true;
                  const int8_t sg = look(tr(u), t.pc, &d0);
                  if (sg != 9 && std::fabs(d0) <= std::fabs(dc)) { q = c; c = u; dc = d0; continue; }
                  p = u;
               }
               if (mid(s.prec, c, q, v)) {
                  any = true;
                  const int8_t sg = look(tr(v), t.pc, &d0);
                  if (sg != 9 && std::fabs(d0) < std::fabs(dc)) { p = c; c = v; dc = d0; continue; }
                  q = v;
               }
               if (!any) break;
            }
            found[i] = {c, c};
            okv[i] = 2;
            continue;
         }
         const Rec rp = tr(p);
         const int8_t sp = look(rp, t.pc);
         for (int it = 0; it < 400; ++it) {
            if (!mid(s.prec, p, q, m)) break;
            const Rec rm = tr(m);
            const bool left = t.what == 0 ? look(rm, t.pc) == sp : rm.blocks == rp.blocks;
            if (left) p = m; else q = m;
         }
         found[i] = {p, q};
         okv[i] = 1;
      }
   });
   auto key = [](const Point& p) {
      unsigned char b[32] = {0};
      memcpy(b, &p.a, 10);
      memcpy(b + 10, &p.b, 10);
      return std::string((char*)b, 20);
   };
   std::set<std::string> dup;
   for (size_t i = 0; i < tasks.size(); ++i) {
      if (!okv[i]) continue;
      const Point &p = found[i].first, &q = found[i].second;
      if (!dup.insert(key(p) + key(q)).second) continue;
      if (okv[i] == 2) st.minima++; else { st.boundaries++; st.pairs.push_back({p, q}); }
      for (const Point* c : {&p, &q}) {
         out.push_back(*c);
         for (int k : {-2, -1, 1, 2}) {
            Point t = *c;
            t.a = step(t.a, s.prec, k);
            if (std::isfinite(t.a)) out.push_back(t);
            if (two_d) { t = *c; t.b = step(t.b, s.prec, k); if (std::isfinite(t.b)) out.push_back(t); }
         }
      }
   }
   st.traced += traced;
   st.points += out.size();
   for (int64_t v : ints) st.ints.push_back(v);
}

// ---- watchdog and crash capture ------------------------------------------------------------------
namespace {
struct Slot {
   std::atomic<uint64_t> seq{0};
   const Subject* s = nullptr;
   int64_t n = 0;
   X in[2] = {0, 0};
};
Slot slots[256];
std::atomic<int> nslots{0};
thread_local Slot* my = nullptr;
const char* crash_file = nullptr;

void dump_and_exit(const Slot& s, const char* what)
{
   if (crash_file) {
      FILE* f = fopen(crash_file, "w");
      if (f) {
         fprintf(f, "{\"crash\": \"%s\", \"subject\": \"%s\", \"n\": %lld, \"a\": \"%La\", \"b\": \"%La\"}\n", what, s.s ? s.s->name : "", (long long)s.n, s.in[0], s.in[1]);
         fclose(f);
      }
   }
   fprintf(stderr, "%s in %s n=%lld a=%La b=%La\n", what, s.s ? s.s->name : "?", (long long)s.n, s.in[0], s.in[1]);
   _exit(3);
}
void on_signal(int sig)
{
   static std::atomic<int> once{0};
   if (once++) { for (;;) pause(); }
   if (my && my->s && (my->seq.load() & 1)) {
      const char* w = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "undefined behaviour trap" : sig == SIGBUS ? "SIGBUS" : "abort";
      dump_and_exit(*my, w);
   }
   fprintf(stderr, "harness crashed by signal %d outside of a call under test\n", sig);
   _exit(4);
}
} // namespace

static Slot* get_slot()
{
   if (!my) {
      my = &slots[nslots++ & 255];
      static thread_local char* stk = nullptr;
      stk = (char*)malloc(1 << 17);
      stack_t ss;
      memset(&ss, 0, sizeof ss);
      ss.ss_sp = stk;
      ss.ss_size = 1 << 17;
      sigaltstack(&ss, nullptr);
   }
   return my;
}

void init_main_thread() { get_slot(); }

void install_guards(const char* cf, int hang_seconds)
{
   crash_file = cf;
   struct sigaction sa;
   memset(&sa, 0, sizeof sa);
   sa.sa_handler = on_signal;
   sa.sa_flags = SA_ONSTACK;
   for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) sigaction(s, &sa, nullptr);
   std::thread([hang_seconds] {
      uint64_t last[256] = {0};
      int since[256] = {0};
      for (;;) {
         sleep(1);
         for (int i = 0; i < 256 && i < nslots; ++i) {
            const uint64_t q = slots[i].seq.load();
            if ((q & 1) && q == last[i]) {
               if (++since[i] >= hang_seconds) dump_and_exit(slots[i], "call did not return");
            } else { since[i] = 0; last[i] = q; }
         }
      }
   }).detach();
}

void guarded_call(const Subject& s, int64_t n, const X* in, X* out)
{
   Slot* sl = my ? my : get_slot();
   sl->s = &s;
   sl->n = n;
   sl->in[0] = in[0];
   sl->in[1] = in[1];
   sl->seq.fetch_add(1, std::memory_order_release);
   s.call(n, in, out);
   sl->seq.fetch_add(1, std::memory_order_release);
}

void guarded_run(const Subject& s, int64_t n, X a, X b, const std::function<void()>& f)
{
   Slot* sl = my ? my : get_slot();
   sl->s = &s;
   sl->n = n;
   sl->in[0] = a;
   sl->in[1] = b;
   sl->seq.fetch_add(1, std::memory_order_release);
   f();
   sl->seq.fetch_add(1, std::memory_order_release);
}

uint64_t calls_made()
{
   uint64_t t = 0;
   for (auto& sl : slots) t += sl.seq.load()/2;
   return t;
}

void parallel(size_t n, const std::function<void(size_t, size_t)>& f)
{
   static const int T = []{ int t = (int)std::thread::hardware_concurrency(); return t < 1 ? 1 : t > 16 ? 16 : t; }();
   if (n == 0) return;
   size_t chunk = n/(T*16) + 1;
   std::atomic<size_t> next{0};
   std::vector<std::thread> th;
   for (int i = 0; i < T; ++i)
      th.emplace_back([&] {
         get_slot();
         for (;;) {
            const size_t b = next.fetch_add(chunk);
            if (b >= n) break;
            f(b, std::min(n, b + chunk));
         }
         my = nullptr;
      });
   for (auto& t : th) t.join();
   nslots = 1; // worker slots are reused by the next round (slot 0 belongs to the main thread)
}

void Ctx::report(const Case& c, const Verdict& v)
{
   std::lock_guard<std::mutex> g(mtx);
   if (!v.key.empty()) {
      auto& k = known[v.key];
      if (k.count++ == 0) { k.example = describe(*this, c) + ": " + v.msg; k.c = c; }
      return;
   }
   nviol++;
   if (const char* d = getenv("VERIF_DEBUG")) { if (FILE* f = fopen(d, "a")) { fprintf(f, "V %s: %s\n", describe(*this, c).c_str(), v.msg.c_str()); fclose(f); } }
   if (viol.size() < 20) viol.push_back({c, v});
}

void judge_all(Ctx& c, Judge j, const std::vector<Case>& cases)
{
   std::atomic<uint64_t> skipped{0}, inputs{0};
   const uint64_t calls0 = calls_made();
   parallel(cases.size(), [&](size_t b, size_t e) {
      std::map<std::pair<int, int>, double> worst;
      uint64_t sk = 0, in = 0;
      const Case* last = nullptr;
      for (size_t i = b; i < e; ++i) {
         if (c.nviol > 50) break;
         const Verdict v = j(c, cases[i]);
         sk += v.skipped;
         if (!v.skipped) { // states: distinct inputs (cases on one input are consecutive)
            const Case& k = cases[i];
            if (!last || k.p.n != last->p.n || !same_bits(k.p.a, last->p.a) || !same_bits(k.p.b, last->p.b) || k.s != last->s || k.q.n != last->q.n || !same_bits(k.q.a, last->q.a) || !same_bits(k.q.b, last->q.b)) in++;
            last = &k;
         }
         double& w = worst[{cases[i].subj, cases[i].op}];
         if (v.units > w && v.key.empty()) w = v.units;
         if (!v.ok) c.report(cases[i], v);
      }
      skipped += sk;
      inputs += in;
      for (auto& w : worst) if (w.second > 0) c.worse(std::string(c.plain.s[w.first.first].name) + " op" + std::to_string(w.first.second), w.second);
   });
   c.judged += cases.size() - skipped;
   c.states += inputs;
   c.transitions += calls_made() - calls0;
   c.count("cases_out_of_scope", skipped);
   if (!cases.empty()) { c.sample(describe(c, cases[cases.size()/3])); c.sample(describe(c, cases[cases.size()*2/3])); }
}
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
