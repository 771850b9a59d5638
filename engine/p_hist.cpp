// C19: calls are pure.
//
//  alphabet   Sigma: for every function one operation (n, argument) per execution path of the implementation,
//             special arguments, and "twins" that differ in one component only (what a wrong cache confuses)
//  op 1       histories: all words of length 2 over Sigma (de Bruijn sequence), of length 3 and 4 over the
//             operations of one function, and breadth-first search over the reachable states of the writable
//             memory of the library; every result is compared bit by bit with that of the same operation as
//             the first call in a fresh process
//  op 2       contexts: dirty stack and registers, errno, exception flags, rounding modes, threads, stack
//             alignment; results equal, control words, flags and arguments preserved
//  op 3       schedules: programs of two or three concurrent calls in the variant "mem" under a cooperative
//             scheduler that may switch threads before every access to shared memory and at every
//             synchronization; all schedules up to a preemption bound; results equal, no data race, no deadlock
#include "acc.hpp"
#include "mem.h"
#include <array>
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

void dirty_call(const Subject& s, const Point& p, int pattern, X* out);

namespace {
struct Op { int subj; Point p; };
struct Res { X o[4]; };
bool same(const X* a, const X* b) { for (int i = 0; i < 4; ++i) if (!same_bits(a[i], b[i])) return false; return true; }
std::string show(const X* o) { return "(" + decs(o[0]) + ", " + decs(o[1]) + ")"; }
std::string show(const Ctx& c, const Op& o) { Case k; k.subj = o.subj; k.p = o.p; return describe(c, k); }

template <class T> T* shared_array(size_t n)
{
   void* p = mmap(nullptr, n*sizeof(T) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
   return (T*)p;
}
template <class T> void drop(T* p, size_t n) { munmap((void*)p, n*sizeof(T) + 64); }

// ---- writable memory of a library ----------------------------------------------------------------
struct Segs { std::vector<std::pair<char*, size_t>> rw; std::vector<std::pair<char*, size_t>> all; char* base = nullptr; const char* name = nullptr; void* tls = nullptr; size_t tls_n = 0; };
int seg_cb(struct dl_phdr_info* i, size_t, void* d)
{
   Segs* s = (Segs*)d;
   if ((char*)i->dlpi_addr != s->base) return 0;
   char *rlo = nullptr, *rhi = nullptr;
   for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = rlo + i->dlpi_phdr[k].p_memsz; }
   for (int k = 0; k < i->dlpi_phnum; ++k) {
      const auto& h = i->dlpi_phdr[k];
      char* a = (char*)i->dlpi_addr + h.p_vaddr;
      if (h.p_type == PT_LOAD) {
         s->all.push_back({a, h.p_memsz});
         if (h.p_flags & PF_W) {
            char* e = a + h.p_memsz;
            if (rlo && a < rhi && rlo <= a) a = std::min(rhi, e);
            s->rw.push_back({a, (size_t)(e - a)});
         }
      }
      if (h.p_type == PT_TLS) { s->tls = i->dlpi_tls_data; s->tls_n = h.p_memsz; }
   }
   return 1;
}
Segs segments(void* dl)
{
   Segs s;
   struct link_map* lm = nullptr;
   dlinfo(dl, RTLD_DI_LINKMAP, &lm);
   s.base = (char*)lm->l_addr;
   dl_iterate_phdr(seg_cb, &s);
   return s;
}
uint64_t hash_mem(void* dl)
{
   static Segs s;
   static void* last = nullptr;
   if (last != dl) { s = segments(dl); last = dl; }
   uint64_t h = 1469598103934665603ull;
   auto add = [&](const char* p, size_t n) {
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w)*0x9E3779B97F4A7C15ull; h ^= h >> 29; }
      for (; i < n; ++i) { h = (h ^ (unsigned char)p[i])*1099511628211ull; }
   };
   for (auto& r : s.rw) add(r.first, r.second);
   if (s.tls_n) {
      Segs t;
      t.base = s.base;
      dl_iterate_phdr(seg_cb, &t); // thread-local block of this thread
      if (t.tls) add((char*)t.tls, t.tls_n);
   }
   return h;
}

// ---- children ----------------------------------------------------------------------------------
/// run f in a child process; returns its exit status (0: fine), -signal
int in_child(const std::function<void()>& f, int timeout = 120)
{
   fflush(nullptr);
   const pid_t p = fork();
   if (p == 0) {
      for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) signal(s, SIG_DFL);
      alarm(timeout);
      f();
      _exit(0);
   }
   int st = 0;
   while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
   return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}
/// run f(0) .. f(n-1) in up to 8 child processes at a time
void children(int n, const std::function<void(int)>& f, const std::function<void(int, int)>& done, int timeout = 300)
{
   std::map<pid_t, int> live;
   auto reap = [&] {
      int st = 0;
      const pid_t p = waitpid(-1, &st, 0);
      if (p < 0) return;
      auto it = live.find(p);
      if (it == live.end()) return;
      const int i = it->second;
      live.erase(it);
      done(i, WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
   };
   fflush(nullptr);
   for (int i = 0; i < n; ++i) {
      while (live.size() >= 8) reap();
      const pid_t p = fork();
      if (p == 0) {
         for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) signal(s, SIG_DFL);
         alarm(timeout);
         f(i);
         _exit(0);
      }
      live[p] = i;
   }
   while (!live.empty()) reap();
}

inline void call(const Subject& s, const Point& p, X* o)
{
   X in[2] = {p.a, p.b};
   o[0] = o[1] = 0;
   s.call(p.n, in, o);
}

// ---- alphabet ------------------------------------------------------------------------------------
struct Alphabet {
   std::vector<Op> ops;
   std::vector<std::vector<int>> of; // per subject
   std::vector<int> dense;           // orders
};
void alphabet(Ctx& c, Alphabet& A)
{
   const X pi = 3.14159265358979323846L;
   A.of.resize(c.plain.s.size());
   std::vector<std::vector<Point>> found(c.plain.s.size());
   const std::vector<int64_t> norm = {-171, -61, -31, -30, -29, -9, -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 20, 21, 39, 64, 65, 120, 171, 1001, 1000000007};
   parallel(c.plain.s.size(), [&](size_t b, size_t e) {
      for (size_t i = b; i < e; ++i) {
         const Subject& s = c.plain.s[i];
         const bool z = s.kind == K_C || s.kind == K_NC, ord = s.kind == K_NR || s.kind == K_NC;
         Lattice l = z ? complex_lattice(s.prec, 0, {}) : s.family == LI ? real_lattice(s.prec, 0, {}) : angle_lattice(s.prec, 0, {});
         std::vector<Point> cand, out;
         for (auto& ln : l.lines) for (size_t k = 0; k < ln.size(); k += ord ? 7 : 1) cand.push_back(ln[k]);
         static thread_local TraceBuf* tb = nullptr;
         if (!tb) tb = (TraceBuf*)malloc(sizeof *tb);
         auto path = [&](const Point& p) { X in[2] = {p.a, p.b}, o[4]; c.trace.trace_begin(tb); guarded_call(c.trace.s[i], p.n, in, o); c.trace.trace_end(); return tb->blockset; };
         std::set<uint64_t> seen;
         const size_t maxpaths = ord ? 90 : 12;
         std::vector<int64_t> ns = {0};
         if (ord) ns = norm;
         for (int64_t n : ns) {
            size_t here = 0;
            for (size_t k = 0; k < cand.size() && seen.size() < maxpaths && here < (ord ? 4 : 12); ++k) {
               Point p = cand[(k*7919 + 17) % cand.size()];
               p.n = n;
               if (seen.insert(path(p)).second) { out.push_back(p); here++; }
            }
         }
         // twins: differ from a base point in one component
         std::vector<Point> base;
         auto pt = [&](int64_t n, X a, X b) { Point p; p.n = n; p.a = rnd(s.prec, a); p.b = z ? rnd(s.prec, b) : 0; return p; };
         for (X r : {0.3L, 0.8L, 1.3L, 2.7L}) base.push_back(z ? pt(0, r*std::cos(1.0123L), r*std::sin(1.0123L)) : pt(0, r, 0));
         std::vector<Point> tw;
         for (size_t q = 0; q < base.size(); ++q) {
            const Point& p = base[q];
            const int64_t n0 = ord ? (int64_t)(s.family == LI ? std::vector<int64_t>{7, -5, 13, 21} : std::vector<int64_t>{3, 8, 13, 4})[q] : 0;
            auto add = [&](int64_t n, X a, X b) { tw.push_back(pt(n, a, b)); };
            add(n0, p.a, p.b);
            add(n0, -p.a, p.b);
            if (q < 2) { add(n0, step(p.a, s.prec, 1), p.b); add(n0, p.a*1.25L, p.b); }
            if (z) { add(n0, p.a, -p.b); if (q < 2) { add(n0, p.b, p.a); add(n0, p.a, step(p.b, s.prec, 1)); add(n0, p.a, p.b*1.25L); } }
            else if (s.family != LI && q < 2) add(n0, p.a + 2*pi, 0);
            if (ord) {
               for (int64_t d : {1, 2, 4, 8, 16, 32, 64, 128, 256}) if (q == 0 || d < 4) add(n0 + d, p.a, p.b);
               if (q == 0) { add(n0 + (1LL << 32), p.a, p.b); add(-n0, p.a, p.b); }
            }
         }
         for (auto& p : tw) out.push_back(p);
         for (X a : {(X)0, -0.0L, (X)1, -(X)1, (X)NAN, (X)INFINITY}) out.push_back(pt(ord ? 5 : 0, a, 0));
         // no duplicates
         for (auto& p : out) {
            bool dup = false;
            for (auto& q : found[i]) dup |= q.n == p.n && same_bits(q.a, p.a) && same_bits(q.b, p.b);
            if (!dup) found[i].push_back(p);
         }
      }
   });
   for (size_t i = 0; i < found.size(); ++i)
      for (auto& p : found[i]) { A.of[i].push_back((int)A.ops.size()); A.ops.push_back({(int)i, p}); }
   // every order in a dense range, at one argument
   for (size_t i = 0; i < c.plain.s.size(); ++i) {
      const Subject& s = c.plain.s[i];
      if (s.kind != K_NR && s.kind != K_NC) continue;
      for (int64_t n = s.family == LI ? -60 : 1; n <= 200; ++n) { Op o; o.subj = (int)i; o.p.n = n; o.p.a = 0.7; o.p.b = s.kind == K_NC ? 0.4 : 0; A.dense.push_back((int)A.ops.size()); A.ops.push_back(o); }
   }
}

// ---- words -------------------------------------------------------------------------------------
/// de Bruijn sequence of order m over k letters (prefer-smallest: Lyndon words), linearized
std::vector<int> debruijn(int k, int m)
{
   std::vector<int> seq, a(k*m + 1, 0);
   std::function<void(int, int)> db = [&](int t, int p) {
      if (t > m) { if (m % p == 0) for (int j = 1; j <= p; ++j) seq.push_back(a[j]); return; }
      a[t] = a[t - p];
      db(t + 1, p);
      for (int j = a[t - p] + 1; j < k; ++j) { a[t] = j; db(t + 1, t); }
   };
   db(1, 1);
   for (int i = 0; i + 1 < m; ++i) seq.push_back(seq[i]);
   return seq;
}
struct Seq { std::string id; std::vector<int> letters; int order; std::vector<int> w; };
/// letters of the sequence with this id
Seq sequence(const Ctx& c, const Alphabet& A, const std::string& id, bool thorough)
{
   Seq s;
   s.id = id;
   const size_t col = id.find('.');
   const std::string kind = id.substr(0, col);
   const int sub = col == std::string::npos ? -1 : atoi(id.c_str() + col + 1);
   auto pick = [](const std::vector<int>& v, size_t n) { std::vector<int> r; const size_t k = std::min(n, v.size()); for (size_t i = 0; i < k; ++i) r.push_back(v[i*v.size()/k]); return r; };
   if (kind == "all2") { for (auto& v : A.of) s.letters.insert(s.letters.end(), v.begin(), v.end()); s.order = 2; }
   else if (kind == "orders2") { s.letters = A.dense; s.order = 2; }
   else if (kind == "fn3") { s.letters = pick(A.of[sub], thorough ? 90 : c.plain.s[sub].n ? 30 : 48); s.order = 3; }
   else if (kind == "fn4") { s.letters = pick(A.of[sub], thorough ? 24 : 10); s.order = 4; }
   for (int x : debruijn((int)s.letters.size(), s.order)) s.w.push_back(s.letters[x]);
   return s;
}
const int CHUNK = 1 << 16;

/// run w[from .. to] in this (pristine) process; returns the first index whose result is wrong, or -1
long run_word(Ctx& c, const Alphabet& A, const Res* fresh, const std::vector<int>& w, long from, long to, long* progress, X* got, std::unordered_set<uint64_t>* states)
{
   uint64_t n = 0;
   for (long i = from; i <= to; ++i) {
      *progress = i;
      const Op& o = A.ops[w[i]];
      X r[4];
      call(c.plain.s[o.subj], o.p, r);
      if (!same(r, fresh[w[i]].o)) { memcpy(got, r, sizeof r); return i; }
      if (states && (++n % 64 == 0 || i - from < 200) && states->size() < 1000) states->insert(hash_mem(c.plain.dl));
   }
   return -1;
}

Res* g_fresh = nullptr;
uint64_t* g_hash = nullptr; // memory state after the call
uint64_t g_h0 = 0;
Alphabet* g_alpha = nullptr;

/// result of every operation as the first call of a process; false: reported a crash
bool fresh_results(Ctx& c, const std::vector<int>& which)
{
   const Alphabet& A = *g_alpha;
   if (!g_fresh) { g_fresh = shared_array<Res>(A.ops.size()); g_hash = shared_array<uint64_t>(A.ops.size()); }
   g_h0 = hash_mem(c.plain.dl);
   int* crash = shared_array<int>(A.ops.size());
   const int W = 8;
   children(W, [&](int w) {
      for (size_t j = w; j < which.size(); j += W) {
         const int i = which[j];
         crash[i] = in_child([&] { call(c.plain.s[A.ops[i].subj], A.ops[i].p, g_fresh[i].o); g_hash[i] = hash_mem(c.plain.dl); }, 60);
      }
   }, [](int, int) {});
   bool ok = true;
   for (int i : which)
      if (crash[i]) {
         Case k;
         k.subj = A.ops[i].subj;
         k.p = A.ops[i].p;
         k.op = 9;
         Verdict v;
         v.ok = false;
         v.msg = crash[i] == -SIGALRM ? "the call did not return" : strf("the process ended by signal %d", -crash[i]);
         c.report(k, v);
         ok = false;
      }
   drop(crash, A.ops.size());
   return ok;
}

Case history_case(const Alphabet& A, const std::string& id, long from, long to, int opi)
{
   Case k;
   k.subj = A.ops[opi].subj;
   k.p = A.ops[opi].p;
   k.op = 1;
   k.s = strf("%s:%ld:%ld", id.c_str(), from, to);
   return k;
}

void histories(Ctx& c)
{
   const Alphabet& A = *g_alpha;
   std::vector<std::string> ids = {"all2", "orders2"};
   for (size_t i = 0; i < A.of.size(); ++i) { ids.push_back(strf("fn3.%zu", i)); ids.push_back(strf("fn4.%zu", i)); }
   struct Job { int seq; long from, to; };
   std::vector<Seq> seqs;
   std::vector<Job> jobs;
   uint64_t words = 0, calls = 0;
   for (auto& id : ids) {
      seqs.push_back(sequence(c, A, id, c.thorough));
      const Seq& s = seqs.back();
      if (s.letters.empty()) { continue; }
      words += s.w.size() - (s.order - 1);
      calls += s.w.size();
      for (long b = 0; b < (long)s.w.size(); b += CHUNK)
         jobs.push_back({(int)seqs.size() - 1, std::max(0L, b - s.order + 1), std::min((long)s.w.size(), b + CHUNK) - 1});
   }
   struct Out { long bad, progress; X got[4]; uint64_t states; };
   Out* out = shared_array<Out>(jobs.size());
   std::atomic<bool> stop{false};
   uint64_t states = 1;
   children((int)jobs.size(), [&](int j) {
      std::unordered_set<uint64_t> st;
      st.insert(g_h0);
      out[j].bad = -1;
      out[j].bad = run_word(c, A, g_fresh, seqs[jobs[j].seq].w, jobs[j].from, jobs[j].to, &out[j].progress, out[j].got, &st);
      out[j].states = st.size();
   }, [&](int j, int rc) {
      if (rc != 0) { out[j].bad = out[j].progress; }
      states = std::max(states, out[j].states);
      if (out[j].bad < 0 || c.nviol > 3) return;
      const Seq& s = seqs[jobs[j].seq];
      // shortest suffix of the history that still shows it
      long from = jobs[j].from;
      const long to = out[j].bad;
      for (long d : {0L, 1L, 2L, 3L, 4L, 8L, 16L, 32L, 64L, 256L, 1024L, 4096L, 16384L}) {
         if (to - d < jobs[j].from) break;
         long* pr = shared_array<long>(2);
         X* got = shared_array<X>(4);
         pr[1] = -1;
         const int r = in_child([&] { pr[1] = run_word(c, A, g_fresh, s.w, to - d, to, pr, got, nullptr); });
         const bool bad = r != 0 || pr[1] >= 0;
         drop(pr, 2);
         drop(got, 4);
         if (bad) { from = to - d; break; }
      }
      Case k = history_case(A, s.id, from, to, s.w[to]);
      Verdict v;
      v.ok = false;
      v.msg = rc ? "crash after a history of calls" : "result " + show(out[j].got) + " differs from the fresh one " + show(g_fresh[s.w[to]].o);
      v.msg += strf(" after %ld other calls", to - from);
      if (to > from) v.msg += ", the last one: " + show(c, A.ops[s.w[to - 1]]);
      c.report(k, v);
   }, 600);
   drop(out, jobs.size());
   c.count("histories_words", words);
   c.count("history_calls", calls);
   c.count("memory_states_seen_along_histories", states);
   c.states += words;
   c.transitions += calls;
   c.judged += calls;
}

// ---- reachable states of the writable memory ---------------------------------------------------------
void memory_states(Ctx& c)
{
   const Alphabet& A = *g_alpha;
   // operations that change the memory when called first
   std::vector<int> movers;
   std::set<int> msub;
   for (size_t i = 0; i < A.ops.size(); ++i) if (g_hash[i] != g_h0) { movers.push_back((int)i); msub.insert(A.ops[i].subj); }
   c.transitions += A.ops.size();
   uint64_t states = 1, edges = A.ops.size();
   bool closed = true;
   if (!movers.empty()) {
      // breadth-first search over the operations of the functions concerned
      std::vector<int> sig;
      for (size_t i = 0; i < A.ops.size(); ++i) if (msub.count(A.ops[i].subj)) sig.push_back((int)i);
      const size_t maxsig = c.thorough ? 400 : 120, maxstates = c.thorough ? 2000 : 120;
      if (sig.size() > maxsig) { std::vector<int> r; for (size_t k = 0; k < maxsig; ++k) r.push_back(sig[k*sig.size()/maxsig]); sig = r; closed = false; }
      std::map<uint64_t, std::vector<int>> known;
      std::vector<uint64_t> queue = {g_h0};
      known[g_h0] = {};
      for (size_t q = 0; q < queue.size() && c.nviol < 3; ++q) {
         if (q >= maxstates) { closed = false; break; }
         const std::vector<int> hist = known[queue[q]];
         struct Out { uint64_t h; int rc; int bad; X got[4]; };
         Out* out = shared_array<Out>(sig.size());
         children(8, [&](int w) {
            X o[4];
            for (int i : hist) call(c.plain.s[A.ops[i].subj], A.ops[i].p, o);
            for (size_t j = w; j < sig.size(); j += 8)
               out[j].rc = in_child([&] {
                  call(c.plain.s[A.ops[sig[j]].subj], A.ops[sig[j]].p, out[j].got);
                  out[j].bad = !same(out[j].got, g_fresh[sig[j]].o);
                  out[j].h = hash_mem(c.plain.dl);
               }, 60);
         }, [](int, int) {});
         for (size_t j = 0; j < sig.size(); ++j) {
            edges++;
            if (out[j].rc || out[j].bad) {
               Case k;
               k.subj = A.ops[sig[j]].subj;
               k.p = A.ops[sig[j]].p;
               k.op = 1;
               k.s = "path";
               for (int i : hist) k.s += strf(":%d", i);
               k.s += strf(":%d", sig[j]);
               Verdict v;
               v.ok = false;
               v.msg = out[j].rc ? strf("crash (%d)", out[j].rc) : "result " + show(out[j].got) + " differs from the fresh one " + show(g_fresh[sig[j]].o);
               v.msg += strf(" after %zu other calls", hist.size());
               if (c.nviol < 3) c.report(k, v);
               continue;
            }
            if (!known.count(out[j].h)) { auto h = hist; h.push_back(sig[j]); known[out[j].h] = h; queue.push_back(out[j].h); }
         }
         drop(out, sig.size());
         c.transitions += sig.size();
      }
      states = known.size();
   }
   c.count("memory_states", states);
   c.count("memory_transitions", edges);
   c.count("memory_state_space_closed", closed);
   c.states += states;
}

// ---- contexts --------------------------------------------------------------------------------------
struct Fpu { uint32_t mxcsr; uint16_t cw, tag; };
Fpu fpu()
{
   Fpu f;
   struct { uint32_t cw, sw, tag, r[4]; } e;
   asm volatile("fnstenv %0\n fldenv %0" : "+m"(e) :: "memory");
   asm volatile("stmxcsr %0" : "=m"(f.mxcsr));
   f.cw = (uint16_t)e.cw;
   f.tag = (uint16_t)e.tag;
   return f;
}
const char* CTX[] = {"stack filled with 0xff", "stack filled with 0x41", "errno set", "all exception flags raised", "rounding upward", "rounding downward", "rounding to zero", "another thread", "shifted stack"};
const int NCTX = 9;
__attribute__((noinline)) void shifted(const Subject& s, const Point& p, X* o)
{
   volatile char* a = (volatile char*)__builtin_alloca(16*17);
   a[0] = 1;
   X in[2] = {p.a, p.b};
   guarded_call(s, p.n, in, o);
   a[1] = 2;
}
Verdict context(Ctx& c, const Subject& s, const Point& p, int ctx)
{
   Verdict v;
   X o[4] = {0, 0, 0, 0}, q[4] = {0, 0, 0, 0};
   const X in0[2] = {p.a, p.b};
   auto bad = [&](const std::string& m) { v.ok = false; v.msg = std::string(CTX[ctx]) + ": " + m; return v; };
   std::feclearexcept(FE_ALL_EXCEPT);
   ev(s, p, o);
   if (!same_bits(o[2], p.a) || !same_bits(o[3], p.b)) return bad("the argument was modified");
   std::feclearexcept(FE_ALL_EXCEPT);
   const int mode = ctx == 4 ? FE_UPWARD : ctx == 5 ? FE_DOWNWARD : ctx == 6 ? FE_TOWARDZERO : FE_TONEAREST;
   std::fesetround(mode);
   if (ctx == 3) std::feraiseexcept(FE_ALL_EXCEPT);
   const Fpu a = fpu();
   if (ctx == 2) errno = ERANGE;
   if (ctx == 0 || ctx == 1) dirty_call(s, p, ctx == 0 ? 1 : 0, q);
   else if (ctx == 7) { std::thread t([&] { ev(s, p, q); }); t.join(); }
   else if (ctx == 8) shifted(s, p, q);
   else ev(s, p, q);
   const Fpu b = fpu();
   const int flags = std::fetestexcept(FE_ALL_EXCEPT), rm = std::fegetround();
   std::fesetround(FE_TONEAREST);
   std::feclearexcept(FE_ALL_EXCEPT);
   if (rm != mode) return bad("the rounding mode was changed");
   if ((a.mxcsr & ~0x3fu) != (b.mxcsr & ~0x3fu) || a.cw != b.cw) return bad(strf("the floating-point control words were changed: mxcsr %#x -> %#x, x87 %#x -> %#x", a.mxcsr, b.mxcsr, a.cw, b.cw));
   if (b.tag != 0xffff) return bad("the x87 register stack was left non-empty");
   if (ctx == 3 && (flags & FE_ALL_EXCEPT) != FE_ALL_EXCEPT) return bad("raised exception flags were cleared");
   if (!same_bits(q[2], p.a) || !same_bits(q[3], p.b)) return bad("the argument was modified");
   if (ctx >= 4 && ctx <= 6) { ev(s, p, q); } // a later call in the default mode
   if (!same(o, q)) return bad("result " + show(q) + " instead of " + show(o));
   (void)in0;
   (void)c;
   return v;
}

// ---- schedules --------------------------------------------------------------------------------------
struct Acc { uint64_t addr; uint32_t n; uint8_t w, atomic; };
struct Trace { // of one execution, in shared memory
   int npoints;
   struct P { uint8_t chosen, cur, enabled, cur_enabled; } p[8192];
   int overflow;
   char fail[512];
   X out[4][4];
   int finished;
};
struct Sched {
   int T = 0, cur = 0, live = 0;
   pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
   pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
   bool fin[4] = {0, 0, 0, 0};
   void* waits[4] = {0, 0, 0, 0};
   std::map<void*, int> owner;
   typedef std::array<uint32_t, 4> VC;
   VC clk[4];
   std::map<void*, VC> sync;
   struct Cell { VC r, w; uint8_t rat = 0, wat = 0; };
   std::unordered_map<uint64_t, Cell> cells;
   const std::vector<std::pair<size_t, int>>* plan = nullptr; // point -> thread
   Trace* tr = nullptr;
   int streak = 0;
   const std::unordered_set<uint64_t>* shared = nullptr; // cells written by some operation
   std::vector<Acc>* record = nullptr; // classification run
};
Sched* S = nullptr;
thread_local int me = -1;
thread_local char *stk_lo = nullptr, *stk_hi = nullptr;
Segs mseg;

void set_stack()
{
   pthread_attr_t a;
   pthread_getattr_np(pthread_self(), &a);
   void* lo;
   size_t n;
   pthread_attr_getstack(&a, &lo, &n);
   pthread_attr_destroy(&a);
   stk_lo = (char*)lo;
   stk_hi = (char*)lo + n;
}
bool is_shared(char* a)
{
   if (a >= stk_lo && a < stk_hi) return false;
   if (mseg.tls_n) { // thread-local block of this thread
      static thread_local char* t = nullptr;
      if (!t) { Segs x; x.base = mseg.base; dl_iterate_phdr(seg_cb, &x); t = (char*)x.tls; }
      if (t && a >= t && a < t + mseg.tls_n) return false;
   }
   for (auto& r : mseg.all) if (a >= r.first && a < r.first + r.second) {
      for (auto& w : mseg.rw) if (a >= w.first && a < w.first + w.second) return true;
      return false;
   }
   return true; // heap or other memory
}
void fail_sched(const std::string& m)
{
   if (!S->tr->fail[0]) snprintf(S->tr->fail, sizeof S->tr->fail, "%s", m.c_str());
   _exit(0);
}
bool enabled(int t) { return !S->fin[t] && !(S->waits[t] && S->owner.count(S->waits[t])); }
/// decide who runs next; called with the lock held by the running thread
void pick(bool can_continue)
{
   uint8_t en = 0;
   for (int t = 0; t < S->T; ++t) if (enabled(t)) en |= 1 << t;
   if (!can_continue) en &= ~(1 << me);
   if (!en) {
      for (int t = 0; t < S->T; ++t) if (!S->fin[t]) fail_sched("deadlock of concurrent calls");
      return;
   }
   Trace* tr = S->tr;
   int next = me;
   const bool ce = can_continue && (en >> me & 1);
   bool force = !ce;
   if (ce && ++S->streak > 2000) { force = true; en &= ~(1 << me); if (!en) { en = 1 << me; force = false; } S->streak = 0; } // fairness for spinning
   if (force) for (next = 0; !(en >> next & 1); ++next) {}
   const size_t at = tr->npoints;
   if (S->plan) for (auto& x : *S->plan) if (x.first == at && (en >> x.second & 1)) next = x.second;
   if (tr->npoints < 8192) { auto& p = tr->p[tr->npoints++]; p.chosen = next; p.cur = me; p.enabled = en; p.cur_enabled = ce; }
   else tr->overflow = 1;
   if (next != S->cur) S->streak = 0;
   S->cur = next;
   pthread_cond_broadcast(&S->cv);
}
void wait_turn() { while (S->cur != me) pthread_cond_wait(&S->cv, &S->m); }
void yield_point()
{
   pthread_mutex_lock(&S->m);
   pick(true);
   wait_turn();
   pthread_mutex_unlock(&S->m);
}
void join(Sched::VC& a, const Sched::VC& b) { for (int i = 0; i < 4; ++i) a[i] = std::max(a[i], b[i]); }
void h_access(void* a, size_t n, int kind, void*)
{
   if (me < 0 || !S || !is_shared((char*)a)) return;
   const uint64_t c0 = (uint64_t)a, c1 = (uint64_t)a + (n ? n - 1 : 0);
   if (S->record) { S->record->push_back({(uint64_t)a, (uint32_t)n, (uint8_t)((kind & MEM_WRITE) != 0), (uint8_t)((kind & MEM_ATOMIC) != 0)}); return; }
   bool any = (kind & MEM_ATOMIC) != 0;
   for (uint64_t x = c0; x <= c1 && !any; ++x) any = S->shared->count(x);
   if (!any) return;
   yield_point();
   if (kind & MEM_ACQ) { auto it = S->sync.find(a); if (it != S->sync.end()) join(S->clk[me], it->second); }
   for (uint64_t x = c0; x <= c1; ++x) {
      auto& c = S->cells[x];
      for (int t = 0; t < S->T; ++t) {
         if (t == me) continue;
         const bool at = (kind & MEM_ATOMIC) != 0;
         const bool w = c.w[t] > S->clk[me][t] && !(at && (c.wat >> t & 1));
         const bool r = (kind & MEM_WRITE) && c.r[t] > S->clk[me][t] && !(at && (c.rat >> t & 1));
         if (w || r) {
            Dl_info di;
            std::string nm = "memory";
            if (dladdr(a, &di) && di.dli_sname) nm = di.dli_sname;
            fail_sched(strf("data race: unsynchronized accesses of concurrent calls to %s (offset %#llx)", nm.c_str(), (unsigned long long)((char*)a - mseg.base)));
         }
      }
      if (kind & MEM_WRITE) { c.w[me] = S->clk[me][me]; c.wat = (kind & MEM_ATOMIC) ? c.wat | 1 << me : c.wat & ~(1 << me); }
      else { c.r[me] = S->clk[me][me]; c.rat = (kind & MEM_ATOMIC) ? c.rat | 1 << me : c.rat & ~(1 << me); }
   }
}
void h_after(void* a, int kind)
{
   if (me < 0 || !S || S->record) return;
   if ((kind & MEM_REL) && (kind & MEM_WRITE)) { auto& v = S->sync[a]; join(v, S->clk[me]); S->clk[me][me]++; }
}
void h_lock(void* m)
{
   if (me < 0 || !S || S->record) return;
   pthread_mutex_lock(&S->m);
   pick(true);
   wait_turn();
   while (S->owner.count(m)) {
      if (S->owner[m] == me) { pthread_mutex_unlock(&S->m); fail_sched("a lock is taken twice by one call"); }
      S->waits[me] = m;
      pick(false);
      wait_turn();
   }
   S->waits[me] = nullptr;
   S->owner[m] = me;
   join(S->clk[me], S->sync[m]);
   pthread_mutex_unlock(&S->m);
}
int h_trylock(void* m)
{
   if (me < 0 || !S || S->record) return 1;
   yield_point();
   if (S->owner.count(m)) return 0;
   S->owner[m] = me;
   join(S->clk[me], S->sync[m]);
   return 1;
}
void h_unlock(void* m)
{
   if (me < 0 || !S || S->record) return;
   pthread_mutex_lock(&S->m);
   S->owner.erase(m);
   join(S->sync[m], S->clk[me]);
   S->clk[me][me]++;
   pthread_mutex_unlock(&S->m);
   yield_point();
}
int h_gacq(void* g)
{
   if (*(volatile char*)g) { if (me >= 0 && S && !S->record) join(S->clk[me], S->sync[g]); return 0; }
   if (me < 0 || !S || S->record) return 1;
   h_lock((char*)g + 1);
   if (*(volatile char*)g) { join(S->clk[me], S->sync[g]); h_unlock((char*)g + 1); return 0; }
   return 1;
}
void h_grel(void* g, int done)
{
   if (done) *(volatile char*)g = 1;
   if (me < 0 || !S || S->record) return;
   join(S->sync[g], S->clk[me]);
   S->clk[me][me]++;
   h_unlock((char*)g + 1);
}
void h_alloc(void* p, size_t n)
{
   if (me < 0 || !S || S->record) return;
   for (uint64_t x = (uint64_t)p; x < (uint64_t)p + n; ++x) S->cells.erase(x);
}
MemHooks hooks = {h_access, h_after, h_lock, h_trylock, h_unlock, h_gacq, h_grel, h_alloc};

void set_hooks(Ctx& c)
{
   auto f = (void (*)(MemHooks*))dlsym(c.mem.dl, "verif_mem_hooks");
   if (f) f(&hooks);
   mseg = segments(c.mem.dl);
}
/// one execution of concurrent operations; runs in a child process
void execute(Ctx& c, const std::vector<Op>& prog, const std::vector<std::pair<size_t, int>>& plan, const std::unordered_set<uint64_t>& sh, Trace* tr)
{
   static Sched sc;
   S = &sc;
   sc.T = (int)prog.size();
   sc.plan = &plan;
   sc.tr = tr;
   sc.shared = &sh;
   for (int t = 0; t < 4; ++t) { sc.clk[t].fill(0); sc.clk[t][t] = 1; }
   std::vector<std::thread> th;
   sc.cur = -1;
   for (int t = 0; t < sc.T; ++t)
      th.emplace_back([&, t] {
         me = t;
         set_stack();
         pthread_mutex_lock(&sc.m);
         wait_turn();
         pthread_mutex_unlock(&sc.m);
         call(c.mem.s[prog[t].subj], prog[t].p, tr->out[t]);
         pthread_mutex_lock(&sc.m);
         sc.fin[t] = true;
         pick(false);
         pthread_mutex_unlock(&sc.m);
         me = -1;
      });
   pthread_mutex_lock(&sc.m);
   // the first decision: who starts
   me = -1;
   {
      uint8_t en = (1 << sc.T) - 1;
      int next = 0;
      for (auto& x : plan) if (x.first == 0) next = x.second;
      auto& p = tr->p[tr->npoints++];
      p.chosen = next; p.cur = 255; p.enabled = en; p.cur_enabled = 0;
      sc.cur = next;
   }
   pthread_cond_broadcast(&sc.cv);
   pthread_mutex_unlock(&sc.m);
   for (auto& t : th) t.join();
   S = nullptr;
   tr->finished = 1;
}
struct Classified { std::vector<uint64_t> r, w; bool sync = false; };

/// shared memory accessed by an operation when it runs first, and when it runs again
void classify(Ctx& c, const Op& o, std::vector<Acc>& out)
{
   static Sched sc;
   S = &sc;
   sc.record = &out;
   me = 0;
   set_stack();
   X r[4];
   call(c.mem.s[o.subj], o.p, r);
   call(c.mem.s[o.subj], o.p, r);
   me = -1;
   S = nullptr;
}
std::string plan_str(const std::vector<std::pair<size_t, int>>& plan) { std::string s; for (auto& x : plan) s += strf("%zu>%d,", x.first, x.second); return s; }
std::vector<std::pair<size_t, int>> parse_plan(const std::string& s)
{
   std::vector<std::pair<size_t, int>> r;
   size_t i = 0;
   while (i < s.size()) {
      const size_t g = s.find('>', i), k = s.find(',', i);
      if (g == std::string::npos || k == std::string::npos) break;
      r.push_back({(size_t)atol(s.c_str() + i), atoi(s.c_str() + g + 1)});
      i = k + 1;
   }
   return r;
}
/// judge one schedule; the expected results are those of the variant "mem" in a fresh process
std::string judge_schedule(Ctx& c, const std::vector<int>& prog, const std::vector<std::pair<size_t, int>>& plan, const std::unordered_set<uint64_t>& sh, Trace* tr, const Res* expect)
{
   const Alphabet& A = *g_alpha;
   memset((void*)tr, 0, sizeof(int));
   tr->fail[0] = 0;
   tr->finished = 0;
   tr->overflow = 0;
   std::vector<Op> ops;
   for (int i : prog) ops.push_back(A.ops[i]);
   X* after = shared_array<X>(16);
   const int rc = in_child([&] {
      execute(c, ops, plan, sh, tr);
      for (size_t t = 0; t < ops.size(); ++t) call(c.mem.s[ops[t].subj], ops[t].p, after + 4*t); // the state that is left behind
   }, 30);
   std::string m;
   if (tr->fail[0]) m = tr->fail;
   else if (rc) m = rc == -SIGALRM ? "concurrent calls did not return" : strf("crash of concurrent calls (%d)", rc);
   else for (size_t t = 0; t < ops.size() && m.empty(); ++t) {
      if (!same(tr->out[t], expect[t].o)) m = strf("call %zu (%s) returned ", t, show(c, ops[t]).c_str()) + show(tr->out[t]) + " instead of " + show(expect[t].o);
      else if (!same(after + 4*t, expect[t].o)) m = strf("later call (%s) returned ", show(c, ops[t]).c_str()) + show(after + 4*t) + " instead of " + show(expect[t].o);
   }
   drop(after, 16);
   return m;
}
Res mem_fresh(Ctx& c, const Op& o)
{
   Res* r = shared_array<Res>(1);
   in_child([&] { call(c.mem.s[o.subj], o.p, r->o); }, 60);
   const Res x = *r;
   drop(r, 1);
   return x;
}
std::unordered_set<uint64_t> written_cells(Ctx& c, const std::vector<int>& ops)
{
   std::unordered_set<uint64_t> sh;
   for (int i : ops) {
      struct Buf { int n; Acc a[4096]; }* b = shared_array<Buf>(1);
      in_child([&] { std::vector<Acc> v; classify(c, g_alpha->ops[i], v); b->n = (int)std::min<size_t>(4096, v.size()); memcpy((void*)b->a, v.data(), b->n*sizeof(Acc)); }, 60);
      for (int k = 0; k < b->n; ++k) if (b->a[k].w) for (uint64_t x = b->a[k].addr; x < b->a[k].addr + b->a[k].n; ++x) sh.insert(x);
      drop(b, 1);
   }
   return sh;
}

void schedules(Ctx& c)
{
   const Alphabet& A = *g_alpha;
   set_hooks(c);
   const size_t N = A.ops.size();
   // classification: shared memory each operation accesses
   struct Sum { uint32_t shared, writes; uint64_t w[6]; };
   Sum* sum = shared_array<Sum>(N);
   children(8, [&](int w) {
      for (size_t i = w; i < N; i += 8) {
         in_child([&] {
            std::vector<Acc> v;
            classify(c, A.ops[i], v);
            sum[i].shared = (uint32_t)v.size();
            for (auto& a : v) if (a.w || a.atomic) { if (sum[i].writes < 6) sum[i].w[sum[i].writes] = a.addr; sum[i].writes++; }
         }, 60);
      }
   }, [](int, int) {});
   std::vector<int> act; // operations that write shared memory or synchronize
   uint64_t naccess = 0;
   for (size_t i = 0; i < N; ++i) { naccess += sum[i].shared; if (sum[i].writes) act.push_back((int)i); }
   c.count("shared_accesses_of_all_operations", naccess);
   c.count("operations_that_write_shared_memory", act.size());
   // programs: all pairs of operations; pairs without a writer of shared memory have exactly one schedule
   const uint64_t pairs = (uint64_t)N*(N + 1)/2;
   c.count("programs", pairs);
   uint64_t schedules = pairs, programs = 0, capped = 0;
   if (!act.empty()) {
      // representatives: per function, spread over its operations
      std::map<int, std::vector<int>> by;
      for (int i : act) by[A.ops[i].subj].push_back(i);
      std::vector<int> rep;
      const size_t per = std::max<size_t>(2, (c.thorough ? 60 : 16)/by.size());
      for (auto& b : by) for (size_t k = 0; k < std::min(per, b.second.size()); ++k) rep.push_back(b.second[k*b.second.size()/std::min(per, b.second.size())]);
      std::vector<std::vector<int>> progs;
      for (size_t i = 0; i < rep.size(); ++i) for (size_t j = i; j < rep.size(); ++j) progs.push_back({rep[i], rep[j]});
      if (c.thorough) for (size_t i = 0; i < rep.size(); ++i) for (size_t j = 0; j < rep.size(); ++j) progs.push_back({rep[i], rep[j], rep[i]});
      const int bound = c.thorough ? 3 : 2;
      const size_t cap = c.thorough ? 20000 : 1500, total = c.thorough ? 400000 : 20000;
      struct Out { uint64_t schedules; int capped, bad; char msg[1024], plan[512]; };
      Out* out = shared_array<Out>(progs.size());
      uint64_t* used = shared_array<uint64_t>(1);
      children((int)progs.size(), [&](int q) {
         const auto& prog = progs[q];
         if (*used > total) { out[q].capped = 1; return; }
         std::vector<Res> ex;
         for (int i : prog) ex.push_back(mem_fresh(c, A.ops[i]));
         const auto sh = written_cells(c, prog);
         Trace* tr = shared_array<Trace>(1);
         struct Node { std::vector<std::pair<size_t, int>> plan; size_t from; int pre; };
         std::vector<Node> todo = {{{}, 0, 0}};
         while (!todo.empty()) {
            if (out[q].schedules >= cap || *used > total) { out[q].capped = 1; break; }
            const Node nd = todo.back();
            todo.pop_back();
            const std::string m = judge_schedule(c, prog, nd.plan, sh, tr, ex.data());
            out[q].schedules++;
            __sync_fetch_and_add(used, 1);
            if (!m.empty()) {
               out[q].bad = 1;
               snprintf(out[q].msg, sizeof out[q].msg, "%s", m.c_str());
               snprintf(out[q].plan, sizeof out[q].plan, "%s", plan_str(nd.plan).c_str());
               break;
            }
            if (tr->overflow) out[q].capped = 1;
            for (int i = (int)nd.from; i < tr->npoints; ++i)
               for (int t = 0; t < (int)prog.size(); ++t) {
                  const auto& p = tr->p[i];
                  if (!(p.enabled >> t & 1) || t == p.chosen) continue;
                  const int pre = nd.pre + (p.cur_enabled && t != p.cur);
                  if (pre > bound) continue;
                  Node k = nd;
                  k.plan.push_back({(size_t)i, t});
                  k.from = i + 1;
                  k.pre = pre;
                  todo.push_back(k);
               }
         }
         drop(tr, 1);
      }, [](int, int) {}, 800);
      for (size_t q = 0; q < progs.size(); ++q) {
         schedules += out[q].schedules;
         programs++;
         capped += out[q].capped;
         if (out[q].bad && c.nviol < 3) {
            Case k;
            k.subj = A.ops[progs[q][0]].subj;
            k.p = A.ops[progs[q][0]].p;
            k.op = 3;
            k.q = A.ops[progs[q][1]].p;
            for (int i : progs[q]) k.s += strf("%d.", i);
            k.s += std::string(":") + out[q].plan;
            Verdict v;
            v.ok = false;
            v.msg = std::string("concurrent with ") + show(c, A.ops[progs[q][1]]) + ": " + out[q].msg;
            c.report(k, v);
         }
      }
      drop(out, progs.size());
   }
   c.count("schedules", schedules);
   c.count("programs_with_shared_writes_explored", programs);
   c.count("programs_capped", capped);
   c.states += schedules;
   drop(sum, N);
}

// ---- property ----------------------------------------------------------------------------------------
Verdict judge19(Ctx& c, const Case& k)
{
   Verdict v;
   if (k.op == 2) return context(c, c.plain.s[k.subj], k.p, (int)k.q.n % NCTX);
   if (!g_alpha) { g_alpha = new Alphabet; alphabet(c, *g_alpha); }
   const Alphabet& A = *g_alpha;
   if (k.op == 9) { // a single call in a fresh process
      const int r = in_child([&] { X o[4]; call(c.plain.s[k.subj], k.p, o); }, 60);
      if (r) { v.ok = false; v.msg = strf("the call ended with %d", r); }
      return v;
   }
   if (k.op == 1) {
      std::vector<int> w;
      const bool path = k.s.compare(0, 5, "path:") == 0;
      if (path) {
         for (size_t i = 4; i != std::string::npos; i = k.s.find(':', i + 1)) w.push_back(atoi(k.s.c_str() + i + 1));
      } else {
         const size_t a = k.s.find(':'), b = k.s.find(':', a + 1);
         if (a == std::string::npos || b == std::string::npos) return v;
         Seq s = sequence(c, A, k.s.substr(0, a), false);
         long from = atol(k.s.c_str() + a + 1), to = atol(k.s.c_str() + b + 1);
         if (to >= (long)s.w.size() || !(k.p.n == A.ops[s.w[to]].p.n && k.subj == A.ops[s.w[to]].subj)) s = sequence(c, A, k.s.substr(0, a), true);
         if (to >= (long)s.w.size()) return v;
         for (long i = from; i <= to; ++i) w.push_back(s.w[i]);
      }
      fresh_results(c, {w.back()});
      // the last result after the history
      Res* r = shared_array<Res>(1);
      const int rc = in_child([&] { X o[4]; for (size_t i = 0; i + 1 < w.size(); ++i) call(c.plain.s[A.ops[w[i]].subj], A.ops[w[i]].p, o); call(c.plain.s[A.ops[w.back()].subj], A.ops[w.back()].p, r->o); }, 300);
      if (rc || !same(r->o, g_fresh[w.back()].o)) { v.ok = false; v.msg = rc ? strf("crash (%d)", rc) : "result " + show(r->o) + " after the history, " + show(g_fresh[w.back()].o) + " in a fresh process"; }
      return v;
   }
   if (k.op == 3) {
      set_hooks(c);
      const size_t col = k.s.find(':');
      std::vector<int> prog;
      for (size_t i = 0; i < col; i = k.s.find('.', i) + 1) prog.push_back(atoi(k.s.c_str() + i));
      std::vector<Res> ex;
      for (int i : prog) ex.push_back(mem_fresh(c, A.ops[i]));
      Trace* tr = shared_array<Trace>(1);
      const std::string m = judge_schedule(c, prog, parse_plan(k.s.substr(col + 1)), written_cells(c, prog), tr, ex.data());
      if (!m.empty()) { v.ok = false; v.msg = m; }
   }
   return v;
}
void c19(Ctx& c)
{
   g_alpha = new Alphabet;
   alphabet(c, *g_alpha);
   const Alphabet& A = *g_alpha;
   c.count("alphabet", A.ops.size());
   std::vector<int> all;
   for (size_t i = 0; i < A.ops.size(); ++i) all.push_back((int)i);
   if (!fresh_results(c, all)) return;
   c.count("fresh_processes", all.size());
   memory_states(c);
   if (c.nviol < 3) histories(c);
   if (c.nviol < 3) schedules(c);
   if (c.nviol < 3) {
      std::vector<Case> k;
      for (auto& o : A.ops) for (int x = 0; x < NCTX; ++x) {
         if (x == 7 && (&o - &A.ops[0]) % 4) continue; // threads are slow
         Case q;
         q.subj = o.subj; q.p = o.p; q.op = 2; q.q.n = x;
         k.push_back(q);
      }
      judge_all(c, judge19, k);
      c.count("contexts", k.size());
   }
   c.sample("history: " + show(c, A.ops[A.ops.size()/2]) + " -> " + show(c, A.ops[A.ops.size()/3]));
   for (size_t i = 0; i < A.of.size(); i += 9) if (!A.of[i].empty()) c.sample("letter of the alphabet: " + show(c, A.ops[A.of[i][A.of[i].size()/2]]));
}
Reg r19("C19", c19, judge19);
} // namespace
