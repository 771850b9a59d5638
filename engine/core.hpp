// Explorer core: subjects, input lattices, comparison-guided closure, parallel enumeration,
// watchdog / crash capture, violations.
#pragma once
#include "subj.h"
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <string>
#include <vector>

struct Point {
   int64_t n = 0;
   X a = 0, b = 0;
};

/// one thing that is judged: a subject at a point, possibly with a second point / operation tag
struct Case {
   int subj = -1;
   Point p, q;
   int op = 0;
   std::string s; // free-form (histories, schedules)
};

struct Variant {
   void* dl = nullptr;
   std::vector<Subject> s;
   void (*trace_begin)(TraceBuf*) = nullptr;
   void (*trace_end)() = nullptr;
};

struct Verdict {
   bool ok = true;
   std::string msg; // what was observed / expected
   std::string key; // known-findings key, if the failure matches a described finding
   double units = 0; // observed deviation in machine epsilons of the scale, for the statistics
   bool skipped = false; // outside the scope of the statement
};

// ---- precision helpers ---------------------------------------------------------------------
inline X eps_of(int prec) { return prec == P32 ? (X)1.1920928955078125e-07f : prec == P64 ? (X)2.220446049250313e-16 : std::numeric_limits<X>::epsilon(); }
inline X max_of(int prec) { return prec == P32 ? (X)std::numeric_limits<float>::max() : prec == P64 ? (X)std::numeric_limits<double>::max() : std::numeric_limits<X>::max(); }
inline X min_of(int prec) { return prec == P32 ? (X)std::numeric_limits<float>::min() : prec == P64 ? (X)std::numeric_limits<double>::min() : std::numeric_limits<X>::min(); }
inline X dmin_of(int prec) { return prec == P32 ? (X)std::numeric_limits<float>::denorm_min() : prec == P64 ? (X)std::numeric_limits<double>::denorm_min() : std::numeric_limits<X>::denorm_min(); }
inline int emin_of(int prec) { return prec == P32 ? -149 : prec == P64 ? -1074 : -16445; }
inline int emax_of(int prec) { return prec == P32 ? 127 : prec == P64 ? 1023 : 16383; }
inline X rnd(int prec, X x) { return prec == P32 ? (X)(float)x : prec == P64 ? (X)(double)x : x; }
X step(X x, int prec, int k); // k ulps away
bool rep_finite(int prec, X x);
inline bool same_bits(X a, X b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
std::string hexs(X x);
std::string decs(X x);
X parse_hex(const std::string& s);

// ---- lattices -------------------------------------------------------------------------------
typedef std::vector<Point> Line; // consecutive points are neighbours
struct Lattice {
   std::vector<Line> lines;
   size_t count() const { size_t c = 0; for (auto& l : lines) c += l.size(); return c; }
};
Lattice real_lattice(int prec, int density, const std::vector<X>& dict);
Lattice angle_lattice(int prec, int density, const std::vector<X>& dict);
Lattice complex_lattice(int prec, int density, const std::vector<X>& dict);
std::vector<X> special_values(int prec);

/// constants stored in the read-only data of the library under test
std::vector<X> rodata_constants(const std::string& so, int prec, X lo, X hi);

/// comparison-guided closure: for every decision of the implementation that changes between
/// neighbouring lattice points, the pair of adjacent floating-point numbers at which it
/// changes (and +-1 ulp around them), plus the constants the implementation compares with.
struct ClosureStats {
   size_t traced = 0, boundaries = 0, decisions = 0, minima = 0, points = 0;
   std::vector<int64_t> ints;                        // integers compared with
   std::vector<std::pair<Point, Point>> pairs;       // adjacent points on both sides of a seam
};
void closure(const Variant& tv, int subj, const Lattice& l, std::vector<Point>& out, ClosureStats& st, size_t quota);

// ---- context ---------------------------------------------------------------------------------
struct Ctx {
   std::string prop, tier = "quick";
   bool thorough = false;
   Variant plain, trace, ub, mem;
   std::vector<Variant> builds; // other compilers and options
   std::vector<std::string> build_names;
   std::string plain_path;
   // measured coverage
   std::atomic<uint64_t> states{0}, transitions{0}, judged{0}, q_escalations{0};
   std::map<std::string, uint64_t> counters;
   std::vector<std::string> samples;
   std::mutex mtx;
   std::vector<std::pair<Case, Verdict>> viol;
   struct Known { uint64_t count = 0; std::string example; Case c; };
   std::map<std::string, Known> known;
   std::map<std::string, double> worst;
   std::atomic<int> nviol{0};
   void count(const std::string& k, uint64_t v) { std::lock_guard<std::mutex> g(mtx); counters[k] += v; }
   void sample(const std::string& s) { std::lock_guard<std::mutex> g(mtx); if (samples.size() < 40) samples.push_back(s); }
   void report(const Case& c, const Verdict& v);
   void worse(const std::string& k, double v) { std::lock_guard<std::mutex> g(mtx); double& w = worst[k]; if (v > w) w = v; }
};

/// call a subject while publishing it to the watchdog / crash handler
void guarded_call(const Subject& s, int64_t n, const X* in, X* out);
/// run f, which calls the subject in another way
void guarded_run(const Subject& s, int64_t n, X a, X b, const std::function<void()>& f);
/// like guarded_call, short form
inline void ev(const Subject& s, const Point& p, X* out)
{
   X in[2] = {p.a, p.b};
   guarded_call(s, p.n, in, out);
}
void parallel(size_t n, const std::function<void(size_t, size_t)>& f); // f(begin, end), chunked

typedef Verdict (*Judge)(Ctx&, const Case&);
struct Prop {
   const char* id;
   void (*explore)(Ctx&);
   Judge judge;
};
std::vector<Prop>& props();
struct Reg { Reg(const char* id, void (*e)(Ctx&), Judge j) { props().push_back({id, e, j}); } };

/// judge all cases in parallel, recording violations
void judge_all(Ctx& c, Judge j, const std::vector<Case>& cases);
uint64_t calls_made(); // calls of functions under test so far
std::string describe(const Ctx& c, const Case& k);
std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
