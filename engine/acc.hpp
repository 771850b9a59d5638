// Accuracy oracle: reference values and error bounds, shared by the accuracy properties.
#pragma once
#include "core.hpp"
#include "ref.hpp"

typedef ref::Q Q;

struct RV {
   bool valid = true; // the reference itself is trustworthy here
   Q re = 0, im = 0;
   Q scale = 0;       // the error bound is tol*eps*scale + tiny
};

/// reference value and scale for a subject at a point (n = effective order)
template <class R> RV ref_value(const Subject& s, int64_t n, const Point& p);
/// tolerance in units of the machine epsilon
double tol_of(const Subject& s, int64_t n, const Point& p);
bool li4_mid(const Point& p);
/// is the point inside the scope of the accuracy statement?
/// the result against the reference; the allowed error is factor*tol_of
Verdict compare(const Subject& s, int64_t n, const Point& p, const X* out, const RV& v, double* units, double factor = 1);
/// deep: also orders below -150, whose computation may overflow
bool in_scope(const Subject& s, int64_t n, const Point& p, bool deep = false);
inline int64_t order_of(const Subject& s, const Point& p) { return s.n ? s.n : p.n; }

Verdict judge_accuracy(Ctx& c, const Case& k);
/// evaluate all points for all subjects (which must share kind, family, precision and order)
void sweep_accuracy(Ctx& c, const std::vector<int>& subj, const std::vector<Point>& pts);
/// lattice + closure for the given subjects
std::vector<Point> explore_points(Ctx& c, const std::vector<int>& subj, const Lattice& l, int64_t n, size_t quota, std::vector<std::pair<Point, Point>>* seams = nullptr, bool with_closure = true);
std::vector<int> select(const Ctx& c, int family, int kind, int prec, int n);
std::vector<X> dict_for(Ctx& c, int prec);
std::vector<X> compared_constants(Ctx& c, const std::vector<int>& subj, int64_t n);
std::vector<int64_t> int_decisions(Ctx& c, const std::vector<int>& subj);
