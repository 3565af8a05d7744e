// Convex polyhedra over integer dimensions in constraint form, with exact rational arithmetic.
#pragma once
#include <gmpxx.h>

#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace vp {

using Q = mpq_class;

// Sparse linear expression: sum of coefficient * dimension, plus a constant. Terms are sorted by dimension, no zeros.
struct Lin {
  std::vector<std::pair<int, Q>> t;
  Q c = 0;
  Lin() = default;
  Lin(long k) : c(k) {}
  static Lin Const(const Q& k) {
    Lin l;
    l.c = k;
    return l;
  }
  static Lin Dim(int d) {
    Lin l;
    l.t.push_back({d, Q(1)});
    return l;
  }
  bool IsConst() const { return t.empty(); }
  Q Coef(int d) const {
    for (auto& [k, v] : t)
      if (k == d) return v;
    return 0;
  }
  Lin Plus(const Lin& o, const Q& f = 1) const {
    Lin r;
    r.c = c + f * o.c;
    size_t i = 0, j = 0;
    while (i < t.size() || j < o.t.size()) {
      if (j == o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.t.push_back(t[i++]);
      else if (i == t.size() || o.t[j].first < t[i].first) {
        r.t.push_back({o.t[j].first, Q(f * o.t[j].second)});
        if (r.t.back().second == 0) r.t.pop_back();
        ++j;
      } else {
        Q v = t[i].second + f * o.t[j].second;
        if (v != 0) r.t.push_back({t[i].first, v});
        ++i, ++j;
      }
    }
    return r;
  }
  Lin operator+(const Lin& o) const { return Plus(o); }
  Lin operator-(const Lin& o) const { return Plus(o, -1); }
  Lin Times(const Q& f) const {
    Lin r;
    if (f == 0) return r;
    r = *this;
    r.c *= f;
    for (auto& x : r.t) x.second *= f;
    return r;
  }
  bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin& o) const { return t != o.t ? t < o.t : c < o.c; }
  std::string Str() const {
    std::string s;
    for (auto& [d, k] : t) s += (s.empty() ? "" : " + ") + (k == 1 ? "" : k.get_str() + "*") + "d" + std::to_string(d);
    if (c != 0 || s.empty()) s += (s.empty() ? "" : " + ") + c.get_str();
    return s;
  }
  // Scales to coprime integer coefficients (not the constant).
  void Primitive() {
    if (t.empty()) return;
    mpz_class l = 1, g = 0;
    for (auto& x : t) l = lcm(l, x.second.get_den());
    for (auto& x : t) g = gcd(g, mpz_class(x.second.get_num() * (l / x.second.get_den())));
    Q f(l, g);
    f.canonicalize();
    c *= f;
    for (auto& x : t) x.second *= f;
  }
};

inline mpz_class FloorQ(const Q& q) {
  mpz_class r;
  mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}

class Poly {
 public:
  bool bottom = false;
  std::map<int, Lin> eq;    // pivot dimension -> expression over non-pivot dimensions
  std::vector<Lin> ge;      // e >= 0, reduced, primitive, integer constants

  Lin Reduce(const Lin& e) const;
  void AddEq(const Lin& e);   // e == 0
  void AddGe(const Lin& e);   // e >= 0
  void AddLe(const Lin& a, const Lin& b) { AddGe(b - a); }
  bool Feasible();            // over the rationals; records bottom
  bool IntegerFeasible(int depth = 10, bool optimistic = true);
  bool HasIntegerPoint() { return IntegerFeasible(12, false); }  // branch and bound, gives up as feasible
  bool EntailsGe(const Lin& e) const;
  bool EntailsEq(const Lin& e) const;
  bool EntailsNe(const Lin& e) const;
  bool MayGe(const Lin& e) const { return !bottom && !EntailsGe(Lin(-1) - e); }
  void Forget(const std::set<int>& keep);
  std::set<int> Dims() const;
  void Minimize();
  bool Includes(const Poly& o) const;  // o is a subset of *this
  static Poly Join(const Poly& a, const Poly& b);
  static Poly Widen(const Poly& a, const Poly& b, const std::vector<Lin>& thresholds);
  std::string Str() const;
  static long lp_calls;

 private:
  mutable std::vector<std::map<int, Q>> models_;
  bool Infeasible(const Lin* extra) const;
  void Eliminate(int d);
};

}  // namespace vp
