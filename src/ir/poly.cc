#include "poly.h"

namespace vp {

long Poly::lp_calls = 0;

Lin Poly::Reduce(const Lin& e) const {
  bool any = false;
  for (auto& x : e.t)
    if (eq.count(x.first)) { any = true; break; }
  if (!any) return e;
  Lin r = Lin::Const(e.c);
  for (auto& [d, k] : e.t) {
    auto it = eq.find(d);
    if (it == eq.end()) r = r.Plus(Lin::Dim(d), k);
    else r = r.Plus(it->second, k);
  }
  return r;
}

void Poly::AddEq(const Lin& e0) {
  if (bottom) return;
  Lin e = Reduce(e0);
  if (e.IsConst()) {
    if (e.c != 0) bottom = true;
    return;
  }
  e.Primitive();
  if (e.c.get_den() != 1) { bottom = true; return; }  // no integer solution
  // Pivot: prefer unit coefficients, then the newest dimension.
  int best = -1;
  bool unit = false;
  for (auto& [d, k] : e.t) {
    bool u = k == 1 || k == -1;
    if (best < 0 || (u && !unit) || (u == unit && d > best)) best = d, unit = u;
  }
  Q k = e.Coef(best);
  Lin rhs;  // best = -(e - k*best)/k
  for (auto& x : e.t)
    if (x.first != best) rhs.t.push_back({x.first, Q(-x.second / k)});
  rhs.c = -e.c / k;
  for (auto& [p, l] : eq) {
    Q f = l.Coef(best);
    if (f != 0) l = l.Plus(Lin::Dim(best), -f).Plus(rhs, f);
  }
  eq[best] = rhs;
  std::vector<Lin> old;
  old.swap(ge);
  models_.clear();
  for (auto& g : old) AddGe(g);
}

void Poly::AddGe(const Lin& e0) {
  if (bottom) return;
  Lin e = Reduce(e0);
  if (e.IsConst()) {
    if (e.c < 0) bottom = true;
    return;
  }
  e.Primitive();
  e.c = Q(FloorQ(e.c));
  for (size_t i = 0; i < ge.size(); ++i) {
    if (ge[i].t == e.t) {
      if (ge[i].c <= e.c) return;
      ge[i] = e;
      models_.clear();
      goto opposite;
    }
  }
  ge.push_back(e);
  {
    std::vector<std::map<int, Q>> keep;
    for (auto& m : models_) {
      Q v = e.c;
      for (auto& [d, k] : e.t)
        if (auto it = m.find(d); it != m.end()) v += k * it->second;
      if (v >= 0) keep.push_back(std::move(m));
    }
    models_.swap(keep);
  }
opposite:
  Lin n = e.Times(-1);
  for (auto& g : ge)
    if (g.t == n.t) {
      // e.t >= -e.c and e.t <= g.c
      if (g.c + e.c < 0) { bottom = true; return; }
      if (g.c + e.c == 0) {
        AddEq(e);
        return;
      }
    }
}

// Phase-one simplex in the style of SMT solvers: one slack row per constraint with a lower bound.
bool Poly::Infeasible(const Lin* extra) const {
  ++lp_calls;
  std::vector<const Lin*> cs;
  for (auto& g : ge) cs.push_back(&g);
  if (extra) cs.push_back(extra);
  std::map<int, int> col;
  for (auto* l : cs)
    for (auto& x : l->t) col.emplace(x.first, 0);
  int n = 0;
  for (auto& [d, i] : col) i = n++;
  int m = cs.size();
  // Variables 0..n-1 original (free), n..n+m-1 slacks (lower bound -c).
  std::vector<std::vector<Q>> T(m, std::vector<Q>(n));
  std::vector<int> basic(m), nonb(n);
  std::vector<Q> val(n + m), low(n + m);
  for (int j = 0; j < n; ++j) nonb[j] = j;
  for (int i = 0; i < m; ++i) {
    basic[i] = n + i;
    low[n + i] = -cs[i]->c;
    for (auto& [d, k] : cs[i]->t) T[i][col[d]] = k;
  }
  // values all zero initially
  for (int iter = 0; iter < 5000; ++iter) {
    int r = -1;
    for (int i = 0; i < m; ++i)
      if (basic[i] >= n && val[basic[i]] < low[basic[i]] && (r < 0 || basic[i] < basic[r])) r = i;
    if (r < 0) {
      std::map<int, Q> mod;
      for (auto& [d, j] : col) mod[d] = val[j];
      if (models_.size() < 12) models_.push_back(std::move(mod));
      return false;
    }
    // Increase basic[r] to its bound.
    int s = -1;
    for (int j = 0; j < n; ++j) {
      if (T[r][j] == 0) continue;
      int v = nonb[j];
      bool ok = v < n /*free*/ || T[r][j] > 0 || val[v] > low[v];
      if (ok && (s < 0 || v < nonb[s])) s = j;
    }
    if (s < 0) return true;
    Q a = T[r][s];
    Q delta = low[basic[r]] - val[basic[r]];
    Q theta = delta / a;
    val[basic[r]] = low[basic[r]];
    val[nonb[s]] += theta;
    for (int i = 0; i < m; ++i)
      if (i != r && T[i][s] != 0) val[basic[i]] += T[i][s] * theta;
    // pivot
    std::swap(basic[r], nonb[s]);
    Q inv = 1 / a;
    for (int j = 0; j < n; ++j)
      if (j != s && T[r][j] != 0) T[r][j] *= -inv;
    T[r][s] = inv;
    for (int i = 0; i < m; ++i) {
      if (i == r || T[i][s] == 0) continue;
      Q f = T[i][s];
      T[i][s] = 0;
      for (int j = 0; j < n; ++j)
        if (T[r][j] != 0) T[i][j] += f * T[r][j];
    }
  }
  return false;  // gave up: treat as feasible
}

bool Poly::Feasible() {
  if (bottom) return false;
  if (!models_.empty()) return true;
  if (Infeasible(nullptr)) bottom = true;
  return !bottom;
}

bool Poly::IntegerFeasible(int depth, bool optimistic) {
  if (!Feasible()) return false;
  if (models_.empty() && Infeasible(nullptr)) return false;
  if (models_.empty() || depth == 0) return optimistic;
  std::map<int, Q> m = models_.back();
  int frac = -1;
  for (auto& [d, v] : m)
    if (v.get_den() != 1) { frac = d; break; }
  Lin expr;
  if (frac >= 0) {
    expr = Lin::Dim(frac);
  } else {
    // pivots must be integers too
    for (auto& [d, l] : eq) {
      Q v = l.c;
      for (auto& [x, k] : l.t) {
        auto it = m.find(x);
        if (it != m.end()) v += k * it->second;
      }
      if (v.get_den() != 1) { expr = l; m[d] = v; frac = d; break; }
    }
    if (frac < 0) return true;
  }
  Q v = m[frac];
  mpz_class fl = FloorQ(v);
  // expr <= floor or expr >= floor + 1; with rational coefficients scale is kept as is
  Poly lo = *this, hi = *this;
  lo.models_.clear();
  hi.models_.clear();
  lo.AddGe(Lin::Const(Q(fl)) - expr);
  if (lo.IntegerFeasible(depth - 1, optimistic)) return true;
  hi.AddGe(expr - Lin::Const(Q(fl + 1)));
  return hi.IntegerFeasible(depth - 1, optimistic);
}

bool Poly::EntailsGe(const Lin& e0) const {
  if (bottom) return true;
  Lin e = Reduce(e0);
  if (e.IsConst()) return e.c >= 0;
  e.Primitive();
  e.c = Q(FloorQ(e.c));
  for (auto& g : ge)
    if (g.t == e.t && g.c <= e.c) return true;
  for (auto& m : models_) {
    Q v = e.c;
    for (auto& [d, k] : e.t)
      if (auto it = m.find(d); it != m.end()) v += k * it->second;
    if (v <= -1) return false;
  }
  Lin neg = e.Times(-1);
  neg.c -= 1;
  return Infeasible(&neg);
}

bool Poly::EntailsEq(const Lin& e0) const {
  if (bottom) return true;
  Lin e = Reduce(e0);
  if (e.IsConst()) return e.c == 0;
  return EntailsGe(e) && EntailsGe(e.Times(-1));
}

bool Poly::EntailsNe(const Lin& e0) const {
  if (bottom) return true;
  Lin e = Reduce(e0);
  if (e.IsConst()) return e.c != 0;
  Lin p = e;
  p.Primitive();
  if (p.c.get_den() != 1) return true;
  return EntailsGe(p - Lin(1)) || EntailsGe(Lin(-1) - p);
}

std::set<int> Poly::Dims() const {
  std::set<int> s;
  for (auto& [d, l] : eq) {
    s.insert(d);
    for (auto& x : l.t) s.insert(x.first);
  }
  for (auto& l : ge)
    for (auto& x : l.t) s.insert(x.first);
  return s;
}

void Poly::Minimize() {
  if (bottom) return;
  for (size_t i = ge.size(); i-- > 0;) {
    Lin e = ge[i];
    std::vector<Lin> save = ge;
    ge.erase(ge.begin() + i);
    auto ms = models_;
    if (!EntailsGe(e)) ge = save;
    else (void)ms;
  }
}

void Poly::Eliminate(int d) {
  // d occurs in inequalities only.
  std::vector<Lin> pos, neg, rest;
  for (auto& g : ge) {
    Q k = g.Coef(d);
    (k > 0 ? pos : k < 0 ? neg : rest).push_back(g);
  }
  ge = rest;
  models_.clear();
  bool big = pos.size() * neg.size() > 4;
  for (auto& p : pos)
    for (auto& q : neg) AddGe(p.Times(-q.Coef(d)).Plus(q.Times(p.Coef(d))));
  if (big || ge.size() > 24) Minimize();
}

void Poly::Forget(const std::set<int>& keep) {
  if (bottom) return;
  for (int guard = 0; guard < 1000; ++guard) {
    if (bottom) return;
    // Pivots that can go: drop their row.
    for (auto it = eq.begin(); it != eq.end();)
      if (!keep.count(it->first)) it = eq.erase(it);
      else ++it;
    // A dimension to remove that occurs in some equality: make it the pivot, then drop it.
    int d = -1;
    for (auto& [p, l] : eq) {
      for (auto& x : l.t)
        if (!keep.count(x.first)) { d = x.first; break; }
      if (d >= 0) {
        Lin e = l - Lin::Dim(p);
        Q k = e.Coef(d);
        Lin rhs;
        for (auto& x : e.t)
          if (x.first != d) rhs.t.push_back({x.first, Q(-x.second / k)});
        rhs.c = -e.c / k;
        int piv = p;
        eq.erase(piv);
        for (auto& [p2, l2] : eq) {
          Q f = l2.Coef(d);
          if (f != 0) l2 = l2.Plus(Lin::Dim(d), -f).Plus(rhs, f);
        }
        std::vector<Lin> old;
        old.swap(ge);
        models_.clear();
        for (auto& g : old) {
          Q f = g.Coef(d);
          Lin n = f != 0 ? g.Plus(Lin::Dim(d), -f).Plus(rhs, f) : g;
          AddGe(n);
        }
        break;
      }
    }
    if (d >= 0) continue;
    for (auto& g : ge)
      for (auto& x : g.t)
        if (!keep.count(x.first) && d < 0) d = x.first;
    if (d < 0) return;
    // choose the cheapest
    int best = d;
    long cost = 1 << 30;
    std::set<int> cand;
    for (auto& g : ge)
      for (auto& x : g.t)
        if (!keep.count(x.first)) cand.insert(x.first);
    for (int c : cand) {
      long p = 0, n = 0;
      for (auto& g : ge) {
        Q k = g.Coef(c);
        if (k > 0) ++p;
        if (k < 0) ++n;
      }
      if (p * n - p - n < cost) cost = p * n - p - n, best = c;
    }
    Eliminate(best);
  }
}

bool Poly::Includes(const Poly& o) const {
  if (o.bottom) return true;
  if (bottom) return false;
  for (auto& [d, l] : eq)
    if (!o.EntailsEq(l - Lin::Dim(d))) return false;
  for (auto& g : ge)
    if (!o.EntailsGe(g)) return false;
  return true;
}

// Affine hull of the two equality systems (both as sets of e == 0), by the standard matrix construction: combine
// x = x1 + x2 with lambda-scaled homogenisations is avoided by the simpler row method of Karr.
static std::vector<Lin> AffineHull(const Poly& a, const Poly& b) {
  // Represent each affine space by a point and generators over the joint dimension set.
  std::set<int> ds = a.Dims();
  for (int d : b.Dims()) ds.insert(d);
  std::vector<int> dims(ds.begin(), ds.end());
  std::map<int, int> ix;
  for (size_t i = 0; i < dims.size(); ++i) ix[dims[i]] = i;
  size_t n = dims.size();
  auto gens = [&](const Poly& p, std::vector<Q>* point) {
    std::vector<std::vector<Q>> g;
    point->assign(n, Q(0));
    for (size_t i = 0; i < n; ++i) {
      int d = dims[i];
      if (auto it = p.eq.find(d); it != p.eq.end()) {
        (*point)[i] = it->second.c;
      } else {
        std::vector<Q> v(n);
        v[i] = 1;
        for (auto& [pd, l] : p.eq) {
          Q k = l.Coef(d);
          if (k != 0) v[ix[pd]] = k;
        }
        g.push_back(std::move(v));
      }
    }
    return g;
  };
  std::vector<Q> pa, pb;
  auto ga = gens(a, &pa), gb = gens(b, &pb);
  std::vector<std::vector<Q>> rows = ga;
  for (auto& g : gb) rows.push_back(g);
  std::vector<Q> diff(n);
  for (size_t i = 0; i < n; ++i) diff[i] = pb[i] - pa[i];
  rows.push_back(diff);
  // Row echelon of the direction space.
  std::vector<int> piv;
  size_t r = 0;
  for (size_t c = 0; c < n && r < rows.size(); ++c) {
    size_t s = r;
    while (s < rows.size() && rows[s][c] == 0) ++s;
    if (s == rows.size()) continue;
    std::swap(rows[s], rows[r]);
    Q inv = 1 / rows[r][c];
    for (auto& x : rows[r])
      if (x != 0) x *= inv;
    for (size_t i = 0; i < rows.size(); ++i)
      if (i != r && rows[i][c] != 0) {
        Q f = rows[i][c];
        for (size_t j = 0; j < n; ++j)
          if (rows[r][j] != 0) rows[i][j] -= f * rows[r][j];
      }
    piv.push_back(c);
    ++r;
  }
  // Orthogonal complement: for each non-pivot column f: x_f - sum_r rows[r][f] * x_piv(r) is constant.
  std::set<int> ps(piv.begin(), piv.end());
  std::vector<Lin> out;
  for (size_t f = 0; f < n; ++f) {
    if (ps.count(f)) continue;
    Lin e = Lin::Dim(dims[f]);
    Q k = pa[f];
    for (size_t i = 0; i < r; ++i)
      if (rows[i][f] != 0) {
        e = e.Plus(Lin::Dim(dims[piv[i]]), -rows[i][f]);
        k -= rows[i][f] * pa[piv[i]];
      }
    e.c = -k;
    out.push_back(e);
  }
  return out;
}

static std::vector<Lin> Candidates(const Poly& p) {
  std::vector<Lin> out = p.ge;
  for (auto& [d, l] : p.eq) {
    Lin e = l - Lin::Dim(d);
    out.push_back(e);
    out.push_back(e.Times(-1));
  }
  return out;
}

Poly Poly::Join(const Poly& a, const Poly& b) {
  if (a.bottom) return b;
  if (b.bottom) return a;
  Poly r;
  for (auto& e : AffineHull(a, b)) r.AddEq(e);
  std::vector<Lin> keep;
  auto ca = Candidates(a), cb = Candidates(b);
  auto relax = [&](const std::vector<Lin>& from, const Poly& other) {
    for (auto& c : from) {
      if (other.EntailsGe(c)) { keep.push_back(c); continue; }
      // The same direction with the weaker of two constant bounds.
      Lin e = other.Reduce(c);
      if (e.IsConst() && e.c < 0) {
        Lin k = c;
        k.c -= e.c;
        keep.push_back(k);
        continue;
      }
      Lin p = e;
      p.Primitive();
      for (auto& g : other.ge)
        if (g.t == p.t && !e.t.empty()) {
          // g: p.t + g.c >= 0 -> p.t >= -g.c
          Q scale = e.t[0].second / p.t[0].second;
          // e = scale*(p.t) + e.c >= -scale*g.c + e.c
          Lin k = c;
          k.c -= (e.c - scale * g.c);
          keep.push_back(k);
          break;
        }
    }
  };
  relax(ca, b);
  relax(cb, a);
  for (auto& k : keep) r.AddGe(k);
  if (r.ge.size() > 16) r.Minimize();
  return r;
}

Poly Poly::Widen(const Poly& a, const Poly& b, const std::vector<Lin>& thresholds) {
  if (a.bottom) return b;
  if (b.bottom) return a;
  Poly r;
  for (auto& e : AffineHull(a, b)) r.AddEq(e);
  for (auto& c : Candidates(a))
    if (b.EntailsGe(c)) r.AddGe(c);
  for (auto& c : thresholds)
    if (a.EntailsGe(c) && b.EntailsGe(c)) r.AddGe(c);
  return r;
}

std::string Poly::Str() const {
  if (bottom) return "bottom";
  std::string s;
  for (auto& [d, l] : eq) s += "d" + std::to_string(d) + " = " + l.Str() + "; ";
  for (auto& g : ge) s += g.Str() + " >= 0; ";
  return s;
}

}  // namespace vp
