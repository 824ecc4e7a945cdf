// Exact feasibility of a conjunction of linear inequalities over the rationals
// (general simplex with bounds, Bland's rule).  Used by the relational domain
// to decide entailment between linear inequalities.
#pragma once
#include <gmpxx.h>
#include <map>
#include <vector>

namespace vf {
using Q = mpq_class;
using Z = mpz_class;

// sum(c_i * x_i) + k
struct Lin {
  std::map<int, Z> c;
  Z k = 0;
  Lin() {}
  explicit Lin(const Z &_k) : k(_k) {}
  static Lin atom(int a) {
    Lin l;
    l.c[a] = 1;
    return l;
  }
  bool isConst() const { return c.empty(); }
  Lin &add(const Lin &o, const Z &f) {
    for (auto &[a, v] : o.c) {
      Z &x = c[a];
      x += v * f;
      if (x == 0)
        c.erase(a);
    }
    k += o.k * f;
    return *this;
  }
  Lin operator+(const Lin &o) const { return Lin(*this).add(o, 1); }
  Lin operator-(const Lin &o) const { return Lin(*this).add(o, -1); }
  Lin scaled(const Z &f) const {
    Lin r;
    return r.add(*this, f);
  }
  bool operator==(const Lin &o) const { return k == o.k && c == o.c; }
  bool operator<(const Lin &o) const {
    if (k != o.k)
      return k < o.k;
    return c < o.c;
  }
};

// Feasibility of { l <= 0 for l in le } with lo<=x<=hi bounds.
struct LP {
  struct Bound {
    bool hasLo = false, hasHi = false;
    Q lo, hi;
    int loId = -1, hiId = -1; // the constraints they come from
  };
  std::vector<int> core; // constraints of the contradiction
  void explain(int x, std::vector<int> &out) {
    if (b[x].loId >= 0)
      out.push_back(b[x].loId);
    if (b[x].hiId >= 0)
      out.push_back(b[x].hiId);
  }
  std::vector<Bound> b;                  // per variable
  std::vector<std::map<int, Q>> rows;    // basic = sum
  std::vector<int> basicOf;              // row -> var
  std::vector<int> rowOf;                // var -> row or -1
  std::vector<Q> val;
  bool conflict = false;
  long pivots = 0;

  int newVar() {
    b.emplace_back();
    val.emplace_back(0);
    rowOf.push_back(-1);
    return (int)b.size() - 1;
  }
  void clash(int x) {
    if (b[x].hasLo && b[x].hasHi && b[x].hi < b[x].lo && !conflict) {
      conflict = true;
      explain(x, core);
    }
  }
  void setLo(int x, const Q &v, int id = -1) {
    if (!b[x].hasLo || b[x].lo < v) {
      b[x].hasLo = true;
      b[x].lo = v;
      b[x].loId = id;
    }
    clash(x);
  }
  void setHi(int x, const Q &v, int id = -1) {
    if (!b[x].hasHi || b[x].hi > v) {
      b[x].hasHi = true;
      b[x].hi = v;
      b[x].hiId = id;
    }
    clash(x);
  }
  // adds sum(row)<=bound ; row over original vars
  void addLe(const std::map<int, Q> &row, const Q &bound, int id = -1) {
    if (row.empty()) {
      if (bound < 0) {
        conflict = true;
        core.push_back(id);
      }
      return;
    }
    if (row.size() == 1) {
      auto &[x, c] = *row.begin();
      if (c > 0)
        setHi(x, bound / c, id);
      else
        setLo(x, bound / c, id);
      return;
    }
    int s = newVar();
    rows.push_back(row);
    basicOf.push_back(s);
    rowOf[s] = (int)rows.size() - 1;
    setHi(s, bound, id);
  }
  bool feasible(long maxPivots = 3000) {
    if (conflict)
      return false;
    int n = (int)b.size();
    // non basic variables at a bound
    for (int x = 0; x < n; ++x)
      if (rowOf[x] < 0) {
        if (b[x].hasLo)
          val[x] = b[x].lo;
        else if (b[x].hasHi)
          val[x] = b[x].hi;
        else
          val[x] = 0;
      }
    for (size_t r = 0; r < rows.size(); ++r) {
      Q v = 0;
      for (auto &[x, c] : rows[r])
        v += c * val[x];
      val[basicOf[r]] = v;
    }
    while (true) {
      if (++pivots > maxPivots)
        return true; // give up: "maybe feasible"
      // Bland: smallest violating basic variable
      int bx = -1, br = -1;
      bool low = false;
      for (size_t r = 0; r < rows.size(); ++r) {
        int x = basicOf[r];
        bool vl = b[x].hasLo && val[x] < b[x].lo;
        bool vh = b[x].hasHi && val[x] > b[x].hi;
        if ((vl || vh) && (bx < 0 || x < bx)) {
          bx = x;
          br = (int)r;
          low = vl;
        }
      }
      if (bx < 0)
        return true;
      int ent = -1;
      for (auto &[y, c] : rows[br]) {
        bool up = (c > 0) == low; // must y increase?
        bool ok = up ? !(b[y].hasHi && val[y] >= b[y].hi)
                     : !(b[y].hasLo && val[y] <= b[y].lo);
        if (ok) {
          ent = y;
          break; // map is sorted: smallest index
        }
      }
      if (ent < 0) {
        explain(bx, core);
        for (auto &[y, c] : rows[br])
          explain(y, core);
        return false;
      }
      Q target = low ? b[bx].lo : b[bx].hi;
      Q a = rows[br][ent];
      Q delta = (target - val[bx]) / a;
      // update values
      val[bx] = target;
      val[ent] += delta;
      for (size_t r = 0; r < rows.size(); ++r)
        if ((int)r != br) {
          auto it = rows[r].find(ent);
          if (it != rows[r].end())
            val[basicOf[r]] += it->second * delta;
        }
      // pivot: ent = (bx - sum others)/a
      std::map<int, Q> nr;
      Q inv = 1 / a;
      nr[bx] = inv;
      for (auto &[y, c] : rows[br])
        if (y != ent)
          nr[y] = -c * inv;
      for (size_t r = 0; r < rows.size(); ++r)
        if ((int)r != br) {
          auto it = rows[r].find(ent);
          if (it == rows[r].end())
            continue;
          Q f = it->second;
          rows[r].erase(it);
          for (auto &[y, c] : nr) {
            Q &t = rows[r][y];
            t += f * c;
            if (t == 0)
              rows[r].erase(y);
          }
        }
      rows[br] = std::move(nr);
      basicOf[br] = ent;
      rowOf[ent] = br;
      rowOf[bx] = -1;
    }
  }
};
} // namespace vf
