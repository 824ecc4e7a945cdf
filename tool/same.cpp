// Equality of values: every value of the function is given a normal form (a
// hash-consed term), and two values are the same when their normal forms are.
//   - integers are sums of terms with coefficients, or sequences of bytes of
//     loads: how the bytes are put together does not matter;
//   - the choices between values (phi, select, switch) are decision diagrams
//     over the conditions of the program: how the tests are written does not
//     matter either;
//   - a load is its address and the access that last wrote it (memory SSA);
//   - a value of a loop, or of the environment, stands for itself.
#include "same.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Passes/PassBuilder.h"
#include <algorithm>
#include <optional>
namespace vf {
namespace {
struct Term {
  std::string op;
  unsigned w = 0; // width in bits, 0: none
  std::vector<const Term *> args;
  APInt k{64, 0};
  unsigned id = 0;
};
using T = const Term *;

struct Engine {
  Function &F;
  const DataLayout &DL;
  DominatorTree DT;
  LoopInfo LI;
  MemorySSA *MSSA;
  AAResults *AA;
  std::map<std::string, std::unique_ptr<Term>> pool;
  std::map<std::pair<Value *, int>, T> memo;
  std::map<std::pair<BasicBlock *, BasicBlock *>, bool> reach;
  std::map<T, Value *> vals;        // the values that stand for themselves
  std::map<T, MemoryAccess *> accs; // the loads, and what they read from
  unsigned work = 0, limit = 3000000;

  Engine(Function &f, MemorySSA *m, AAResults *a) : F(f), DL(f.getParent()->getDataLayout()), DT(f), LI(DT), MSSA(m), AA(a) {}

  // --- terms
  T mk(const std::string &op, unsigned w, std::vector<T> args = {}, APInt k = APInt(64, 0)) {
    std::string key = op + "/" + std::to_string(w);
    for (auto a : args)
      key += "," + std::to_string(a->id);
    SmallString<40> ks;
    k.toString(ks, 16, false);
    key += "#" + ks.str().str() + ":" + std::to_string(k.getBitWidth());
    auto &p = pool[key];
    if (!p) {
      p = std::make_unique<Term>();
      p->op = op;
      p->w = w;
      p->args = std::move(args);
      p->k = k;
      p->id = pool.size();
    }
    return p.get();
  }
  T bot() { return mk("bot", 0); }
  T cst(APInt v) { return mk("const", v.getBitWidth(), {}, v); }
  T cst(unsigned w, uint64_t v) { return cst(APInt(w, v)); }
  static bool isC(T t) { return t->op == "const"; }
  bool isC(T t, uint64_t v) { return isC(t) && t->k == v; }

  // --- bytes, the least significant first
  std::vector<T> bytes(T t) {
    unsigned n = t->w / 8;
    if (t->op == "cat")
      return t->args;
    std::vector<T> r;
    for (unsigned i = 0; i < n; ++i)
      r.push_back(isC(t) ? cst(t->k.extractBits(8, 8 * i)) : n == 1 ? t : mk("byte", 8, {t}, APInt(64, i)));
    return r;
  }
  T cat(const std::vector<T> &b) {
    unsigned w = 8 * b.size();
    if (b.size() == 1)
      return b[0];
    bool c = true;
    for (auto x : b)
      c &= isC(x);
    if (c) {
      APInt v(w, 0);
      for (unsigned i = 0; i < b.size(); ++i)
        v.insertBits(b[i]->k, 8 * i);
      return cst(v);
    }
    if (b[0]->op == "byte" && b[0]->k == 0 && b[0]->args[0]->w == w) {
      bool all = true;
      for (unsigned i = 0; i < b.size(); ++i)
        all &= b[i]->op == "byte" && b[i]->args[0] == b[0]->args[0] && b[i]->k == i;
      if (all)
        return b[0]->args[0];
    }
    // the first byte of a sum is a sum of bytes
    if (b[1]->op == "byte" && b[1]->k == 1 && b[1]->args[0]->w == w && b[1]->args[0]->op == "lin") {
      T t = b[1]->args[0];
      bool all = leaf("trunc", 8, {t}, APInt(64, 0)) == b[0];
      for (unsigned i = 1; i < b.size() && all; ++i)
        all &= b[i]->op == "byte" && b[i]->args[0] == t && b[i]->k == i;
      if (all)
        return t;
    }
    return mk("cat", w, b);
  }
  // --- sums
  using Lin = std::pair<APInt, std::map<T, APInt>>;
  Lin lin(T t) {
    if (isC(t))
      return {t->k, {}};
    if (t->op == "lin") {
      Lin l{t->k, {}};
      for (size_t i = 0; i < t->args.size(); i += 2)
        l.second.emplace(t->args[i], t->args[i + 1]->k);
      return l;
    }
    return {APInt(t->w, 0), {{t, APInt(t->w, 1)}}};
  }
  T unlin(const Lin &l, unsigned w) {
    std::vector<std::pair<T, APInt>> v;
    for (auto &[t, c] : l.second)
      if (!c.isZero())
        v.push_back({t, c});
    if (v.empty())
      return cst(l.first);
    if (v.size() == 1 && v[0].second == 1 && l.first.isZero())
      return v[0].first;
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
    std::vector<T> as;
    for (auto &[t, c] : v) {
      as.push_back(t);
      as.push_back(cst(c));
    }
    return mk("lin", w, as, l.first);
  }
  T add(T a, T b, bool sub = false) {
    Lin x = lin(a), y = lin(b);
    x.first = sub ? x.first - y.first : x.first + y.first;
    for (auto &[t, c] : y.second) {
      auto it = x.second.emplace(t, APInt(a->w, 0)).first;
      it->second = sub ? it->second - c : it->second + c;
    }
    return unlin(x, a->w);
  }
  T scale(T a, APInt k) {
    Lin x = lin(a);
    x.first *= k;
    for (auto &[t, c] : x.second)
      c *= k;
    return unlin(x, a->w);
  }
  // --- decision diagrams: ("ite", atom, yes, no), the atoms in order
  static T top(T t) { return t->op == "ite" ? t->args[0] : nullptr; }
  T yes(T t, T a) { return top(t) == a ? t->args[1] : t; }
  T no(T t, T a) { return top(t) == a ? t->args[2] : t; }
  std::map<std::tuple<T, T, bool>, T> condMemo;
  // t, knowing that the atom a is v
  T under(T t, T a, bool v) {
    if (t->op != "ite")
      return t;
    auto key = std::make_tuple(t, a, v);
    auto it = condMemo.find(key);
    if (it != condMemo.end())
      return it->second;
    T x = t->args[0], r = nullptr;
    if (x == a)
      r = under(v ? t->args[1] : t->args[2], a, v);
    else {
      auto f = implied(x, a, v);
      if (f)
        r = under(*f ? t->args[1] : t->args[2], a, v);
      else
        r = node(x, under(t->args[1], a, v), under(t->args[2], a, v));
    }
    return condMemo[key] = r;
  }
  static bool unsignedCmp(T x, T &e, APInt &k) {
    if (x->op == "eq" && isC(x->args[1])) {
      e = x->args[0];
      k = x->args[1]->k;
      return true;
    }
    return false;
  }
  // The value of the atom x when the atom a is v
  std::optional<bool> implied(T x, T a, bool v) {
    auto rng = [&](T c, bool val, T &e, ConstantRange &R) {
      if (c->args.size() != 2)
        return false;
      bool k1 = isC(c->args[1]), k0 = isC(c->args[0]);
      if (!k1 && !k0)
        return false;
      e = k1 ? c->args[0] : c->args[1];
      auto P = c->op == "eq" ? CmpInst::ICMP_EQ : c->op == "ult" ? CmpInst::ICMP_ULT : c->op == "slt" ? CmpInst::ICMP_SLT : CmpInst::BAD_ICMP_PREDICATE;
      if (P == CmpInst::BAD_ICMP_PREDICATE || !e->w)
        return false;
      if (!k1)
        P = CmpInst::getSwappedPredicate(P);
      if (!val)
        P = CmpInst::getInversePredicate(P);
      R = ConstantRange::makeExactICmpRegion(P, k1 ? c->args[1]->k : c->args[0]->k);
      return true;
    };
    // what is said of some bytes, said of the same ones in the order of to
    auto reorder = [&](T c, T to) -> T {
      if (c->op != "eq" || c->args.size() != 2 || !isC(c->args[1]) || c->args[0]->op != "cat" || to->op != "cat" || to->w != c->args[0]->w)
        return c;
      auto b = c->args[0]->args, k = bytes(c->args[1]);
      std::vector<T> r;
      for (auto t : to->args) {
        auto it = std::find(b.begin(), b.end(), t);
        if (it == b.end())
          return c;
        r.push_back(k[it - b.begin()]);
        k.erase(k.begin() + (it - b.begin()));
        b.erase(it);
      }
      return mk("eq", 1, {to, cat(r)});
    };
    if (v && a->op == "eq" && a->args.size() == 2 && isC(a->args[1]) && a->args[0]->op == "cat" && x->op == "eq" && x->args.size() == 2 && isC(x->args[1]) && x->args[0]->w % 8 == 0 && x->args[0]->w && x->args[0]->w < a->args[0]->w) {
      // some of the bytes that are known
      auto b = a->args[0]->args, k = bytes(a->args[1]), c = bytes(x->args[0]), d = bytes(x->args[1]);
      bool all = true;
      for (size_t i = 0; i < c.size(); ++i) {
        auto it = std::find(b.begin(), b.end(), c[i]);
        if (it == b.end())
          all = false;
        else if (k[it - b.begin()] != d[i])
          return false;
      }
      if (all)
        return true;
    }
    T e1, e2;
    ConstantRange R1(8, true), R2(8, true);
    if (!rng(a, v, e1, R1) || !rng(x, true, e2, R2))
      return {};
    if (e1 != e2) {
      T a1 = reorder(a, e2), x1 = reorder(x, e1);
      if (a1 != a)
        rng(a1, v, e1, R1);
      else if (x1 != x)
        rng(x1, true, e2, R2);
      if (e1 != e2)
        return {};
    }
    if (R2.contains(R1))
      return true;
    if (R1.intersectWith(R2).isEmptySet())
      return false;
    return {};
  }
  // the node of an atom above the atoms of y and n
  T node(T a, T y, T n) {
    if (y == n)
      return y;
    if (y->op == "bot")
      return n;
    if (n->op == "bot")
      return y;
    auto key = std::make_tuple(a, y, n);
    auto it = nodeMemo.find(key);
    if (it != nodeMemo.end())
      return it->second;
    return nodeMemo[key] = node1(a, y, n);
  }
  std::map<std::tuple<T, T, T>, T> nodeMemo;
  T node1(T a, T y, T n) {
    // x is k, or else x
    if (a->op == "eq" && isC(y) && a->args[1] == y && a->args[0] == n)
      return n;
    T m = a;
    if (top(y) && top(y)->id < m->id)
      m = top(y);
    if (top(n) && top(n)->id < m->id)
      m = top(n);
    if (m != a) {
      auto side = [&](bool v) {
        T y1 = under(v ? yes(y, m) : no(y, m), m, v), n1 = under(v ? yes(n, m) : no(n, m), m, v);
        auto f = implied(a, m, v);
        return f ? *f ? y1 : n1 : node(a, y1, n1);
      };
      T yy = side(true), nn = side(false);
      if (yy != nn && m->op == "eq" && yy->op != "bot" && nn->op != "bot" && under(nn, m, true) == yy)
        return nn;
      return raw(m, yy, nn);
    }
    y = under(y, a, true);
    n = under(n, a, false);
    // the rest says as much
    if (a->op == "eq" && under(n, a, true) == y)
      return n;
    return raw(a, y, n);
  }
  T raw(T a, T y, T n) {
    if (y == n)
      return y;
    if (y->op == "bot")
      return n;
    if (n->op == "bot")
      return y;
    if (++work > limit)
      return mk("toobig", y->w);
    return mk("ite", y->w, {a, y, n});
  }
  T ite(T c, T y, T n) {
    if (isC(c))
      return c->k.isZero() ? n : y;
    if (c->op == "bot")
      return c;
    if (y == n)
      return y;
    if (c->op != "ite") {
      if (auto v = fact(c))
        return *v ? y : n;
      if (y->w == 1 && isC(y, 1) && isC(n, 0))
        return mk("ite", 1, {c, cst(1, 1), cst(1, 0)});
      return node(c, y, n);
    }
    auto key = std::make_tuple(c, y, n);
    auto it = iteMemo.find(key);
    if (it != iteMemo.end())
      return it->second;
    T a = c->args[0];
    T r = node(a, ite(c->args[1], y, n), ite(c->args[2], y, n));
    return iteMemo[key] = r;
  }
  std::map<std::tuple<T, T, T>, T> iteMemo;
  // what is assumed of the whole run
  std::map<T, bool> facts;
  std::optional<bool> fact(T x) {
    auto it = facts.find(x);
    if (it != facts.end())
      return it->second;
    for (auto &[a, v] : facts)
      if (auto r = implied(x, a, v))
        return r;
    return {};
  }
  void assume(T c) {
    // a conjunction of atoms
    while (c->op == "ite" && (isC(c->args[1], 0) || isC(c->args[2], 0))) {
      bool v = isC(c->args[2], 0);
      T atom = c->args[0];
      c = v ? c->args[1] : c->args[2];
      if (!isC(atom) && atom->op != "ite" && atom->op != "bot")
        facts[atom] = v;
    }
    memo.clear();
    bmemo.clear();
    condMemo.clear();
    nodeMemo.clear();
    iteMemo.clear();
    applyMemo.clear();
  }
  // boolean terms are always diagrams
  T boolean(T atom) {
    if (isC(atom) || atom->op == "ite" || atom->op == "bot")
      return atom;
    if (auto v = fact(atom))
      return cst(1, *v);
    return mk("ite", 1, {atom, cst(1, 1), cst(1, 0)});
  }
  T lnot(T a) { return ite(a, cst(1, 0), cst(1, 1)); }
  T land(T a, T b) { return ite(a, b, cst(1, 0)); }
  T lor(T a, T b) { return ite(a, cst(1, 1), b); }

  // --- an operation, through the diagrams of its arguments
  std::map<std::string, T> applyMemo;
  T apply(const std::string &op, unsigned w, std::vector<T> args, APInt k = APInt(64, 0)) {
    T m = nullptr;
    for (auto a : args) {
      if (a->op == "bot")
        return a;
      if (top(a) && (!m || top(a)->id < m->id))
        m = top(a);
    }
    if (!m)
      return leaf(op, w, args, k);
    std::string key = op + "/" + std::to_string(w);
    for (auto a : args)
      key += "," + std::to_string(a->id);
    SmallString<40> ks;
    k.toString(ks, 16, false);
    key += "#" + ks.str().str();
    auto it = applyMemo.find(key);
    if (it != applyMemo.end())
      return it->second;
    if (++work > limit)
      return mk("toobig", w);
    std::vector<T> y, n;
    for (auto a : args) {
      y.push_back(under(yes(a, m), m, true));
      n.push_back(under(no(a, m), m, false));
    }
    T r = node(m, apply(op, w, y, k), apply(op, w, n, k));
    return applyMemo[key] = r;
  }
  T generic(const std::string &op, unsigned w, const std::vector<T> &args, const APInt &k) {
    T t = mk(op, w, args, k);
    return w == 1 ? boolean(t) : t;
  }
  bool byteMask(T k) {
    for (auto b : bytes(k))
      if (!isC(b, 0) && !isC(b, 255))
        return false;
    return true;
  }
  // no more than that, and no sum wraps around
  std::optional<APInt> most(T t) {
    if (isC(t))
      return t->k.zext(160);
    if (t->op == "cat") {
      APInt r(160, 0);
      for (unsigned i = 0; i < t->args.size() && i < 16; ++i)
        r.insertBits(isC(t->args[i]) ? t->args[i]->k : APInt(8, 255), 8 * i);
      return r;
    }
    if (t->op == "lin") {
      APInt r = t->k.zext(160);
      for (size_t i = 0; i < t->args.size(); i += 2) {
        auto m = most(t->args[i]);
        if (!m)
          return {};
        r += *m * t->args[i + 1]->k.zext(160);
      }
      if (r.getActiveBits() > t->w)
        return {};
      return r;
    }
    return APInt::getAllOnes(t->w).zext(160);
  }
  T leaf(const std::string &op, unsigned w, std::vector<T> a, const APInt &k) {
    bool allC = true;
    for (auto x : a)
      allC &= isC(x);
    bool B = w % 8 == 0;
    if (op == "cat")
      return cat(a);
    if (op == "add")
      return add(a[0], a[1]);
    if (op == "sub")
      return add(a[0], a[1], true);
    if (op == "mul") {
      if (isC(a[1]))
        return scale(a[0], a[1]->k);
      if (isC(a[0]))
        return scale(a[1], a[0]->k);
      if (a[0]->id > a[1]->id)
        std::swap(a[0], a[1]);
      return generic(op, w, a, k);
    }
    if (op == "zext") {
      if (isC(a[0]))
        return cst(a[0]->k.zext(w));
      if (B && a[0]->w % 8 == 0) {
        auto b = bytes(a[0]);
        b.resize(w / 8, cst(8, 0));
        return cat(b);
      }
      return generic(op, w, a, k);
    }
    if (op == "sext") {
      if (isC(a[0]))
        return cst(a[0]->k.sext(w));
      if (a[0]->op == "cat" && isC(a[0]->args.back()) && !a[0]->args.back()->k.isNegative())
        return leaf("zext", w, a, k);
      return generic(op, w, a, k);
    }
    if (op == "trunc") {
      if (isC(a[0]))
        return cst(a[0]->k.trunc(w));
      if ((a[0]->op == "zext" || a[0]->op == "sext") && a[0]->args[0]->w == w)
        return a[0]->args[0];
      if (a[0]->op == "sext" && a[0]->args[0]->w > w)
        return leaf("trunc", w, {a[0]->args[0]}, k);
      if (a[0]->op == "sext" && a[0]->args[0]->w < w)
        return leaf("sext", w, {a[0]->args[0]}, k);
      if (B && a[0]->w % 8 == 0 && (a[0]->op == "cat" || a[0]->op == "byte")) {
        auto b = bytes(a[0]);
        b.resize(w / 8);
        return cat(b);
      }
      if (a[0]->op == "lin") {
        Lin l = lin(a[0]), r{l.first.trunc(w), {}};
        for (auto &[t, c] : l.second) {
          T u = leaf("trunc", w, {t}, k);
          auto it = r.second.emplace(u, APInt(w, 0)).first;
          it->second += c.trunc(w);
        }
        // the truncated terms can be sums or constants
        T s = cst(r.first);
        for (auto &[t, c] : r.second)
          s = add(s, scale(t, c));
        return s;
      }
      if (B && a[0]->w % 8 == 0) {
        auto b = bytes(a[0]);
        b.resize(w / 8);
        return cat(b);
      }
      return generic(op, w, a, k);
    }
    if (op == "shl" || op == "lshr") {
      if (isC(a[1])) {
        uint64_t s = a[1]->k.getLimitedValue(1 << 20);
        if (s >= w)
          return mk("poison", w);
        if (s == 0)
          return a[0];
        if (isC(a[0]))
          return cst(op == "shl" ? a[0]->k.shl(s) : a[0]->k.lshr(s));
        if (B && s % 8 == 0 && (op == "lshr" || a[0]->op != "lin")) {
          auto b = bytes(a[0]);
          std::vector<T> r(b.size(), cst(8, 0));
          unsigned d = s / 8;
          for (unsigned i = 0; i < b.size(); ++i) {
            if (op == "shl" && i >= d)
              r[i] = b[i - d];
            if (op == "lshr" && i + d < b.size())
              r[i] = b[i + d];
          }
          return cat(r);
        }
        if (op == "shl")
          return scale(a[0], APInt(w, 1).shl(s));
      }
      return generic(op, w, a, k);
    }
    if (op == "ashr") {
      if (allC)
        return cst(a[0]->k.ashr(a[1]->k));
      return generic(op, w, a, k);
    }
    if (op == "and" || op == "or" || op == "xor") {
      if (allC)
        return cst(op == "and" ? a[0]->k & a[1]->k : op == "or" ? a[0]->k | a[1]->k : a[0]->k ^ a[1]->k);
      if (a[0] == a[1])
        return op == "xor" ? cst(w, 0) : a[0];
      if (isC(a[0]))
        std::swap(a[0], a[1]);
      if (B && w > 8) {
        auto x = bytes(a[0]), y = bytes(a[1]);
        std::vector<T> r;
        bool ok = true;
        for (unsigned i = 0; i < x.size() && ok; ++i) {
          T p = x[i], q = y[i];
          if (isC(p))
            std::swap(p, q);
          if (op == "and")
            r.push_back(isC(q, 0) ? q : isC(q, 255) ? p : p == q ? p : nullptr);
          else if (op == "or")
            r.push_back(isC(q, 0) ? p : isC(q, 255) ? q : p == q ? p : nullptr);
          else
            r.push_back(isC(q, 0) ? p : nullptr);
          if (isC(p) && isC(q))
            r.back() = leaf(op, 8, {p, q}, k);
          ok = r.back();
        }
        if (ok)
          return cat(r);
      }
      if (isC(a[1])) {
        if (a[1]->k.isZero())
          return op == "and" ? a[1] : a[0];
        if (a[1]->k.isAllOnes() && op != "xor")
          return op == "and" ? a[0] : a[1];
      }
      if (!isC(a[1]) && a[0]->id > a[1]->id)
        std::swap(a[0], a[1]);
      return generic(op, w, a, k);
    }
    if (op == "udiv" || op == "urem" || op == "sdiv" || op == "srem") {
      if (allC && !a[1]->k.isZero())
        return cst(op == "udiv" ? a[0]->k.udiv(a[1]->k) : op == "urem" ? a[0]->k.urem(a[1]->k) : op == "sdiv" ? a[0]->k.sdiv(a[1]->k) : a[0]->k.srem(a[1]->k));
      return generic(op, w, a, k);
    }
    if (op == "bswap") {
      auto b = bytes(a[0]);
      std::reverse(b.begin(), b.end());
      return cat(b);
    }
    if (op == "eq" && a.size() == 2 && ((StringRef(a[0]->op).starts_with("global:") && a[0]->args.empty() && isC(a[1], 0)) ||
                                        (StringRef(a[1]->op).starts_with("global:") && a[1]->args.empty() && isC(a[0], 0))))
      return cst(1, 0);
    if (op == "eq" && ((a[0]->op == "nonzero" && isC(a[1], 0)) || (a[1]->op == "nonzero" && isC(a[0], 0))))
      return cst(1, 0);
    if (op == "eq") {
      if (a[0] == a[1])
        return cst(1, 1);
      if (a[0]->w && a[0]->w == a[1]->w) {
        T d = add(a[0], a[1], true);
        if (isC(d))
          return cst(1, d->k.isZero());
      }
      if (isC(a[0]))
        std::swap(a[0], a[1]);
      if (isC(a[1]) && a[0]->op == "lin") { // x + c == k
        Lin l = lin(a[0]);
        if (l.second.size() == 1 && l.second.begin()->second == 1)
          return leaf("eq", 1, {l.second.begin()->first, cst(a[1]->k - l.first)}, k);
      }
      if (isC(a[1]) && a[0]->op == "or" && a[0]->args.size() == 2) { // a rotation
        for (int s = 0; s < 2; ++s) {
          T h = a[0]->args[s], r = a[0]->args[1 - s];
          if (r->op != "lshr" || !isC(r->args[1]) || r->args[1]->k.uge(a[0]->w) || h->op != "lin")
            continue;
          Lin l = lin(h);
          unsigned n = r->args[1]->k.getZExtValue();
          if (!l.first.isZero() || l.second.size() != 1 || l.second.begin()->first != r->args[0] || n == 0 ||
              l.second.begin()->second != APInt::getOneBitSet(a[0]->w, a[0]->w - n))
            continue;
          return leaf("eq", 1, {r->args[0], cst(a[1]->k.rotl(n))}, k);
        }
      }
      if (isC(a[1]) && a[0]->op == "and" && isC(a[0]->args[1])) { // all bits but one
        T x = a[0]->args[0];
        APInt m = a[0]->args[1]->k, off = ~m, v = a[1]->k;
        if (x->op == "cat") { // the bytes that are zero
          for (unsigned i = 0; i < x->args.size(); ++i)
            if (isC(x->args[i], 0))
              for (unsigned j = 0; j < 8; ++j)
                off.clearBit(8 * i + j);
        }
        if (off.popcount() <= 2 && !off.isZero() && !(v & ~m).getBoolValue()) {
          T r = leaf("eq", 1, {x, cst(v)}, k);
          std::vector<APInt> all{v};
          for (unsigned i = 0; i < off.getBitWidth(); ++i)
            if (off[i])
              for (size_t j = 0, n = all.size(); j < n; ++j)
                all.push_back(all[j] | APInt::getOneBitSet(off.getBitWidth(), i));
          for (size_t j = 1; j < all.size(); ++j)
            r = lor(boolean(r), boolean(leaf("eq", 1, {x, cst(all[j])}, k)));
          return r;
        }
      }
      if (isC(a[1]) && a[0]->op == "cat") { // the bytes that are zero
        auto b = a[0]->args;
        auto c = bytes(a[1]);
        while (b.size() > 1 && isC(b.back())) {
          if (b.back() != c.back())
            return cst(1, 0);
          b.pop_back();
          c.pop_back();
        }
        if (b.size() != a[0]->args.size())
          return leaf("eq", 1, {cat(b), cat(c)}, k);
        // bytes each of which has to be something, in whatever order
        std::vector<std::pair<T, T>> o;
        for (size_t i = 0; i < b.size(); ++i)
          o.push_back({b[i], c[i]});
        std::stable_sort(o.begin(), o.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
        for (size_t i = 0; i < b.size(); ++i)
          b[i] = o[i].first, c[i] = o[i].second;
        T all = cat(b);
        if (all->op == "cat" && all->args == b)
          a = {all, cat(c)};
      }
      if ((a[0]->op == "zext" || a[0]->op == "sext") && isC(a[1])) {
        unsigned n = a[0]->args[0]->w;
        T in = a[0]->args[0];
        APInt t = a[1]->k.trunc(n);
        if ((a[0]->op == "zext" ? t.zext(a[1]->w) : t.sext(a[1]->w)) != a[1]->k)
          return cst(1, 0);
        if (n == 1)
          return t.isZero() ? lnot(boolean(in)) : boolean(in);
        return leaf("eq", 1, {in, cst(t)}, k);
      }
      if (!isC(a[1]) && a[0]->id > a[1]->id)
        std::swap(a[0], a[1]);
      return generic("eq", 1, a, k);
    }
    if (op == "ult" || op == "slt") {
      if (a[0] == a[1])
        return cst(1, 0);
      if (allC)
        return cst(1, op == "ult" ? a[0]->k.ult(a[1]->k) : a[0]->k.slt(a[1]->k));
      if (op == "ult") {
        // the same sum but for the constants, and none wraps around
        if (a[0]->w == 64) {
          T d = add(a[1], a[0], true);
          if (isC(d) && most(a[0]) && most(a[1]))
            return cst(1, !d->k.isNegative() && !d->k.isZero());
        }
        if (isC(a[1], 0))
          return cst(1, 0);
        if (isC(a[1], 1))
          return leaf("eq", 1, {a[0], cst(a[0]->w, 0)}, k);
        if (isC(a[0]) && a[0]->k.isAllOnes())
          return cst(1, 0);
        if (isC(a[0], 0)) // 0 < x
          return lnot(boolean(leaf("eq", 1, {a[1], cst(a[1]->w, 0)}, k)));
        if (isC(a[0])) // k < x: not x < k + 1
          return lnot(boolean(leaf("ult", 1, {a[1], cst(a[0]->k + 1)}, k)));
        if (isC(a[1]) && a[0]->op == "cat" && isC(a[0]->args.back(), 0)) {
          auto b = a[0]->args;
          while (b.size() > 1 && isC(b.back(), 0))
            b.pop_back();
          unsigned n = 8 * b.size();
          if (a[1]->k.getActiveBits() > n)
            return cst(1, 1);
          return leaf("ult", 1, {cat(b), cst(a[1]->k.trunc(n))}, k);
        }
        if (a[0]->op == "zext" && isC(a[1])) {
          unsigned n = a[0]->args[0]->w;
          if (a[1]->k.getActiveBits() > n)
            return cst(1, 1);
        }
      } else {
        bool p0 = nonNeg(a[0]), p1 = nonNeg(a[1]);
        if (p0 && p1)
          return leaf("ult", 1, a, k);
        if (isC(a[0]) && a[0]->k.isMaxSignedValue())
          return cst(1, 0);
        if (isC(a[0]))
          return lnot(boolean(leaf("slt", 1, {a[1], cst(a[0]->k + 1)}, k)));
      }
      return generic(op, 1, a, k);
    }
    if (op == "fadd" || op == "fmul") {
      if (a[0]->id > a[1]->id)
        std::swap(a[0], a[1]);
      return generic(op, w, a, k);
    }
    if (op == "extract") {
      if (a[0]->op == "insert") {
        if (a[0]->k == k)
          return a[0]->args[1];
        return leaf("extract", w, {a[0]->args[0]}, k);
      }
      return generic(op, w, a, k);
    }
    // every empty text
    if (op == "pure.strlen" && a[0]->op.rfind("text:", 0) == 0)
      if (size_t n = a[0]->op.find('\0'); n != std::string::npos)
        return cst(w, n - 5);
    if (op == "pure.text" && isC(a[1], 0))
      a[0] = cst(64, 0);
    // a part of a copy is a copy of the part
    if (op == "pure.text" && a[0]->op == "lin") {
      Lin l = lin(a[0]);
      for (auto &[t, c] : l.second)
        if (c == 1 && t->op == "pure.text") {
          T in = t->args[0];
          return apply("pure.text", w, {apply("add", 64, {apply("sub", 64, {a[0], t}), in}), a[1]}, k);
        }
    }
    if (op == "pure.text" && a[0]->op == "pure.text" && a[0]->args[1] == a[1])
      return a[0]; // the text of a text
    return generic(op, w, a, k);
  }
  bool nonNeg(T t) {
    if (isC(t))
      return !t->k.isNegative();
    if (t->op == "cat")
      return isC(t->args.back()) && !t->args.back()->k.isNegative();
    return t->op == "zext";
  }
  unsigned widthOf(Type *Ty) {
    if (Ty->isIntegerTy() || Ty->isPointerTy() || Ty->isFloatingPointTy())
      return DL.getTypeSizeInBits(Ty);
    return 0;
  }

  // --- values
  T term(Value *V) {
    auto it = memo.find({V, 0});
    if (it != memo.end())
      return it->second;
    T t = term1(V);
    if (t->w == 1)
      t = boolean(t);
    return memo[{V, 0}] = t;
  }
  T self(Value *V) {
    std::string n;
    raw_string_ostream os(n);
    os << "v:";
    V->printAsOperand(os, false);
    os << "@" << (const void *)V;
    T t = mk(n, widthOf(V->getType()));
    vals[t] = V;
    return t;
  }
  T constant(Constant *C) {
    unsigned w = widthOf(C->getType());
    if (auto *I = dyn_cast<ConstantInt>(C))
      return cst(I->getValue());
    if (auto *D = dyn_cast<ConstantFP>(C))
      return cst(D->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(C))
      return cst(w, 0);
    if (isa<PoisonValue>(C) || isa<UndefValue>(C))
      return mk("poison", w);
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
      if (G->isConstant() && G->hasInitializer()) {
        std::string s = "text:";
        if (auto *A = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          return mk(s + A->getRawDataValues().str(), w);
      }
      return mk("global:" + G->getName().str(), w);
    }
    if (auto *G = dyn_cast<GlobalValue>(C))
      return mk("global:" + G->getName().str(), w);
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      if (E->getOpcode() == Instruction::GetElementPtr) {
        APInt o(DL.getIndexTypeSizeInBits(E->getType()), 0);
        if (cast<GEPOperator>(E)->accumulateConstantOffset(DL, o))
          return apply("add", 64, {term(E->getOperand(0)), cst(o.sextOrTrunc(64))});
      }
      if (E->isCast() && widthOf(E->getType()) == widthOf(E->getOperand(0)->getType()))
        return term(E->getOperand(0));
    }
    if (w)
      if (C->isNullValue())
        return cst(w, 0);
    std::string n;
    raw_string_ostream os(n);
    os << "c:" << *C;
    return mk(n, w);
  }
  T cond(CmpInst::Predicate P, T a, T b) {
    switch (P) {
    case CmpInst::ICMP_EQ: return apply("eq", 1, {a, b});
    case CmpInst::ICMP_NE: return lnot(apply("eq", 1, {a, b}));
    case CmpInst::ICMP_ULT: return apply("ult", 1, {a, b});
    case CmpInst::ICMP_UGT: return apply("ult", 1, {b, a});
    case CmpInst::ICMP_ULE: return lnot(apply("ult", 1, {b, a}));
    case CmpInst::ICMP_UGE: return lnot(apply("ult", 1, {a, b}));
    case CmpInst::ICMP_SLT: return apply("slt", 1, {a, b});
    case CmpInst::ICMP_SGT: return apply("slt", 1, {b, a});
    case CmpInst::ICMP_SLE: return lnot(apply("slt", 1, {b, a}));
    case CmpInst::ICMP_SGE: return lnot(apply("slt", 1, {a, b}));
    default: return nullptr;
    }
  }
  T fcond(CmpInst::Predicate P, T a, T b) {
    // in terms of: ordered, equal, less (both false when unordered)
    auto o = [&] {
      T x = a, y = b;
      // a constant that is not a NaN is always ordered
      auto num = [&](T t) { return isC(t) && (t->w == 64 || t->w == 32) && !APFloat(t->w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), t->k).isNaN(); };
      T r = cst(1, 1);
      if (!num(x))
        r = land(r, apply("isnum", 1, {x}));
      if (!num(y) && y != x)
        r = land(r, apply("isnum", 1, {y}));
      return r;
    };
    auto eq = [&] {
      T x = a, y = b;
      if (x->id > y->id)
        std::swap(x, y);
      return land(o(), apply("feq", 1, {x, y}));
    };
    auto lt = [&](T x, T y) { return land(o(), apply("flt", 1, {x, y})); };
    T r;
    bool inv = false;
    switch (P) {
    case CmpInst::FCMP_UNE: P = CmpInst::FCMP_OEQ; inv = true; break;
    case CmpInst::FCMP_ULT: P = CmpInst::FCMP_OGE; inv = true; break;
    case CmpInst::FCMP_ULE: P = CmpInst::FCMP_OGT; inv = true; break;
    case CmpInst::FCMP_UGT: P = CmpInst::FCMP_OLE; inv = true; break;
    case CmpInst::FCMP_UGE: P = CmpInst::FCMP_OLT; inv = true; break;
    case CmpInst::FCMP_UNO: P = CmpInst::FCMP_ORD; inv = true; break;
    case CmpInst::FCMP_UEQ: P = CmpInst::FCMP_ONE; inv = true; break;
    default: break;
    }
    switch (P) {
    case CmpInst::FCMP_OEQ: r = eq(); break;
    case CmpInst::FCMP_OLT: r = lt(a, b); break;
    case CmpInst::FCMP_OGT: r = lt(b, a); break;
    case CmpInst::FCMP_OLE: r = land(o(), lnot(lt(b, a))); break;
    case CmpInst::FCMP_OGE: r = land(o(), lnot(lt(a, b))); break;
    case CmpInst::FCMP_ORD: r = o(); break;
    case CmpInst::FCMP_ONE: r = land(o(), lnot(eq())); break;
    default: return nullptr;
    }
    return inv ? lnot(r) : r;
  }
  std::string version(Instruction *I, const MemoryLocation &Loc) {
    auto *MA = MSSA->getMemoryAccess(I);
    if (!MA)
      return "none";
    auto *D = MSSA->getWalker()->getClobberingMemoryAccess(MA);
    std::string s;
    raw_string_ostream os(s);
    os << (const void *)D;
    return s;
  }
  // whether every value in a term has one value during the loop
  bool invariant(T t, Loop *L) {
    auto it = vals.find(t);
    if (it != vals.end()) {
      auto *I = dyn_cast<Instruction>(it->second);
      if (I && L->contains(I))
        return false;
    }
    auto im = accs.find(t);
    if (im != accs.end() && L->contains(im->second->getBlock()))
      return false;
    for (T x : t->args)
      if (!invariant(x, L))
        return false;
    return true;
  }
  // the distance between two addresses, when it is known
  std::optional<int64_t> distance(T a, T b) {
    T d = apply("sub", 64, {a, b});
    if (!isC(d))
      return std::nullopt;
    return d->k.getSExtValue();
  }
  // a global variable whose address is not known outside
  bool local(GlobalVariable *GV) {
    std::vector<Value *> todo{GV};
    while (!todo.empty()) {
      Value *V = todo.back();
      todo.pop_back();
      for (auto *U : V->users()) {
        if (isa<LoadInst>(U) || isa<CmpInst>(U))
          continue;
        if (auto *S = dyn_cast<StoreInst>(U); S && S->getValueOperand() != V)
          continue;
        if (isa<GetElementPtrInst>(U) || isa<GEPOperator>(U)) {
          todo.push_back(U);
          continue;
        }
        return false;
      }
    }
    return true;
  }
  // the pointer an address is derived from
  Value *object(T addr) {
    Value *r = nullptr;
    for (auto &[t, c] : lin(addr).second)
      if (auto it = vals.find(t); c == 1 && it != vals.end() && it->second->getType()->isPointerTy()) {
        if (r)
          return nullptr;
        r = it->second;
      }
    return r;
  }
  T loadTerm(T addr, MemoryAccess *MA) {
    std::string s;
    raw_string_ostream os(s);
    os << (const void *)MA;
    T t = mk("load:" + os.str(), 8, {addr});
    accs[t] = MA;
    return t;
  }
  // n bytes at d do not hold the byte at an address
  bool misses(T addr, T d, T n) {
    if (d->op == "ite")
      return misses(addr, d->args[1], n) && misses(addr, d->args[2], n);
    if (d->op == "bot")
      return true;
    if (auto k = distance(addr, d))
      return *k < 0 || (isC(n) && (uint64_t)*k >= n->k.getZExtValue());
    Value *a = object(addr), *b = object(d);
    return a && b && a != b && isIdentifiedObject(a) && isIdentifiedObject(b);
  }
  std::map<std::pair<T, MemoryAccess *>, T> bmemo;
  // the byte at an address after an access
  T byteAt(T addr, MemoryAccess *MA, const MemoryLocation &Loc) {
    auto it = bmemo.find({addr, MA});
    if (it != bmemo.end())
      return it->second;
    return bmemo[{addr, MA}] = byteAt1(addr, MA, Loc);
  }
  T byteAt1(T addr, MemoryAccess *MA, const MemoryLocation &Loc) {
    // the text of a string does not change: an assignment makes another one
    if (addr->op == "pure.text" || addr->op == "lin")
      for (auto &[t, c] : lin(addr).second)
        if (t->op == "pure.text" && c == 1) {
          Lin l = lin(addr);
          const std::string &o = t->args[0]->op;
          if (l.second.size() == 1 && o.rfind("text:", 0) == 0 && l.first.ult(o.size() - 5))
            return cst(8, static_cast<uint8_t>(o[5 + l.first.getZExtValue()]));
          return loadTerm(addr, MSSA->getLiveOnEntryDef());
        }
    if (Loc.Ptr && !MSSA->isLiveOnEntryDef(MA))
      if (auto *GV = dyn_cast<GlobalVariable>(getUnderlyingObject(Loc.Ptr)); GV && GV->isConstant())
        return byteAt(addr, MSSA->getLiveOnEntryDef(), Loc);
    if (isa<MemoryPhi>(MA)) {
      BasicBlock *B = MA->getBlock();
      auto *P = cast<MemoryPhi>(MA);
      if (isHeader(B)) {
        Loop *L = LI.getLoopFor(B);
        T here = loadTerm(addr, MA);
        if (!L || L->getHeader() != B || !invariant(addr, L))
          return here;
        if (auto *PI = dyn_cast_or_null<Instruction>(const_cast<Value *>(Loc.Ptr)); PI && L->contains(PI))
          return here;
        // not written by the loop?
        auto save = bmemo;
        bmemo[{addr, MA}] = here;
        T entry = nullptr;
        bool same = true;
        for (unsigned i = 0; i < P->getNumIncomingValues() && same; ++i) {
          if (L->contains(P->getIncomingBlock(i)))
            same = byteAt(addr, P->getIncomingValue(i), Loc) == here;
        }
        bmemo = save;
        if (!same)
          return here;
        for (unsigned i = 0; i < P->getNumIncomingValues() && same; ++i)
          if (!L->contains(P->getIncomingBlock(i))) {
            T t = byteAt(addr, P->getIncomingValue(i), Loc);
            if (entry && entry != t)
              same = false;
            entry = t;
          }
        return entry && same ? entry : here;
      }
      T r = gate(B, [&](BasicBlock *X) { return byteAt(addr, P->getIncomingValueForBlock(X), Loc); });
      return r ? r : loadTerm(addr, MA);
    }
    if (Loc.Ptr && !MSSA->isLiveOnEntryDef(MA))
      if (auto *GV = dyn_cast<GlobalVariable>(getUnderlyingObject(Loc.Ptr)); GV && GV->isConstant())
        return byteAt(addr, MSSA->getLiveOnEntryDef(), Loc);
    if (MSSA->isLiveOnEntryDef(MA)) {
      if (Loc.Ptr)
        if (auto *GV = dyn_cast<GlobalVariable>(const_cast<Value *>(getUnderlyingObject(Loc.Ptr))); GV && GV->hasDefinitiveInitializer() && (GV->isConstant() || (GV->hasLocalLinkage() && local(GV))))
          if (auto d = distance(addr, term(GV)))
            if (auto *C = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(GV->getInitializer(), Type::getInt8Ty(F.getContext()), APInt(64, *d), DL)))
              return cst(C->getValue());
      return loadTerm(addr, MA);
    }
    auto *D = cast<MemoryDef>(MA);
    Instruction *I = D->getMemoryInst();
    // where it writes depends on a condition
    T where = isa<StoreInst>(I) ? term(cast<StoreInst>(I)->getPointerOperand())
              : isa<MemIntrinsic>(I) ? term(cast<MemIntrinsic>(I)->getDest()) : nullptr;
    if (where && where->op == "ite") {
      std::function<T(T)> g = [&](T d) -> T {
        if (d->op == "ite")
          return node(d->args[0], g(d->args[1]), g(d->args[2]));
        return written(addr, I, d, D, Loc);
      };
      return g(where);
    }
    return written(addr, I, where, D, Loc);
  }
  // the byte at an address after an instruction that writes there
  T written(T addr, Instruction *I, T where, MemoryDef *D, const MemoryLocation &Loc) {
    MemoryAccess *MA = D;
    auto next = [&] { return byteAt(addr, D->getDefiningAccess(), Loc); };
    if (auto *S = dyn_cast<StoreInst>(I)) {
      uint64_t n = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
      if (auto d = distance(addr, where)) {
        if (*d < 0 || (uint64_t)*d >= n)
          return next();
        T v = term(S->getValueOperand());
        if (v->w == n * 8)
          return apply("trunc", 8, {apply("lshr", v->w, {v, cst(v->w, 8 * *d)})});
        if (v->w == 1)
          return apply("zext", 8, {v});
        return loadTerm(addr, MA);
      }
    } else if (auto *M = dyn_cast<MemTransferInst>(I)) {
      if (auto d = distance(addr, where)) {
        if (*d < 0)
          return next();
        T n = term(M->getLength());
        if (isC(n)) {
          if ((uint64_t)*d >= n->k.getZExtValue())
            return next();
          return byteAt(apply("add", 64, {term(M->getSource()), cst(64, *d)}), D->getDefiningAccess(), MemoryLocation::getForSource(M));
        }
      }
    } else if (auto *M = dyn_cast<MemSetInst>(I)) {
      if (auto d = distance(addr, where)) {
        if (*d < 0)
          return next();
        T n = term(M->getLength());
        if (isC(n))
          return (uint64_t)*d >= n->k.getZExtValue() ? next() : term(M->getValue());
      }
    } else if (auto *CB = dyn_cast<CallBase>(I)) {
      auto *G = CB->getCalledFunction();
      if (G && G->getName() == "vf_write" && misses(addr, term(CB->getArgOperand(0)), term(CB->getArgOperand(1))))
        return next();
      if (G && G->getName() == "vf_write")
        if (auto d = distance(addr, term(CB->getArgOperand(0)))) {
          if (*d < 0)
            return next();
          T n = term(CB->getArgOperand(1));
          if (isC(n) && (uint64_t)*d >= n->k.getZExtValue())
            return next();
          return loadTerm(addr, MA);
        }
    }
    if (auto *CB = dyn_cast<CallBase>(I))
      if (auto *G = calledFn(CB)) {
        static const std::set<StringRef> pure{"strlen", "memcmp", "bcmp", "memchr", "strcmp", "strnlen"};
        if (pure.count(G->getName()) || (G->getName().starts_with("_Znw") && object(addr) != I))
          return next();
      }
    if (isa<CallBase>(I) && Loc.Ptr)
      if (auto *GV = dyn_cast<GlobalVariable>(const_cast<Value *>(getUnderlyingObject(Loc.Ptr))); GV && GV->hasLocalLinkage() && local(GV))
        return next();
    if (Loc.Ptr && !isModSet(AA->getModRefInfo(I, Loc)))
      return next();
    if (Value *O = object(addr); O && !isModSet(AA->getModRefInfo(I, MemoryLocation::getBeforeOrAfter(O))))
      return next();
    if (getenv("VF_STUCK"))
      errs() << "stuck " << show(addr) << " at " << *I << " @ " << (isa<CallBase>(I) && I->getNumOperands() > 1 ? show(term(I->getOperand(0))) : "") << "\n";
    return loadTerm(addr, MA);
  }
  T loadAt(T addr, unsigned w, MemoryAccess *MA, const MemoryLocation &Loc) {
    if (addr->op == "bot")
      return addr;
    if (addr->op == "ite")
      return node(addr->args[0], loadAt(addr->args[1], w, MA, Loc), loadAt(addr->args[2], w, MA, Loc));
    std::vector<T> b;
    for (unsigned i = 0; i < w / 8; ++i)
      b.push_back(byteAt(apply("add", 64, {addr, cst(64, i)}), MA, Loc));
    return apply("cat", w, b);
  }
  T loadAt(LoadInst *L, unsigned w) {
    auto *MA = MSSA->getMemoryAccess(L);
    if (!MA)
      return self(L);
    return loadAt(term(L->getPointerOperand()), w, cast<MemoryUseOrDef>(MA)->getDefiningAccess(), MemoryLocation::get(L));
  }
  T term1(Value *V) {
    if (auto *C = dyn_cast<Constant>(V))
      return constant(C);
    auto *I = dyn_cast<Instruction>(V);
    if (!I)
      return self(V);
    unsigned w = widthOf(I->getType());
    if (auto *P = dyn_cast<PHINode>(I))
      return phi(P);
    if (auto *L = dyn_cast<LoadInst>(I)) {
      if (w && w % 8 == 0 && !L->isVolatile()) {
        return loadAt(L, w);
      }
      if (w == 1)
        return apply("eq", 1, {apply("and", 8, {loadAt(L, 8), cst(8, 1)}), cst(8, 1)});
      return self(V);
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
      MapVector<Value *, APInt> vo;
      APInt co(64, 0);
      if (!G->collectOffset(DL, 64, vo, co))
        return self(V);
      T t = apply("add", 64, {term(G->getPointerOperand()), cst(co)});
      for (auto &[x, k] : vo) {
        T u = term(x);
        if (u->w < 64)
          u = apply("sext", 64, {u});
        else if (u->w > 64)
          u = apply("trunc", 64, {u});
        t = apply("add", 64, {t, apply("mul", 64, {u, cst(k)})});
      }
      return t;
    }
    if (auto *S = dyn_cast<SelectInst>(I))
      return ite(term(S->getCondition()), term(S->getTrueValue()), term(S->getFalseValue()));
    if (auto *C = dyn_cast<ICmpInst>(I))
      return cond(C->getPredicate(), term(C->getOperand(0)), term(C->getOperand(1)));
    if (auto *C = dyn_cast<FCmpInst>(I)) {
      T r = fcond(C->getPredicate(), term(C->getOperand(0)), term(C->getOperand(1)));
      return r ? r : self(V);
    }
    if (auto *Fz = dyn_cast<FreezeInst>(I))
      return term(Fz->getOperand(0));
    if (auto *C = dyn_cast<CastInst>(I)) {
      T a = term(C->getOperand(0));
      switch (C->getOpcode()) {
      case Instruction::ZExt:
        if (a->w == 1)
          return ite(a, cst(w, 1), cst(w, 0));
        return apply("zext", w, {a});
      case Instruction::SExt:
        if (a->w == 1)
          return ite(a, cst(APInt::getAllOnes(w)), cst(w, 0));
        return apply("sext", w, {a});
      case Instruction::Trunc:
        if (w == 1)
          return apply("eq", 1, {apply("and", a->w, {a, cst(a->w, 1)}), cst(a->w, 1)});
        return apply("trunc", w, {a});
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
        if (a->w == w && w)
          return a;
        return apply(C->getOpcodeName(), w, {a});
      default:
        return apply(C->getOpcodeName(), w, {a});
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
      T a = term(B->getOperand(0)), b = term(B->getOperand(1));
      if (w == 1) {
        switch (B->getOpcode()) {
        case Instruction::And: return land(a, b);
        case Instruction::Or: return lor(a, b);
        case Instruction::Xor: return ite(a, lnot(b), b);
        default: return self(V);
        }
      }
      if (!w)
        return self(V);
      return apply(B->getOpcodeName(), w, {a, b});
    }
    if (auto *U = dyn_cast<UnaryOperator>(I))
      return apply(U->getOpcodeName(), w, {term(U->getOperand(0))});
    if (auto *E = dyn_cast<ExtractValueInst>(I)) {
      if (E->getNumIndices() == 1)
        return apply("extract", w, {term(E->getAggregateOperand())}, APInt(64, E->getIndices()[0]));
      return self(V);
    }
    if (auto *N = dyn_cast<InsertValueInst>(I)) {
      if (N->getNumIndices() == 1)
        return apply("insert", 0, {term(N->getAggregateOperand()), term(N->getInsertedValueOperand())}, APInt(64, N->getIndices()[0]));
      return self(V);
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      auto *G = calledFn(CB);
      if (!G)
        return self(V);
      if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
        auto a = [&](int i) { return term(II->getArgOperand(i)); };
        switch (II->getIntrinsicID()) {
        case Intrinsic::bswap: return apply("bswap", w, {a(0)});
        case Intrinsic::umin: return ite(apply("ult", 1, {a(0), a(1)}), a(0), a(1));
        case Intrinsic::umax: return ite(apply("ult", 1, {a(0), a(1)}), a(1), a(0));
        case Intrinsic::smin: return ite(apply("slt", 1, {a(0), a(1)}), a(0), a(1));
        case Intrinsic::smax: return ite(apply("slt", 1, {a(0), a(1)}), a(1), a(0));
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
          T x = a(0), y = a(1), s = a(2);
          if (isC(s)) {
            uint64_t n = s->k.urem(w);
            if (n) {
              uint64_t l = II->getIntrinsicID() == Intrinsic::fshl ? n : w - n;
              return apply("or", w, {apply("shl", w, {x, cst(w, l)}), apply("lshr", w, {y, cst(w, w - l)})});
            }
            return II->getIntrinsicID() == Intrinsic::fshl ? x : y;
          }
          return apply("fsh" + std::string(II->getIntrinsicID() == Intrinsic::fshl ? "l" : "r"), w, {x, y, s});
        }
        default: break;
        }
      }
      if (CB->doesNotAccessMemory() || G->doesNotAccessMemory()) {
        std::vector<T> as;
        for (auto &x : CB->args())
          as.push_back(term(x.get()));
        std::string nm = G->getName().str();
        if (nm.rfind("vf_pure.", 0) == 0)
          nm = "pure." + nm.substr(8);
        return apply(nm, w, as);
      }
      if ((G->getName() == "memcmp" || G->getName() == "bcmp") && CB->arg_size() == 3) {
        T n = term(CB->getArgOperand(2));
        auto *MA = dyn_cast_or_null<MemoryUseOrDef>(MSSA->getMemoryAccess(CB));
        if (isC(n) && n->k.ule(64) && MA) {
          T eq = cst(1, 1);
          auto at = [&](int i, unsigned k) {
            Value *P = CB->getArgOperand(i);
            return loadAt(apply("add", 64, {term(P), cst(64, k)}), 8, MA->getDefiningAccess(), MemoryLocation(P, LocationSize::precise(n->k.getZExtValue())));
          };
          for (unsigned k = n->k.getZExtValue(); k--;)
            eq = land(apply("eq", 1, {at(0, k), at(1, k)}), eq);
          return ite(eq, cst(w, 0), apply("nonzero", w, {self(V)}));
        }
      }
      if (CB->onlyReadsMemory() || G->getName() == "memcmp" || G->getName() == "bcmp" || G->getName() == "strlen") {
        std::vector<T> as;
        for (auto &x : CB->args())
          as.push_back(term(x.get()));
        std::string nm = G->getName().str();
        if (nm == "memcmp")
          nm = "bcmp";
        // the texts of the program do not change
        if (nm == "strlen")
          return apply(nm, w, as);
        return apply(nm + ":" + version(CB, MemoryLocation()), w, as);
      }
    }
    return self(V);
  }
  bool reaches(BasicBlock *A, BasicBlock *B) {
    auto it = reach.find({A, B});
    if (it != reach.end())
      return it->second;
    // forwards, without the back edges
    std::set<BasicBlock *> seen;
    std::vector<BasicBlock *> todo{A};
    bool r = false;
    while (!todo.empty()) {
      auto *X = todo.back();
      todo.pop_back();
      if (X == B) {
        r = true;
        break;
      }
      if (!seen.insert(X).second)
        continue;
      for (auto *S : successors(X))
        if (!DT.dominates(S, X))
          todo.push_back(S);
    }
    return reach[{A, B}] = r;
  }
  bool isHeader(BasicBlock *B) {
    for (auto *Q : predecessors(B))
      if (DT.dominates(B, Q))
        return true;
    return false;
  }
  T phi(PHINode *P) {
    if (isHeader(P->getParent()))
      return self(P); // a variable of a loop
    T r = gate(P->getParent(), [&](BasicBlock *X) { return term(P->getIncomingValueForBlock(X)); });
    return r ? r : self(P);
  }
  // the value at the start of a block, from its value at the end of those before
  T gate(BasicBlock *B, std::function<T(BasicBlock *)> val) {
    BasicBlock *D = DT.getNode(B)->getIDom()->getBlock();
    std::map<BasicBlock *, T> done;
    bool fail = false;
    std::function<T(BasicBlock *)> g;
    auto edge = [&](BasicBlock *X, BasicBlock *S) -> T {
      if (S == B)
        return val(X);
      if (S == D || DT.dominates(S, X) || !reaches(S, B))
        return bot();
      return g(S);
    };
    auto dead = [&](BasicBlock *X, BasicBlock *S) { return S != B && (S == D || DT.dominates(S, X) || !reaches(S, B)); };
    g = [&](BasicBlock *X) -> T {
      auto it = done.find(X);
      if (it != done.end())
        return it->second;
      if (fail)
        return bot();
      if (auto *L = LI.getLoopFor(X); L && !L->contains(B) && L->getHeader() == X) {
        // through the loop: which exit is taken is not known
        SmallVector<BasicBlock *, 4> ex;
        L->getUniqueExitBlocks(ex);
        T r = nullptr;
        SmallVector<std::pair<BasicBlock *, BasicBlock *>, 4> ed;
        SmallVector<Loop::Edge, 4> es;
        L->getExitEdges(es);
        for (auto &[X1, S1] : es) {
          T t = edge(X1, S1);
          if (t->op == "bot")
            continue;
          if (r && r != t)
            fail = true;
          r = t;
        }
        return done[X] = r ? r : bot();
      }
      auto *TI = X->getTerminator();
      T r = bot();
      if (auto *Br = dyn_cast<BranchInst>(TI)) {
        if (Br->isUnconditional())
          r = edge(X, Br->getSuccessor(0));
        else if (bool d0 = dead(X, Br->getSuccessor(0)), d1 = dead(X, Br->getSuccessor(1)); d0 || d1)
          r = d0 && d1 ? bot() : edge(X, Br->getSuccessor(d0));
        else if (T c = term(Br->getCondition()); isC(c)) // the other way is never taken
          r = edge(X, Br->getSuccessor(c->k.isZero()));
        else {
          T y = edge(X, Br->getSuccessor(0)), n = edge(X, Br->getSuccessor(1));
          r = y->op == "bot" ? n : n->op == "bot" ? y : ite(term(Br->getCondition()), y, n);
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(TI)) {
        T c = term(Sw->getCondition());
        if (isC(c))
          return done[X] = edge(X, Sw->findCaseValue(ConstantInt::get(F.getContext(), c->k))->getCaseSuccessor());
        r = edge(X, Sw->getDefaultDest());
        for (auto &cs : Sw->cases()) {
          T y = edge(X, cs.getCaseSuccessor());
          r = r->op == "bot" ? y : y->op == "bot" ? r : ite(apply("eq", 1, {c, cst(cs.getCaseValue()->getValue())}), y, r);
        }
      } else
        for (auto *S : successors(X)) {
          T y = edge(X, S);
          if (r->op == "bot")
            r = y;
          else if (y->op != "bot" && y != r)
            fail = true;
        }
      return done[X] = r;
    };
    T r = g(D);
    if (fail || r->op == "bot")
      return nullptr;
    return r;
  }
  // the condition under which a block is reached
  std::map<BasicBlock *, T> pcs;
  T reached(BasicBlock *B) {
    auto it = pcs.find(B);
    if (it != pcs.end())
      return it->second;
    if (B == &F.getEntryBlock())
      return pcs[B] = cst(1, 1);
    T r = cst(1, 0);
    for (auto *P : predecessors(B)) {
      if (DT.dominates(B, P) || !DT.isReachableFromEntry(P))
        continue;
      T c = reached(P);
      auto *TI = P->getTerminator();
      if (auto *Br = dyn_cast<BranchInst>(TI); Br && Br->isConditional()) {
        T k = term(Br->getCondition());
        if (Br->getSuccessor(0) != Br->getSuccessor(1) && k->op != "bot")
          c = land(c, Br->getSuccessor(0) == B ? k : lnot(k));
      } else if (auto *Sw = dyn_cast<SwitchInst>(TI)) {
        T x = term(Sw->getCondition()), k = cst(1, 0), d = cst(1, 1);
        for (auto &cs : Sw->cases()) {
          T e = apply("eq", 1, {x, cst(cs.getCaseValue()->getValue())});
          if (cs.getCaseSuccessor() == B)
            k = lor(k, e);
          d = land(d, lnot(e));
        }
        if (Sw->getDefaultDest() == B)
          k = lor(k, d);
        c = land(c, k);
      }
      r = lor(r, c);
    }
    return pcs[B] = r;
  }
  // the conditions known to hold at a block
  std::vector<std::pair<T, bool>> known(BasicBlock *B) {
    std::vector<std::pair<T, bool>> r;
    for (auto *N = DT.getNode(B); N && N->getIDom(); N = N->getIDom()) {
      BasicBlock *D = N->getIDom()->getBlock();
      if (auto *Br = dyn_cast<BranchInst>(D->getTerminator())) {
        if (!Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1))
          continue;
        for (int i = 0; i < 2; ++i)
          if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(i)), B) || !reaches(Br->getSuccessor(1 - i), B))
            r.push_back({term(Br->getCondition()), i == 0});
      } else if (auto *Sw = dyn_cast<SwitchInst>(D->getTerminator())) {
        T c = term(Sw->getCondition()), k = cst(1, 0);
        bool dflt = reaches(Sw->getDefaultDest(), B);
        for (auto &cs : Sw->cases())
          if (reaches(cs.getCaseSuccessor(), B) != dflt)
            k = lor(k, apply("eq", 1, {c, cst(cs.getCaseValue()->getValue())}));
        r.push_back({k, !dflt});
      }
    }
    return r;
  }
  T given(T t, const std::vector<std::pair<T, bool>> &ks) {
    for (auto &[c, v] : ks) {
      if (c->op == "bot")
        continue;
      t = v ? ite(c, t, bot()) : ite(c, bot(), t);
    }
    return t;
  }
  std::string show(T t, int d = 0) {
    if (isC(t)) {
      SmallString<40> s;
      t->k.toStringSigned(s, 10);
      return s.str().str();
    }
    if (t->args.empty())
      return t->op.substr(0, t->op.find('@')).substr(0, 60);
    static const int most = getenv("VF_DEPTH") ? atoi(getenv("VF_DEPTH")) : 5;
    if (d > most)
      return "..";
    if (t->op == "ite")
      return "(" + show(t->args[0], d + 1) + " ? " + show(t->args[1], d + 1) + " : " + show(t->args[2], d + 1) + ")";
    if (t->op == "lin") {
      std::string s;
      for (size_t i = 0; i < t->args.size(); i += 2)
        s += (s.empty() ? "" : " + ") + (isC(t->args[i + 1], 1) ? "" : show(t->args[i + 1], d + 1) + "*") + show(t->args[i], d + 1);
      SmallString<40> k;
      t->k.toStringSigned(k, 10);
      return "(" + s + (t->k.isZero() ? "" : " + " + k.str().str()) + ")";
    }
    std::string op = t->op.substr(0, t->op.find(':'));
    std::string s = op + "(";
    for (size_t i = 0; i < t->args.size(); ++i)
      s += (i ? ", " : "") + show(t->args[i], d + 1);
    if (op == "byte") {
      SmallString<8> k;
      t->k.toStringUnsigned(k);
      s += "#" + k.str().str();
    }
    return s + ")";
  }
};
} // namespace

std::vector<SameResult> compareValues(Function &F) {
  std::vector<SameResult> out;
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto &MSSA = FAM.getResult<MemorySSAAnalysis>(F).getMSSA();
  Engine E(F, &MSSA, &FAM.getResult<AAManager>(F));
  std::vector<CallInst *> asks, facts;
  for (auto &BB : F)
    if (E.DT.isReachableFromEntry(&BB))
      for (auto &I : BB)
        if (auto *CI = dyn_cast<CallInst>(&I); CI && CI->getCalledFunction()) {
          StringRef N = CI->getCalledFunction()->getName();
          if (N == "vf_same" || N == "vf_assert")
            asks.push_back(CI);
          else if (N == "vf_assume")
            facts.push_back(CI);
        }
  for (auto *A : facts) {
    bool all = true;
    for (auto *Q : asks)
      all &= E.DT.dominates(A, Q);
    if (all)
      E.assume(E.term(A->getArgOperand(0)));
  }
  for (auto &BB : F) {
    if (!E.DT.isReachableFromEntry(&BB))
      continue;
    for (auto &I : BB) {
      auto *CI = dyn_cast<CallInst>(&I);
      if (!CI || !CI->getCalledFunction())
        continue;
      StringRef N = CI->getCalledFunction()->getName();
      bool same = N == "vf_same", as = N == "vf_assert";
      if (!same && !as)
        continue;
      auto ks = E.known(&BB);
      auto *Id = dyn_cast<ConstantInt>(CI->getArgOperand(as ? 1 : 0));
      SameResult r;
      r.what = (as ? "assert" : "same") + (Id ? std::to_string(Id->getSExtValue()) : "?");
      r.loc = locOf(CI);
      r.chain = chainOf(CI);
      bool never = false;
      for (auto &[c, v] : ks)
        never |= E.isC(c) && c->k.isZero() == v;
      if (never) { // the code before makes another choice
        r.ok = true;
        out.push_back(r);
        continue;
      }
      // nothing reaches a block under contradictory conditions
      T a = E.given(E.term(CI->getArgOperand(as ? 0 : 1)), ks), b = as ? E.given(E.cst(1, 1), ks) : E.given(E.term(CI->getArgOperand(2)), ks);
      if (a != b) {
        T pc = E.reached(&BB);
        if (pc->op != "toobig" && pc->op != "bot") {
          a = E.ite(pc, a, E.bot());
          b = E.ite(pc, b, E.bot());
        }
      }
      if (getenv("VF_DBG"))
        outs() << r.what << (a == b ? "" : " DIFF") << " pc " << E.show(E.reached(&BB)) << "\n";
      r.ok = a == b && a->op != "toobig";
      if (!r.ok || getenv("VF_V"))
        r.detail = E.show(a) + " != " + E.show(b);
      out.push_back(r);
    }
  }
  return out;
}
} // namespace vf
