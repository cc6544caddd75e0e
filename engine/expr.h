// Hash-consed bit-vector expression DAG with local rewriting, and its translation to Z3.
// Floating-point values are bit-vectors; FP arithmetic is a UF node "fadd.32" etc. which the
// translator either leaves uninterpreted (abstract mode) or maps to Z3's FPA theory (exact mode).
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
#include <cassert>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

using llvm::APFloat;
using llvm::APInt;

enum class Op : uint8_t { CONST, VAR, UNDEF, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE, UF };

struct Node {
  Op op; unsigned w; unsigned id;
  unsigned lo = 0;            // EXTRACT low bit
  APInt c{1, 0};              // CONST
  std::string name;           // VAR / UF
  std::vector<const Node*> a;
  unsigned ct = 0;            // number of leaves when this is an ITE tree with constant leaves (0: not)
  Node(Op o, unsigned w_) : op(o), w(w_), id(0) {}
};
using E = const Node*;

struct Exprs {
  struct Key { Op op; unsigned w, lo; const APInt* c; const std::string* name; const std::vector<E>* a; };
  struct H { size_t operator()(const Node* n) const {
      size_t h = size_t(n->op) * 1000003u + n->w * 31u + n->lo * 7919u;
      if (n->op == Op::CONST) h ^= llvm::hash_value(n->c);
      if (!n->name.empty()) h ^= std::hash<std::string>()(n->name) * 3;
      for (auto x : n->a) h = h * 0x9E3779B97F4A7C15ull + x->id;
      return h; } };
  struct Q { bool operator()(const Node* x, const Node* y) const {
      return x->op == y->op && x->w == y->w && x->lo == y->lo && x->a == y->a && x->name == y->name
        && (x->op != Op::CONST || x->c == y->c); } };
  std::unordered_map<const Node*, E, H, Q> tab;
  std::deque<Node> store;
  unsigned fresh = 0;

  E intern(Node&& n) {
    auto it = tab.find(&n);
    if (it != tab.end()) return it->second;
    store.push_back(std::move(n));
    Node* p = &store.back();
    p->id = store.size();
    if (p->op == Op::CONST) p->ct = 1;
    else if (p->op == Op::ITE && p->a[1]->ct && p->a[2]->ct && p->a[1]->ct + p->a[2]->ct <= 128) p->ct = p->a[1]->ct + p->a[2]->ct;
    tab.emplace(p, p);
    return p;
  }
  E con(const APInt& v) { Node n(Op::CONST, v.getBitWidth()); n.c = v; return intern(std::move(n)); }
  E con(unsigned w, uint64_t v) { return con(APInt(w, v)); }
  E tru() { return con(1, 1); }
  E fls() { return con(1, 0); }
  E var(unsigned w, const std::string& name) { Node n(Op::VAR, w); n.name = name; return intern(std::move(n)); }
  E freshVar(unsigned w, const char* pfx = "undef") { return var(w, std::string(pfx) + "!" + std::to_string(fresh++)); }
  E undef(unsigned w) { return intern(Node(Op::UNDEF, w)); }
  E mk(Op o, unsigned w, std::vector<E> a, unsigned lo = 0, std::string name = {}) {
    Node n(o, w); n.a = std::move(a); n.lo = lo; n.name = std::move(name); return intern(std::move(n)); }
  static bool isC(E e) { return e->op == Op::CONST; }
  static bool isZero(E e) { return isC(e) && e->c.isZero(); }
  static bool isOnes(E e) { return isC(e) && e->c.isAllOnes(); }
  E def(E e) { return e->op == Op::UNDEF ? freshVar(e->w) : e; }

  E uf(const std::string& name, unsigned w, std::vector<E> a) { for (auto& x : a) x = def(x); return mk(Op::UF, w, std::move(a), 0, name); }

  E bnot(E a) { return bin(Op::XOR, a, con(APInt::getAllOnes(a->w))); }
  E neg(E a) { return bin(Op::SUB, con(a->w, 0), a); }
  E add(E a, E b) { return bin(Op::ADD, a, b); }
  E sub(E a, E b) { return bin(Op::SUB, a, b); }
  E land(E a, E b) { return bin(Op::AND, a, b); }
  E lor(E a, E b) { return bin(Op::OR, a, b); }

  bool complementary(E a, E b) { return a->op == Op::XOR && a->w == b->w && ((a->a[0] == b && isOnes(a->a[1])) )
                                  || b->op == Op::XOR && b->w == a->w && (b->a[0] == a && isOnes(b->a[1])); }

  E bin(Op o, E a, E b) {
    assert(a->w == b->w);
    a = def(a); b = def(b);
    unsigned w = a->w;
    if (isC(a) && isC(b)) {
      const APInt &x = a->c, &y = b->c;
      switch (o) {
        case Op::ADD: return con(x + y);
        case Op::SUB: return con(x - y);
        case Op::MUL: return con(x * y);
        case Op::UDIV: if (!y.isZero()) return con(x.udiv(y)); break;
        case Op::SDIV: if (!y.isZero()) return con(x.sdiv(y)); break;
        case Op::UREM: if (!y.isZero()) return con(x.urem(y)); break;
        case Op::SREM: if (!y.isZero()) return con(x.srem(y)); break;
        case Op::AND: return con(x & y);
        case Op::OR: return con(x | y);
        case Op::XOR: return con(x ^ y);
        case Op::SHL: return con(y.uge(w) ? APInt(w, 0) : x.shl(y));
        case Op::LSHR: return con(y.uge(w) ? APInt(w, 0) : x.lshr(y));
        case Op::ASHR: return con(y.uge(w) ? (x.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : x.ashr(y));
        default: break;
      }
    }
    switch (o) {
      case Op::ADD: case Op::MUL: case Op::AND: case Op::OR: case Op::XOR:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        break;
      default: break;
    }
    if (isC(b) && (o == Op::MUL || o == Op::SHL) && a->op == Op::ZEXT && a->a[0]->w == 1) return ite(a->a[0], bin(o, con(w, 1), b), con(w, 0));
    if (isC(b) && a->ct > 1 && !(isZero(b) && (o == Op::UDIV || o == Op::SDIV || o == Op::UREM || o == Op::SREM))) return ite(a->a[0], bin(o, a->a[1], b), bin(o, a->a[2], b));
    if (isC(a) && b->ct > 1 && o != Op::UDIV && o != Op::SDIV && o != Op::UREM && o != Op::SREM) return ite(b->a[0], bin(o, a, b->a[1]), bin(o, a, b->a[2]));
    if ((o == Op::AND || o == Op::OR || o == Op::XOR) && a->op == b->op && (a->op == Op::ZEXT || a->op == Op::SEXT) && a->a[0]->w == b->a[0]->w)
      return a->op == Op::ZEXT ? zext(bin(o, a->a[0], b->a[0]), w) : sext(bin(o, a->a[0], b->a[0]), w);
    switch (o) {
      case Op::ADD:
        if (isZero(b)) return a;
        if (isC(b) && a->op == Op::ADD && isC(a->a[1])) return bin(Op::ADD, a->a[0], con(a->a[1]->c + b->c));
        break;
      case Op::SUB:
        if (isZero(b)) return a;
        if (a == b) return con(w, 0);
        if (isC(b)) return bin(Op::ADD, a, con(-b->c));
        if (a->op == Op::ADD && isC(a->a[1]) && b->op == Op::ADD && isC(b->a[1]) && a->a[0] == b->a[0]) return con(a->a[1]->c - b->a[1]->c);
        if (a->op == Op::ADD && a->a[0] == b) return a->a[1];
        if (a->op == Op::ADD && a->a[1] == b) return a->a[0];
        break;
      case Op::MUL:
        if (isZero(b)) return b;
        if (isC(b) && b->c.isOne()) return a;
        if (isC(b) && b->c.isPowerOf2()) return bin(Op::SHL, a, con(w, b->c.logBase2()));
        break;
      case Op::AND:
        if (isZero(b)) return b;
        if (isOnes(b)) return a;
        if (a == b) return a;
        if (complementary(a, b)) return con(w, 0);
        if (isC(b) && a->op == Op::AND && isC(a->a[1])) return bin(Op::AND, a->a[0], con(a->a[1]->c & b->c));
        if (isC(b) && b->c.isMask() && w > 1) return zext(extract(a, 0, b->c.countTrailingOnes()), w);
        if (isC(b) && b->c.isPowerOf2() && a->op == Op::SEXT && a->a[0]->w == 1) return ite(a->a[0], b, con(w, 0));
        break;
      case Op::OR:
        if (isZero(b)) return a;
        if (isOnes(b)) return b;
        if (a == b) return a;
        if (complementary(a, b)) return con(APInt::getAllOnes(w));
        break;
      case Op::XOR:
        if (isZero(b)) return a;
        if (a == b) return con(w, 0);
        if (isC(b) && a->op == Op::XOR && isC(a->a[1])) return bin(Op::XOR, a->a[0], con(a->a[1]->c ^ b->c));
        if (isOnes(b) && a->op == Op::SEXT) return sext(bnot(a->a[0]), w);
        break;
      case Op::SHL:
        if (isZero(b)) return a;
        if (isC(b)) {
          if (b->c.uge(w)) return con(w, 0);
          unsigned k = b->c.getZExtValue();
          return concat(extract(a, 0, w - k), con(k, 0));
        }
        break;
      case Op::LSHR:
        if (isZero(b)) return a;
        if (isC(b)) {
          if (b->c.uge(w)) return con(w, 0);
          unsigned k = b->c.getZExtValue();
          if (E r = divBoolSum(a, k)) return r;
          return zext(extract(a, k, w - k), w);
        }
        break;
      case Op::ASHR:
        if (isZero(b)) return a;
        if (isC(b)) {
          unsigned k = b->c.uge(w) ? w - 1 : b->c.getZExtValue();
          if (E r = divBoolSum(a, k)) return r;
          return sext(extract(a, k, w - k), w);
        }
        break;
      case Op::UDIV:
        if (isC(b) && b->c.isOne()) return a;
        if (isC(b) && b->c.isPowerOf2()) return bin(Op::LSHR, a, con(w, b->c.logBase2()));
        if (a == b) return ite(eq(a, con(w, 0)), con(APInt::getAllOnes(w)), con(w, 1));
        break;
      case Op::SDIV:
        if (isC(b) && b->c.isOne()) return a;
        if (isC(b) && !b->c.isNegative() && b->c.isPowerOf2()) if (E r = divBoolSum(a, b->c.logBase2())) return r;
        if (a == b) return ite(eq(a, con(w, 0)), con(APInt::getAllOnes(w)), con(w, 1));
        break;
      case Op::UREM:
        if (isC(b) && b->c.isPowerOf2()) return bin(Op::AND, a, con(b->c - 1));
        if (a == b) return con(w, 0);
        break;
      case Op::SREM:
        if (a == b) return con(w, 0);
        break;
      default: break;
    }
    return mk(o, w, {a, b});
  }

  std::map<std::tuple<E, unsigned, unsigned>, E> xmemo;
  E extract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w && w > 0);
    if (w == a->w) return a;
    switch (a->op) { // shared sub-terms below are otherwise visited once per path
      case Op::ITE: case Op::ADD: case Op::SUB: case Op::MUL: case Op::AND: case Op::OR: case Op::XOR: {
        auto it = xmemo.find({a, lo, w});
        if (it != xmemo.end()) return it->second;
        return xmemo[{a, lo, w}] = extract_(a, lo, w);
      }
      default: return extract_(a, lo, w);
    }
  }
  E extract_(E a, unsigned lo, unsigned w) {
    switch (a->op) {
      case Op::UNDEF: return undef(w);
      case Op::CONST: return con(a->c.extractBits(w, lo));
      case Op::EXTRACT: return extract(a->a[0], a->lo + lo, w);
      case Op::CONCAT: { // a[0] = high, a[1] = low
        E hi = a->a[0], l = a->a[1];
        if (lo >= l->w) return extract(hi, lo - l->w, w);
        if (lo + w <= l->w) return extract(l, lo, w);
        return concat(extract(hi, 0, lo + w - l->w), extract(l, lo, l->w - lo));
      }
      case Op::ZEXT: {
        E x = a->a[0];
        if (lo >= x->w) return con(w, 0);
        if (lo + w <= x->w) return extract(x, lo, w);
        return zext(extract(x, lo, x->w - lo), w);
      }
      case Op::SEXT: {
        E x = a->a[0];
        if (lo >= x->w) return sext(extract(x, x->w - 1, 1), w);
        if (lo + w <= x->w) return extract(x, lo, w);
        return sext(extract(x, lo, x->w - lo), w);
      }
      case Op::ITE: return ite(a->a[0], extract(a->a[1], lo, w), extract(a->a[2], lo, w));
      case Op::ADD: case Op::SUB: case Op::MUL:
        if (lo == 0) return bin(a->op, extract(a->a[0], 0, w), extract(a->a[1], 0, w));
        break;
      case Op::AND: case Op::OR: case Op::XOR:
        return bin(a->op, extract(a->a[0], lo, w), extract(a->a[1], lo, w));
      default: break;
    }
    return mk(Op::EXTRACT, w, {a}, lo);
  }
  E concat(E hi, E lo) {
    if (hi->op == Op::UNDEF && lo->op == Op::UNDEF) return undef(hi->w + lo->w);
    hi = def(hi); lo = def(lo);
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return con(hi->c.zext(w).shl(lo->w) | lo->c.zext(w));
    if (isZero(hi)) return zext(lo, w);
    if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->a[0] == lo->a[0] && hi->lo == lo->lo + lo->w)
      return extract(hi->a[0], lo->lo, w);
    // concat(extract(x,..), concat(extract(x,..), r))
    if (hi->op == Op::EXTRACT && lo->op == Op::CONCAT && lo->a[0]->op == Op::EXTRACT
        && hi->a[0] == lo->a[0]->a[0] && hi->lo == lo->a[0]->lo + lo->a[0]->w)
      return concat(extract(hi->a[0], lo->a[0]->lo, hi->w + lo->a[0]->w), lo->a[1]);
    // the low part was distributed over the arithmetic
    if (hi->op == Op::EXTRACT && hi->lo == lo->w && (hi->a[0]->op == Op::ADD || hi->a[0]->op == Op::SUB || hi->a[0]->op == Op::MUL) && extract(hi->a[0], 0, lo->w) == lo)
      return extract(hi->a[0], 0, w);
    if (hi->op == Op::ZEXT) return zext(concat(hi->a[0], lo), w);
    if (hi->op == Op::ITE && lo->op == Op::ITE && hi->a[0] == lo->a[0])
      return ite(hi->a[0], concat(hi->a[1], lo->a[1]), concat(hi->a[2], lo->a[2]));
    return mk(Op::CONCAT, w, {hi, lo});
  }
  E zext(E a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    a = def(a);
    if (isC(a)) return con(a->c.zext(w));
    if (a->op == Op::ZEXT) return zext(a->a[0], w);
    if (a->ct > 1) return ite(a->a[0], zext(a->a[1], w), zext(a->a[2], w));
    return mk(Op::ZEXT, w, {a});
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a;
    a = def(a);
    if (isC(a)) return con(a->c.sext(w));
    if (a->op == Op::SEXT) return sext(a->a[0], w);
    if (a->op == Op::ZEXT) return zext(a->a[0], w);
    if (a->ct > 1) return ite(a->a[0], sext(a->a[1], w), sext(a->a[2], w));
    return mk(Op::SEXT, w, {a});
  }
  E ite(E c, E t, E f) {
    assert(c->w == 1 && t->w == f->w);
    c = def(c);
    if (isC(c)) return c->c.isOne() ? t : f;
    if (t == f) return t;
    if (c->op == Op::XOR && isOnes(c->a[1])) { c = c->a[0]; std::swap(t, f); }
    t = def(t); f = def(f);
    if (t->op == Op::ITE && t->a[0] == c) t = t->a[1];
    if (f->op == Op::ITE && f->a[0] == c) f = f->a[2];
    if (t == f) return t;
    if (t->w == 1) {
      if (isC(t) && isC(f)) return t->c.isOne() ? c : bnot(c);
      if (isC(t)) return t->c.isOne() ? lor(c, f) : land(bnot(c), f);
      if (isC(f)) return f->c.isOne() ? lor(bnot(c), t) : land(c, t);
      if (t == c) return lor(c, f);
      if (f == c) return land(c, t);
    }
    if (t->w > 1 && isC(t) && isC(f)) {  // 0/1 are zero-extended bits
      if (t->c.isOne() && f->c.isZero()) return zext(c, t->w);
      if (f->c.isOne() && t->c.isZero()) return zext(bnot(c), t->w);
    }
    if (t->op == Op::ITE && t->a[2] == f) return ite(land(c, t->a[0]), t->a[1], f);
    if (t->w > 1 && t->w <= 32 && t->op == Op::ADD && isC(t->a[1]) && t->a[0] == f && f->op != Op::ITE && t->a[1]->c.isOne()) return bin(Op::ADD, f, zext(c, t->w));
    if (t->w > 1) { // ite(c, x + y, x) = x + ite(c, y, 0)
      for (Op o : {Op::ADD, Op::XOR, Op::MUL, Op::OR, Op::AND}) {
        auto id = [&] { return o == Op::MUL ? con(t->w, 1) : o == Op::AND ? con(APInt::getAllOnes(t->w)) : con(t->w, 0); };
        if (t->op == o && !isC(t->a[1])) { if (t->a[0] == f) return bin(o, f, ite(c, t->a[1], id())); if (t->a[1] == f) return bin(o, f, ite(c, t->a[0], id())); }
        if (f->op == o && !isC(f->a[1])) { if (f->a[0] == t) return bin(o, t, ite(c, id(), f->a[1])); if (f->a[1] == t) return bin(o, t, ite(c, id(), f->a[0])); }
      }
      // trees over at most four distinct leaves: a right comb ordered by leaf
      if (t->op == Op::ITE || f->op == Op::ITE) {
        E lt[4], lf[4], ct[4], cf[4]; int nt = comb(t, lt, ct), nf = comb(f, lf, cf);
        if (nt && nf) {
          E l[8]; int n = 0, i = 0, j = 0; E cc[8];
          while (i < nt || j < nf) {
            E x = i < nt && (j >= nf || lt[i]->id <= lf[j]->id) ? lt[i] : lf[j];
            E p = i < nt && lt[i] == x ? ct[i++] : fls(), q = j < nf && lf[j] == x ? cf[j++] : fls();
            l[n] = x; cc[n++] = ite(c, p, q);
          }
          if (n <= 4) {
            E r = l[n - 1];
            for (int k = n - 2; k >= 0; --k) { if (isC(cc[k])) { if (cc[k]->c.isOne()) r = l[k]; } else if (r != l[k]) r = mk(Op::ITE, t->w, {cc[k], l[k], r}); }
            return r;
          }
        }
      }
    }
    return mk(Op::ITE, t->w, {c, t, f});
  }
  // e as a right comb of at most four leaves in increasing id order: leaf k is taken when cond k is the first true one
  int comb(E e, E* l, E* c) {
    int n = 0;
    for (;;) {
      if (n == 4) return 0;
      if (e->op != Op::ITE) { l[n] = e; c[n] = tru(); return !n || l[n - 1]->id < e->id ? n + 1 : 0; }
      if (e->a[1]->op == Op::ITE || (n && l[n - 1]->id >= e->a[1]->id)) return 0;
      l[n] = e->a[1]; c[n++] = e->a[0]; e = e->a[2];
    }
  }
  // distribute a predicate over two combs that share leaves
  template <class F> E overLeaves(E a, E b, F f) {
    if (a->op != Op::ITE && b->op != Op::ITE) return nullptr;
    E la[4], lb[4], ca[4], cb[4]; int na = comb(a, la, ca), nb = comb(b, lb, cb); if (!na || !nb) return nullptr;
    int shared = 0; for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) shared += la[i] == lb[j];
    if (na + nb - shared > 4) return nullptr;
    E r = nullptr;
    for (int i = na - 1; i >= 0; --i) { E q = nullptr; for (int j = nb - 1; j >= 0; --j) { E v = f(la[i], lb[j]); q = q ? ite(cb[j], v, q) : v; } r = r ? ite(ca[i], q, r) : q; }
    return r;
  }
  // flatten an associative-commutative operator into (leaf -> signed count) and a constant
  bool flat(Op o, E e, int sign, std::map<unsigned, std::pair<E, int>>& m, APInt& k, unsigned& budget) {
    if (budget-- == 0) return false;
    if (isC(e)) { if (o == Op::ADD) k = sign > 0 ? k + e->c : k - e->c; else if (o == Op::XOR) k ^= e->c; else if (o == Op::MUL) k *= e->c; else { auto& x = m[e->id]; x = {e, 1}; } return true; }
    if (e->op == o) return flat(o, e->a[0], sign, m, k, budget) && flat(o, e->a[1], sign, m, k, budget);
    if (o == Op::ADD && e->op == Op::SUB) return flat(o, e->a[0], sign, m, k, budget) && flat(o, e->a[1], -sign, m, k, budget);
    if (o == Op::MUL && e->op == Op::ITE) { // ite(c, x * y, x) = x * ite(c, y, 1)
      E c = e->a[0], t = e->a[1], f = e->a[2];
      if (t->op == Op::MUL && (t->a[0] == f || t->a[1] == f)) return flat(o, f, sign, m, k, budget) && flat(o, ite(c, t->a[t->a[0] == f], con(e->w, 1)), sign, m, k, budget);
      if (f->op == Op::MUL && (f->a[0] == t || f->a[1] == t)) return flat(o, t, sign, m, k, budget) && flat(o, ite(c, con(e->w, 1), f->a[f->a[0] == t]), sign, m, k, budget);
    }
    if (o == Op::ADD && e->op == Op::SEXT && e->a[0]->w == 1 && e->w > 1) return flat(o, zext(e->a[0], e->w), -sign, m, k, budget);
    auto& x = m[e->id]; x.first = e; x.second += sign;
    if (o == Op::XOR) x.second &= 1; else if (o == Op::AND || o == Op::OR) x.second = 1;
    return true;
  }
  // (sum of c_i * zext(bool_i)) / 2^k where every c_i is a non-negative multiple of 2^k and the sum cannot overflow
  E divBoolSum(E e, unsigned k) {
    if (e->op == Op::SEXT || e->op == Op::ZEXT) { E r = e->a[0]->w > 1 ? divBoolSum(e->a[0], k) : nullptr; return r ? zext(r, e->w) : nullptr; }
    if ((e->op != Op::ADD && e->op != Op::SUB) || k >= 16) return nullptr;
    std::map<unsigned, std::pair<E, int>> m; APInt c(e->w, 0); unsigned budget = 3000;
    if (!flat(Op::ADD, e, 1, m, c, budget)) return nullptr;
    if (c.isNegative() || c.getActiveBits() > 24) return nullptr;
    uint64_t tot = c.getZExtValue(); if (tot & ((1u << k) - 1)) return nullptr;
    for (auto& [id, x] : m) { if (!x.second) continue; if (x.second < 0 || (x.second & ((1 << k) - 1)) || x.first->op != Op::ZEXT || x.first->a[0]->w != 1) return nullptr; tot += x.second; }
    if (e->w < 2 || (e->w <= 32 && tot >> (e->w - 1))) return nullptr;
    E r = con(c.lshr(k));
    for (auto& [id, x] : m) for (int i = 0; i < x.second >> k; ++i) r = add(r, x.first);
    return r;
  }
  // equality of two sums / products / xors / conjunctions modulo associativity and commutativity
  E eqAC(E a, E b) {
    for (Op o : {Op::ADD, Op::XOR, Op::MUL, Op::AND, Op::OR}) {
      auto is = [&](E e) { return e->op == o || (o == Op::ADD && e->op == Op::SUB) || (o == Op::MUL && e->op == Op::ITE && (e->a[1]->op == Op::MUL || e->a[2]->op == Op::MUL)); };
      if (o == Op::ADD || o == Op::XOR ? !is(a) && !is(b) : !is(a) || !is(b)) continue;
      std::map<unsigned, std::pair<E, int>> m, n; APInt k(a->w, o == Op::MUL ? 1 : 0), l = k; unsigned budget = 3000;
      if (!flat(o, a, 1, m, k, budget) || !flat(o, b, 1, n, l, budget)) return nullptr;
      bool cut = false;
      if (o == Op::ADD || o == Op::XOR) {
        for (auto& [id, x] : m) if (auto it = n.find(id); it != n.end() && x.second && it->second.second) {
          int c = o == Op::XOR ? 1 : x.second > 0 ? std::min(x.second, it->second.second) : std::max(x.second, it->second.second);
          if (x.second > 0 != it->second.second > 0) continue;
          x.second -= c; it->second.second -= c; cut = true;
        }
        auto build = [&](std::map<unsigned, std::pair<E, int>>& q, APInt kk) { E r = nullptr; 
          for (auto& [id, x] : q) for (int i = 0; i < std::abs(x.second); ++i) { E t = x.second > 0 || o == Op::XOR ? x.first : neg(x.first); r = r ? bin(o, r, t) : t; }
          return !r ? con(kk) : kk.isZero() ? r : bin(o, r, con(kk)); };
        if (!cut) return nullptr;
        APInt d = o == Op::ADD ? k - l : k ^ l;
        E x = build(m, d), y = build(n, APInt(a->w, 0));
        return eq(x, y);
      }
      bool sm = k == l && m.size() == n.size();
      if (sm) for (auto i = m.begin(), j = n.begin(); i != m.end(); ++i, ++j) sm &= i->first == j->first && i->second.second == j->second.second;
      if (sm) return tru();
    }
    return nullptr;
  }
  E eq(E a, E b) {
    assert(a->w == b->w);
    if (a->op != Op::UNDEF && a == b) return tru();
    a = def(a); b = def(b);
    if (isC(a) && isC(b)) return con(1, a->c == b->c);
    if (isC(a)) std::swap(a, b);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    if (a->w == 1) {
      if (isC(b)) return b->c.isOne() ? a : bnot(a);
      if (complementary(a, b)) return fls();
      return bnot(bin(Op::XOR, a, b));
    }
    if (isC(b)) {
      if (a->op == Op::ZEXT) {
        if (b->c.getActiveBits() > a->a[0]->w) return fls();
        return eq(a->a[0], con(b->c.trunc(a->a[0]->w)));
      }
      if (a->op == Op::SEXT) {
        APInt t = b->c.trunc(a->a[0]->w);
        if (t.sext(a->w) != b->c) return fls();
        return eq(a->a[0], con(t));
      }
      if (a->op == Op::AND && isC(a->a[1]) && a->a[1]->c.isPowerOf2()) {
        E bit = extract(a->a[0], a->a[1]->c.logBase2(), 1);
        return b->c.isZero() ? bnot(bit) : b->c == a->a[1]->c ? bit : fls();
      }
      if (a->op == Op::ADD && isC(a->a[1])) return eq(a->a[0], con(b->c - a->a[1]->c));
      if (a->op == Op::XOR && isC(a->a[1])) return eq(a->a[0], con(b->c ^ a->a[1]->c));
      if (a->op == Op::ITE && (isC(a->a[1]) || isC(a->a[2]))) return ite(a->a[0], eq(a->a[1], b), eq(a->a[2], b));
      if (a->op == Op::CONCAT) return land(eq(a->a[0], con(b->c.extractBits(a->a[0]->w, a->a[1]->w))), eq(a->a[1], con(b->c.trunc(a->a[1]->w))));
    } else {
      if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
      if (a->op == Op::SEXT && b->op == Op::SEXT && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
      if (a->op == Op::CONCAT && b->op == Op::CONCAT && a->a[0]->w == b->a[0]->w) return land(eq(a->a[0], b->a[0]), eq(a->a[1], b->a[1]));
      if (a->op == Op::ITE && b->op == Op::ITE && a->a[0] == b->a[0]) return ite(a->a[0], eq(a->a[1], b->a[1]), eq(a->a[2], b->a[2]));
    }
    for (int k = 0; k < 2; ++k, std::swap(a, b)) if (a->op == Op::ITE) {
      if (a->a[1] == b) return lor(a->a[0], eq(a->a[2], b));
      if (a->a[2] == b) return lor(bnot(a->a[0]), eq(a->a[1], b));
      if (b->op == Op::MUL) for (int i = 1; i < 3; ++i) if (!isC(a->a[i])) if (E e = eqAC(a->a[i], b); e && isC(e) && e->c.isOne()) return i == 1 ? lor(a->a[0], eq(a->a[2], b)) : lor(bnot(a->a[0]), eq(a->a[1], b));
    }
    if (E r = overLeaves(a, b, [&](E x, E y) { return eq(x, y); })) return r;
    if (E r = eqAC(a, b)) return r;
    return mk(Op::EQ, 1, {a, b});
  }
  E ne(E a, E b) { return bnot(eq(a, b)); }
  E cmp(Op o, E a, E b) {
    a = def(a); b = def(b);
    if (isC(a) && isC(b)) {
      switch (o) {
        case Op::ULT: return con(1, a->c.ult(b->c));
        case Op::ULE: return con(1, a->c.ule(b->c));
        case Op::SLT: return con(1, a->c.slt(b->c));
        case Op::SLE: return con(1, a->c.sle(b->c));
        default: break;
      }
    }
    if (a == b) return con(1, o == Op::ULE || o == Op::SLE);
    if (a->w == 1 && o == Op::ULT) return land(bnot(a), b);
    if (a->w == 1 && o == Op::SLT) return land(a, bnot(b));
    if (o == Op::ULT && isZero(b)) return fls();
    if (o == Op::ULE && isZero(a)) return tru();
    if (o == Op::ULE) return bnot(cmp(Op::ULT, b, a));
    if (o == Op::SLE) return bnot(cmp(Op::SLT, b, a));
    if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->a[0]->w == b->a[0]->w) return cmp(Op::ULT, a->a[0], b->a[0]);
    if (a->op == Op::SEXT && b->op == Op::SEXT && a->a[0]->w == b->a[0]->w) return cmp(o, a->a[0], b->a[0]);
    if (o == Op::SLT && a->op == Op::ZEXT && b->op == Op::ZEXT) return cmp(Op::ULT, a, b);
    if ((o == Op::ULT || o == Op::SLT) && a->op == Op::ZEXT && isC(b)) {
      unsigned xw = a->a[0]->w;
      if (o == Op::SLT && b->c.isNegative()) return fls();
      if (b->c.getActiveBits() > xw) return tru();
      return cmp(Op::ULT, a->a[0], con(b->c.trunc(xw)));
    }
    if ((o == Op::ULT || o == Op::SLT) && b->op == Op::ZEXT && isC(a)) {
      unsigned xw = b->a[0]->w;
      if (o == Op::SLT && a->c.isNegative()) return tru();
      if (a->c.getActiveBits() > xw) return fls();
      return cmp(Op::ULT, con(a->c.trunc(xw)), b->a[0]);
    }
    if (o == Op::SLT && isZero(a) && b->op == Op::AND && isC(b->a[1]) && !b->a[1]->c.isNegative()) return ne(b, a);
    if (o == Op::ULT && isZero(a)) return ne(b, a);
    if (isZero(b) && o == Op::SLT) return extract(a, a->w - 1, 1);  // sign bit
    if (isC(b) && a->op == Op::ZEXT && a->a[0]->w == 1) return ite(a->a[0], cmp(o, con(a->w, 1), b), cmp(o, con(a->w, 0), b));
    if (isC(a) && b->op == Op::ZEXT && b->a[0]->w == 1) return ite(b->a[0], cmp(o, a, con(a->w, 1)), cmp(o, a, con(a->w, 0)));
    if (isC(b) && a->ct > 1) return ite(a->a[0], cmp(o, a->a[1], b), cmp(o, a->a[2], b));
    if (isC(a) && b->ct > 1) return ite(b->a[0], cmp(o, a, b->a[1]), cmp(o, a, b->a[2]));
    if (a->op == Op::ITE && (a->a[1] == b || a->a[2] == b)) return ite(a->a[0], cmp(o, a->a[1], b), cmp(o, a->a[2], b));
    if (b->op == Op::ITE && (b->a[1] == a || b->a[2] == a)) return ite(b->a[0], cmp(o, a, b->a[1]), cmp(o, a, b->a[2]));
    if (E r = overLeaves(a, b, [&](E x, E y) { return cmp(o, x, y); })) return r;
    return mk(o, 1, {a, b});
  }

  // ---- floating point on bits ----
  struct FpFmt { unsigned w, eb, sb; };
  static FpFmt fmt(unsigned w) { return w == 16 ? FpFmt{16, 5, 11} : w == 32 ? FpFmt{32, 8, 24} : w == 64 ? FpFmt{64, 11, 53} : w == 80 ? FpFmt{80, 15, 64} : FpFmt{128, 15, 113}; }
  static const llvm::fltSemantics& sem(unsigned w) {
    return w == 16 ? APFloat::IEEEhalf() : w == 32 ? APFloat::IEEEsingle() : w == 64 ? APFloat::IEEEdouble() : w == 80 ? APFloat::x87DoubleExtended() : APFloat::IEEEquad(); }
  APInt infBits(unsigned w) { return APFloat::getInf(sem(w)).bitcastToAPInt(); }
  E mag(E a) { return concat(con(1, 0), extract(a, 0, a->w - 1)); }
  E fsign(E a) { return extract(a, a->w - 1, 1); }
  E isNaN(E a) { return cmp(Op::ULT, con(infBits(a->w).trunc(a->w - 1)), extract(a, 0, a->w - 1)); }
  E isInf(E a) { return eq(extract(a, 0, a->w - 1), con(infBits(a->w).trunc(a->w - 1))); }
  E isFZero(E a) { return eq(extract(a, 0, a->w - 1), con(a->w - 1, 0)); }
  E fabs(E a) { a = def(a); return zext(extract(a, 0, a->w - 1), a->w); }
  E fneg(E a) { a = def(a); return concat(bnot(fsign(a)), extract(a, 0, a->w - 1)); }
  E feqOrd(E a, E b) { if (a == b && a->op != Op::UNDEF) return bnot(isNaN(a)); if (E r = overLeaves(a, b, [&](E x, E y) { return feqOrd(x, y); })) return r; return land(land(bnot(isNaN(a)), bnot(isNaN(b))), lor(eq(a, b), land(isFZero(a), isFZero(b)))); }
  E fltOrd(E a, E b) {
    if (a == b) return fls();
    if (E r = overLeaves(a, b, [&](E x, E y) { return fltOrd(x, y); })) return r;
    E s1 = fsign(a), s2 = fsign(b);
    E ma = extract(a, 0, a->w - 1), mb = extract(b, 0, b->w - 1);
    E bothz = land(isFZero(a), isFZero(b));
    E lt = ite(s1, ite(s2, cmp(Op::ULT, mb, ma), bnot(bothz)), ite(s2, fls(), cmp(Op::ULT, ma, mb)));
    return land(land(bnot(isNaN(a)), bnot(isNaN(b))), lt);
  }
};

// ---- translation to Z3 ----
struct Z3Tr {
  Exprs& ex; Z3_context c; bool exact; unsigned approxUF = 0;
  std::unordered_map<E, Z3_ast> bv, bo;
  std::map<std::string, Z3_func_decl> decls;
  std::unordered_map<std::string, Z3_ast> vars;
  bool usedFP = false, usedUF = false;
  Z3Tr(Exprs& e, Z3_context c_, bool exact_) : ex(e), c(c_), exact(exact_) {}
  Z3_ast ref(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast num(const APInt& v) {
    llvm::SmallString<64> s; v.toString(s, 10, false);
    return ref(Z3_mk_numeral(c, s.c_str(), Z3_mk_bv_sort(c, v.getBitWidth())));
  }
  static bool boolOp(E n) {
    if (n->w != 1) return false;
    switch (n->op) { case Op::EQ: case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE: case Op::AND: case Op::OR: case Op::XOR: case Op::ITE: case Op::CONST: return true; default: return false; }
  }
  // iterative post-order to avoid deep recursion
  void prep(E root) {
    std::vector<std::pair<E, size_t>> st{{root, 0}};
    while (!st.empty()) {
      auto& [n, i] = st.back();
      if (i == 0 && (bv.count(n) || bo.count(n))) { st.pop_back(); continue; }
      if (i < n->a.size()) { E ch = n->a[i++]; if (!bv.count(ch) && !bo.count(ch)) st.push_back({ch, 0}); continue; }
      E m = n; st.pop_back();
      if (boolOp(m)) toBoolNow(m); else toBVNow(m);
    }
  }
  Z3_ast B(E n) { prep(n); return toBoolNow(n); }
  Z3_ast toBoolNow(E n) {
    auto it = bo.find(n); if (it != bo.end()) return it->second;
    Z3_ast r;
    if (!boolOp(n)) r = Z3_mk_eq(c, toBVNow(n), num(APInt(1, 1)));
    else switch (n->op) {
      case Op::CONST: r = n->c.isOne() ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case Op::EQ: if (n->a[0]->w == 1) r = Z3_mk_iff(c, toBoolNow(n->a[0]), toBoolNow(n->a[1])); else r = Z3_mk_eq(c, toBVNow(n->a[0]), toBVNow(n->a[1])); break;
      case Op::ULT: r = Z3_mk_bvult(c, toBVNow(n->a[0]), toBVNow(n->a[1])); break;
      case Op::ULE: r = Z3_mk_bvule(c, toBVNow(n->a[0]), toBVNow(n->a[1])); break;
      case Op::SLT: r = Z3_mk_bvslt(c, toBVNow(n->a[0]), toBVNow(n->a[1])); break;
      case Op::SLE: r = Z3_mk_bvsle(c, toBVNow(n->a[0]), toBVNow(n->a[1])); break;
      case Op::AND: { Z3_ast x[2] = {toBoolNow(n->a[0]), toBoolNow(n->a[1])}; r = Z3_mk_and(c, 2, x); break; }
      case Op::OR: { Z3_ast x[2] = {toBoolNow(n->a[0]), toBoolNow(n->a[1])}; r = Z3_mk_or(c, 2, x); break; }
      case Op::XOR: if (Exprs::isOnes(n->a[1])) r = Z3_mk_not(c, toBoolNow(n->a[0])); else r = Z3_mk_xor(c, toBoolNow(n->a[0]), toBoolNow(n->a[1])); break;
      case Op::ITE: r = Z3_mk_ite(c, toBoolNow(n->a[0]), toBoolNow(n->a[1]), toBoolNow(n->a[2])); break;
      default: abort();
    }
    ref(r); bo[n] = r; return r;
  }
  Z3_sort fps(unsigned w) { auto f = Exprs::fmt(w); return Z3_mk_fpa_sort(c, f.eb, f.sb); }
  Z3_ast tofp(Z3_ast b, unsigned w) { return ref(Z3_mk_fpa_to_fp_bv(c, b, fps(w))); }
  Z3_ast rne() { return ref(Z3_mk_fpa_rne(c)); }
  Z3_ast rtz() { return ref(Z3_mk_fpa_rtz(c)); }
  // name like "fadd.32", "fptosi.32.64", "sin.64"
  Z3_ast fpExact(E n, bool& ok) {
    ok = true;
    std::string nm = n->name; std::string base = nm.substr(0, nm.find('.'));
    unsigned aw = n->a.size() ? n->a[0]->w : 0;
    auto F = [&](unsigned i) { return tofp(toBVNow(n->a[i]), n->a[i]->w); };
    Z3_ast r = nullptr;
    if (base == "fadd") r = Z3_mk_fpa_add(c, rne(), F(0), F(1));
    else if (base == "fsub") r = Z3_mk_fpa_sub(c, rne(), F(0), F(1));
    else if (base == "fmul") r = Z3_mk_fpa_mul(c, rne(), F(0), F(1));
    else if (base == "fdiv") r = Z3_mk_fpa_div(c, rne(), F(0), F(1));
    else if (base == "sqrt") r = Z3_mk_fpa_sqrt(c, rne(), F(0));
    else if (base == "fma") r = Z3_mk_fpa_fma(c, rne(), F(0), F(1), F(2));
    else if (base == "floor") r = Z3_mk_fpa_round_to_integral(c, ref(Z3_mk_fpa_rtn(c)), F(0));
    else if (base == "ceil") r = Z3_mk_fpa_round_to_integral(c, ref(Z3_mk_fpa_rtp(c)), F(0));
    else if (base == "trunc") r = Z3_mk_fpa_round_to_integral(c, rtz(), F(0));
    else if (base == "rint" || base == "nearbyint" || base == "roundeven") r = Z3_mk_fpa_round_to_integral(c, rne(), F(0));
    else if (base == "round") r = Z3_mk_fpa_round_to_integral(c, ref(Z3_mk_fpa_rna(c)), F(0));
    else if (base == "fpext" || base == "fptrunc") r = Z3_mk_fpa_to_fp_float(c, rne(), F(0), fps(n->w));
    else if (base == "sitofp") r = Z3_mk_fpa_to_fp_signed(c, rne(), toBVNow(n->a[0]), fps(n->w));
    else if (base == "uitofp") r = Z3_mk_fpa_to_fp_unsigned(c, rne(), toBVNow(n->a[0]), fps(n->w));
    else if (base == "fptosi") { r = Z3_mk_fpa_to_sbv(c, rtz(), F(0), n->w); ref(r); return r; }
    else if (base == "fptoui") { r = Z3_mk_fpa_to_ubv(c, rtz(), F(0), n->w); ref(r); return r; }
    else { ok = false; return nullptr; }
    (void)aw;
    ref(r);
    return ref(Z3_mk_fpa_to_ieee_bv(c, r));
  }
  // non-linear integer arithmetic is an uninterpreted function in the first (abstract) attempt
  bool absArith(E n) { return !exact && n->w > 8 && !Exprs::isC(n->a[0]) && !Exprs::isC(n->a[1]); }
  Z3_ast ufApp(const std::string& name, E n) {
    usedUF = true;
    std::string key = name + "/" + std::to_string(n->w);
    for (auto x : n->a) key += "," + std::to_string(x->w);
    std::vector<Z3_ast> args;
    for (size_t i = 0; i < n->a.size(); ++i) args.push_back(toBVNow(n->a[i]));
    auto& d = decls[key];
    if (!d) {
      std::vector<Z3_sort> ss;
      for (auto x : n->a) ss.push_back(Z3_mk_bv_sort(c, x->w));
      d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, key.c_str()), ss.size(), ss.data(), Z3_mk_bv_sort(c, n->w));
      Z3_inc_ref(c, (Z3_ast)d);
    }
    return Z3_mk_app(c, d, args.size(), args.data());
  }
  Z3_ast toBVNow(E n) {
    auto it = bv.find(n); if (it != bv.end()) return it->second;
    Z3_ast r;
    auto A = [&](int i) { return toBVNow(n->a[i]); };
    if (boolOp(n) && n->op != Op::CONST) r = Z3_mk_ite(c, toBoolNow(n), num(APInt(1, 1)), num(APInt(1, 0)));
    else switch (n->op) {
      case Op::CONST: r = num(n->c); break;
      case Op::VAR: { auto& v = vars[n->name]; if (!v) v = ref(Z3_mk_const(c, Z3_mk_string_symbol(c, n->name.c_str()), Z3_mk_bv_sort(c, n->w))); r = v; break; }
      case Op::UNDEF: r = Z3_mk_fresh_const(c, "undef", Z3_mk_bv_sort(c, n->w)); break;
      case Op::ADD: r = Z3_mk_bvadd(c, A(0), A(1)); break;
      case Op::SUB: r = Z3_mk_bvsub(c, A(0), A(1)); break;
      case Op::MUL:
        if (!absArith(n)) r = Z3_mk_bvmul(c, A(0), A(1));
        else { // uninterpreted except for x * 0 = 0
          Z3_ast z = num(APInt(n->w, 0)); Z3_ast o[2] = {ref(Z3_mk_eq(c, A(0), z)), ref(Z3_mk_eq(c, A(1), z))};
          r = Z3_mk_ite(c, ref(Z3_mk_or(c, 2, o)), z, ref(ufApp("bvmul", n)));
        }
        break;
      case Op::UDIV: r = absArith(n) ? ufApp("bvudiv", n) : Z3_mk_bvudiv(c, A(0), A(1)); break;
      case Op::SDIV: r = absArith(n) ? ufApp("bvsdiv", n) : Z3_mk_bvsdiv(c, A(0), A(1)); break;
      case Op::UREM: r = absArith(n) ? ufApp("bvurem", n) : Z3_mk_bvurem(c, A(0), A(1)); break;
      case Op::SREM: r = absArith(n) ? ufApp("bvsrem", n) : Z3_mk_bvsrem(c, A(0), A(1)); break;
      case Op::AND: r = Z3_mk_bvand(c, A(0), A(1)); break;
      case Op::OR: r = Z3_mk_bvor(c, A(0), A(1)); break;
      case Op::XOR: r = Exprs::isOnes(n->a[1]) ? Z3_mk_bvnot(c, A(0)) : Z3_mk_bvxor(c, A(0), A(1)); break;
      case Op::SHL: r = Z3_mk_bvshl(c, A(0), A(1)); break;
      case Op::LSHR: r = Z3_mk_bvlshr(c, A(0), A(1)); break;
      case Op::ASHR: r = Z3_mk_bvashr(c, A(0), A(1)); break;
      case Op::CONCAT: r = Z3_mk_concat(c, A(0), A(1)); break;
      case Op::EXTRACT: r = Z3_mk_extract(c, n->lo + n->w - 1, n->lo, A(0)); break;
      case Op::ZEXT: r = Z3_mk_zero_ext(c, n->w - n->a[0]->w, A(0)); break;
      case Op::SEXT: r = Z3_mk_sign_ext(c, n->w - n->a[0]->w, A(0)); break;
      case Op::ITE: r = Z3_mk_ite(c, toBoolNow(n->a[0]), A(1), A(2)); break;
      case Op::UF: {
        usedUF = true;
        bool ok = false; r = nullptr;
        if (exact) { r = fpExact(n, ok); if (ok) usedFP = true; }
        if (!ok) {
          r = ufApp(n->name, n);
        }
        break;
      }
      default: abort();
    }
    ref(r); bv[n] = r; return r;
  }
};
