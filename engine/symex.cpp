// symex: symbolic executor for LLVM IR (LLVM 18) deciding harness assertions with Z3.
//
// For every function vp_harness_* of the given bitcode module: execute it from the start with the
// inputs declared by vp_sym()/vp_symbool()/vp_fork() symbolic; both sides of a branch on a symbolic
// condition are explored and merged again at the branch's immediate post-dominator; assertions
// (vp_assert), memory bounds, alignment, llvm.assume, reached `unreachable`/traps and division by
// zero become solver queries.  One JSON object per harness is printed to stdout.
#include "expr.h"
#include <llvm/Analysis/CFG.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <sstream>

using namespace llvm;
using Clock = std::chrono::steady_clock;
static double secs(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

using Val = SmallVector<E, 2>;

struct Cell { E v = nullptr; unsigned idx = 0; bool operator==(const Cell& o) const { return v == o.v && (v == nullptr || idx == o.idx); } };
struct Obj { uint64_t base, size, align; bool ro = false; std::string what; std::vector<Cell> b; };

struct FnInfo {
  DenseMap<const Value*, unsigned> num; unsigned n = 0;
  DenseMap<const BasicBlock*, const BasicBlock*> ipdom;
  std::set<const BasicBlock*> simple; // the branch at the end of the block is not part of a cycle that avoids its post-dominator
};

struct Frame {
  Function* F; FnInfo* fi; BasicBlock* bb; BasicBlock::iterator it; std::vector<Val> regs;
  CallBase* caller; std::vector<uint64_t> allocas; std::vector<std::pair<const BasicBlock*, unsigned>> visits;
};

struct Input { std::string name; unsigned elsize; std::vector<E> vars; bool fork = false; uint64_t fv = 0; };

struct State {
  std::vector<Frame> fr;
  std::map<uint64_t, std::shared_ptr<Obj>> mem;
  uint64_t brk = 0x100000;
  std::vector<E> pc;
  std::vector<Input> inputs;
  bool expectTrap = false;
  bool entered = false;
  bool mayUnsat = false; // entered a branch side without asking the solver whether it is feasible
  unsigned asserts = 0;
};
using SP = std::unique_ptr<State>;

struct Violation { std::string kind, label, where; std::vector<Input> inputs; std::vector<std::vector<std::string>> vals; bool approx = false; std::string note; };
struct Found {}; // thrown
struct Unsupported { std::string msg; };
struct Budget { std::string msg; };

static std::string hexOf(const APInt& v) { SmallString<32> s; v.toString(s, 16, false); return std::string(s); }
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}

struct Engine {
  Module& M; const DataLayout& DL; Exprs ex; Z3_context zc;
  std::unique_ptr<Z3Tr> trA, trX;
  DenseMap<Function*, std::unique_ptr<FnInfo>> infos;
  DenseMap<const GlobalValue*, uint64_t> gaddr; std::map<uint64_t, Function*> faddr;
  std::map<uint64_t, std::shared_ptr<Obj>> gobjs;
  // stats
  unsigned long queries = 0, qSat = 0, qUnsat = 0, qExact = 0, paths = 0, merges = 0, insts = 0, assertsFolded = 0, assertsSolved = 0, deadPaths = 0, forks = 0, trapPaths = 0, checksFolded = 0, cacheHits = 0;
  double solverT = 0; Clock::time_point t0; double limit = 120; unsigned qtimeout = 30000, xtimeout = 30000;
  unsigned long lossEvents = 0;
  std::set<std::string> funcs; std::set<const Function*> seenF;
  std::vector<Violation> viol;
  std::vector<Input> witnessInputs; std::vector<std::vector<std::string>> witnessVals; bool haveWitness = false;
  uint64_t gbrk = 0x10000;
  bool verbose = false; unsigned lazyLoops = 34;
  std::vector<std::map<std::string, APInt>> modelCache;

  Engine(Module& m) : M(m), DL(m.getDataLayout()) {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    zc = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw Unsupported{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
    trA = std::make_unique<Z3Tr>(ex, zc, false); trX = std::make_unique<Z3Tr>(ex, zc, true);
    t0 = Clock::now();
  }
  [[noreturn]] void unsup(const std::string& m) { throw Unsupported{m}; }
  void tick() { if (secs(t0) > limit) throw Budget{"time limit"}; }

  // ---------- solver ----------
  enum SR { SAT, UNSAT, UNK };
  // evaluates under an assignment (missing var => 0); returns false if it contains an opaque UF
  bool evalNode(E root, const std::map<std::string, APInt>& m, APInt& out) {
    std::unordered_map<E, APInt> memo;
    std::vector<std::pair<E, size_t>> st{{root, 0}};
    while (!st.empty()) {
      auto& [n, i] = st.back();
      if (memo.count(n)) { st.pop_back(); continue; }
      if (i < n->a.size()) { E c = n->a[i++]; if (!memo.count(c)) st.push_back({c, 0}); continue; }
      E x = n; st.pop_back();
      auto A = [&](int k) -> const APInt& { return memo.find(x->a[k])->second; };
      APInt r(x->w, 0);
      switch (x->op) {
        case Op::CONST: r = x->c; break;
        case Op::VAR: { auto it = m.find(x->name); if (it != m.end()) r = it->second; break; }
        case Op::UNDEF: break;
        case Op::CONCAT: r = A(0).zext(x->w).shl(x->a[1]->w) | A(1).zext(x->w); break;
        case Op::EXTRACT: r = A(0).extractBits(x->w, x->lo); break;
        case Op::ZEXT: r = A(0).zext(x->w); break;
        case Op::SEXT: r = A(0).sext(x->w); break;
        case Op::ITE: r = A(0).isOne() ? A(1) : A(2); break;
        case Op::EQ: r = APInt(1, A(0) == A(1)); break;
        case Op::ULT: r = APInt(1, A(0).ult(A(1))); break;
        case Op::ULE: r = APInt(1, A(0).ule(A(1))); break;
        case Op::SLT: r = APInt(1, A(0).slt(A(1))); break;
        case Op::SLE: r = APInt(1, A(0).sle(A(1))); break;
        case Op::UF: return false;
        default: {
          E f = ex.bin(x->op, ex.con(A(0)), ex.con(A(1)));
          if (f->op != Op::CONST) return false;
          r = f->c;
        }
      }
      memo.emplace(x, r);
    }
    out = memo.find(root)->second; return true;
  }
  E conj(const std::vector<E>& v) { E r = ex.tru(); for (auto e : v) r = ex.land(r, e); return r; }
  Z3_model lastModel = nullptr;
  void keepModel(Z3_model m) { if (lastModel) Z3_model_dec_ref(zc, lastModel); lastModel = m; if (m) Z3_model_inc_ref(zc, m); }
  SR solve(const std::vector<E>& pc, E extra, bool exact, bool wantModel) {
    tick();
    if (extra && Exprs::isZero(extra)) return UNSAT;
    auto t = Clock::now();
    ++queries; if (exact) ++qExact;
    Z3Tr& tr = exact ? *trX : *trA;
    Z3_solver s;
    if (exact) s = Z3_mk_solver(zc);
    else s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_UFBV"));
    Z3_solver_inc_ref(zc, s);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    double left = limit - secs(t0); if (left < 1) left = 1;
    unsigned to = std::min<double>(exact ? xtimeout : qtimeout, left * 1000);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), to);
    Z3_solver_set_params(zc, s, p);
    for (auto e : pc) Z3_solver_assert(zc, s, tr.B(e));
    if (extra) Z3_solver_assert(zc, s, tr.B(extra));
    if (const char* d = getenv("SYMEX_DUMP")) { static int n = 0; if (FILE* f = fopen((std::string(d) + "." + std::to_string(n++) + ".smt2").c_str(), "w")) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(zc, s)); fclose(f); } }
    Z3_lbool r = Z3_solver_check(zc, s);
    if (r == Z3_L_TRUE && wantModel) keepModel(Z3_solver_get_model(zc, s));
    Z3_params_dec_ref(zc, p); Z3_solver_dec_ref(zc, s);
    solverT += secs(t);
    if (r == Z3_L_TRUE) { ++qSat; return SAT; }
    if (r == Z3_L_FALSE) { ++qUnsat; return UNSAT; }
    return UNK;
  }
  void cacheModel(Z3Tr& tr) {
    if (!lastModel) return;
    std::map<std::string, APInt> m;
    for (auto& [n, a] : tr.vars) {
      Z3_ast o; if (!Z3_model_eval(zc, lastModel, a, true, &o)) continue;
      Z3_inc_ref(zc, o);
      unsigned w = Z3_get_bv_sort_size(zc, Z3_get_sort(zc, a));
      if (Z3_get_ast_kind(zc, o) == Z3_NUMERAL_AST) m.emplace(n, APInt(w, StringRef(Z3_get_numeral_string(zc, o)), 10));
      Z3_dec_ref(zc, o);
    }
    modelCache.push_back(std::move(m));
    if (modelCache.size() > 12) modelCache.erase(modelCache.begin());
  }
  // is pc /\ cond satisfiable?  UNK is treated as "feasible" (over-approximation; the final queries decide).
  bool feasible(State& s, E cond) {
    if (Exprs::isC(cond)) return cond->c.isOne();
    for (auto it = modelCache.rbegin(); it != modelCache.rend(); ++it) {
      APInt v(1, 0); if (!evalNode(cond, *it, v) || v.isZero()) continue;
      bool ok = true;
      for (auto e : s.pc) { APInt u(1, 0); if (!evalNode(e, *it, u) || u.isZero()) { ok = false; break; } }
      if (ok) { ++cacheHits; return true; }
    }
    SR r = solve(s.pc, cond, false, true);
    if (r == SAT) cacheModel(*trA);
    return r != UNSAT;
  }
  std::string where(State& s) {
    std::string r;
    int n = 0;
    for (int i = s.fr.size() - 1; i >= 0 && n < 6; --i) {
      Frame& f = s.fr[i];
      const Instruction* I = i + 1 == (int)s.fr.size() ? (f.it != f.bb->end() ? &*f.it : nullptr) : s.fr[i + 1].caller;
      if (I) if (const DILocation* d = I->getDebugLoc().get()) {
        std::string fn = d->getFilename().str();
        auto p = fn.find("/vir/"); std::string sh = p == std::string::npos ? fn.substr(fn.rfind('/') + 1) : fn.substr(p + 1);
        r += (n ? " < " : "") + sh + ":" + std::to_string(d->getLine()); ++n; continue;
      }
      r += (n ? " < " : "") + f.F->getName().str(); ++n;
    }
    return r;
  }
  std::vector<std::vector<std::string>> modelVals(State& s, bool exact) {
    std::vector<std::vector<std::string>> r;
    Z3Tr& tr = exact ? *trX : *trA;
    for (auto& in : s.inputs) {
      std::vector<std::string> v;
      if (in.fork) v.push_back(hexOf(APInt(64, in.fv)));
      else for (auto e : in.vars) {
        Z3_ast a = tr.toBVNow(e), o;
        if (lastModel && Z3_model_eval(zc, lastModel, a, true, &o) && Z3_get_ast_kind(zc, o) == Z3_NUMERAL_AST)
          v.push_back(hexOf(APInt(e->w, StringRef(Z3_get_numeral_string(zc, o)), 10)));
        else v.push_back("0");
      }
      r.push_back(v);
    }
    return r;
  }
  // Second abstraction: arithmetic is still uninterpreted on ordinary operands, but NaN, infinities, zeros, neutral elements
  // and commutativity are exact.
  std::unordered_map<E, E> midMemo;
  E midNode(E x, const std::vector<E>& a) {
    auto ord = [&](const std::string& nm, E p, E q) { E lt = ex.cmp(Op::ULT, p, q); return ex.uf(nm, x->w, {ex.ite(lt, p, q), ex.ite(lt, q, p)}); };
    switch (x->op) {
      case Op::CONST: case Op::VAR: case Op::UNDEF: return x;
      case Op::CONCAT: return ex.concat(a[0], a[1]);
      case Op::EXTRACT: return ex.extract(a[0], x->lo, x->w);
      case Op::ZEXT: return ex.zext(a[0], x->w);
      case Op::SEXT: return ex.sext(a[0], x->w);
      case Op::ITE: return ex.ite(a[0], a[1], a[2]);
      case Op::EQ: return ex.eq(a[0], a[1]);
      case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE: return ex.cmp(x->op, a[0], a[1]);
      case Op::MUL: {
        if (x->w == 1 || Exprs::isC(a[0]) || Exprs::isC(a[1])) return ex.bin(Op::MUL, a[0], a[1]);
        E z = ex.con(x->w, 0), o = ex.con(x->w, 1);
        return ex.ite(ex.lor(ex.eq(a[0], z), ex.eq(a[1], z)), z, ex.ite(ex.eq(a[0], o), a[1], ex.ite(ex.eq(a[1], o), a[0], ord("mulm." + std::to_string(x->w), a[0], a[1]))));
      }
      case Op::UF: {
        std::string b = x->name.substr(0, x->name.find('.')); unsigned w = x->w;
        if (b != "fadd" && b != "fsub" && b != "fmul") return ex.uf(x->name, w, a);
        E p = a[0], q = b == "fsub" ? ex.fneg(a[1]) : a[1];
        if (Exprs::isC(p) && Exprs::isC(q)) return fbin(b == "fmul" ? "fmul" : "fadd", p, q);
        E nan = ex.con(APFloat::getQNaN(Exprs::sem(w)).bitcastToAPInt()), anynan = ex.lor(ex.isNaN(p), ex.isNaN(q));
        E ip = ex.isInf(p), iq = ex.isInf(q), zp = ex.isFZero(p), zq = ex.isFZero(q), sp = ex.fsign(p), sq = ex.fsign(q);
        auto sgn = [&](E sg, E mag) { return ex.concat(sg, mag); };
        E zm = ex.con(w - 1, 0), im = ex.con(ex.infBits(w).trunc(w - 1));
        auto num = [&](E r) { return ex.ite(ex.isNaN(r), ex.con(w, 0), r); };
        if (b == "fmul") {
          E sg = ex.bin(Op::XOR, sp, sq), one = ex.con(APFloat(Exprs::sem(w), 1).bitcastToAPInt());
          E r = num(sgn(sg, ex.extract(ord("fmulm." + std::to_string(w), ex.fabs(p), ex.fabs(q)), 0, w - 1)));
          r = ex.ite(ex.eq(q, one), p, ex.ite(ex.eq(p, one), q, r));
          r = ex.ite(ex.lor(zp, zq), sgn(sg, zm), r);
          r = ex.ite(ex.lor(ip, iq), ex.ite(ex.lor(zp, zq), nan, sgn(sg, im)), r);
          return ex.ite(anynan, nan, r);
        }
        E r = num(ord("faddm." + std::to_string(w), p, q));
        r = ex.ite(zp, ex.ite(zq, sgn(ex.land(sp, sq), zm), q), ex.ite(zq, p, r));
        r = ex.ite(ip, ex.ite(ex.land(iq, ex.bin(Op::XOR, sp, sq)), nan, p), ex.ite(iq, q, r));
        return ex.ite(anynan, nan, r);
      }
      default: return ex.bin(x->op, a[0], a[1]);
    }
  }
  E mid(E root) {
    std::vector<std::pair<E, size_t>> st{{root, 0}};
    while (!st.empty()) {
      auto& [n, i] = st.back();
      if (midMemo.count(n)) { st.pop_back(); continue; }
      if (i < n->a.size()) { E c = n->a[i++]; if (!midMemo.count(c)) st.push_back({c, 0}); continue; }
      E x = n; st.pop_back(); std::vector<E> a; for (E c : x->a) a.push_back(midMemo.find(c)->second);
      midMemo.emplace(x, midNode(x, a));
    }
    return midMemo.find(root)->second;
  }
  // Satisfying assignment of pc /\ cond by local search: used only to turn a satisfiable abstract query (or an
  // undecided one) into a concrete counterexample.  Every candidate is evaluated in the exact semantics; finding none
  // proves nothing.
  bool concretise(State& s, E cond, const std::vector<std::vector<std::string>>& start, double budget, std::vector<std::vector<std::string>>& out) {
    std::vector<E> order; std::unordered_map<E, unsigned> idx; std::vector<E> roots = s.pc; roots.push_back(cond);
    std::vector<E> vars;
    for (E root : roots) {
      std::vector<std::pair<E, size_t>> st{{root, 0}};
      while (!st.empty()) {
        auto& [n, i] = st.back();
        if (idx.count(n)) { st.pop_back(); continue; }
        if (i < n->a.size()) { E c = n->a[i++]; if (!idx.count(c)) st.push_back({c, 0}); continue; }
        E x = n; st.pop_back(); idx[x] = order.size(); order.push_back(x);
        if (x->op == Op::VAR) vars.push_back(x);
        if (order.size() > 60000) return false;
      }
    }
    auto t = Clock::now();
    std::unordered_map<E, APInt> base;
    for (size_t i = 0; i < s.inputs.size() && i < start.size(); ++i) if (!s.inputs[i].fork) for (size_t j = 0; j < s.inputs[i].vars.size() && j < start[i].size(); ++j) if (s.inputs[i].vars[j]->op == Op::VAR) { E v = s.inputs[i].vars[j]; base.emplace(v, APInt(64, strtoull(start[i][j].c_str(), nullptr, 16)).zextOrTrunc(v->w)); }
    uint64_t rs = 0x9E3779B97F4A7C15ull;
    auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
    auto draw = [&](unsigned w) -> APInt {
      if (w > 64) { APInt r(w, 0); for (unsigned i = 0; i < w; i += 64) { r = r.shl(64 > w ? w : 64); r |= APInt(64, rnd()).zext(w); } return r; }
      static const double t[] = {0., -0., 1., -1., .5, -.5, 1.5, 2.5, -2.5, 2., 3., -3., 4., HUGE_VAL, -HUGE_VAL, NAN, 1e-40, 3.4028235e38, 0.7, 1e300, 4.9e-324, 16777217., 8388609.};
      uint64_t v;
      switch (rnd() % 8) {
        case 0: v = rnd(); break;
        case 1: v = rnd() % 16; break;
        case 2: v = 0 - rnd() % 16; break;
        case 3: case 4: if (w == 32 || w == 64) { double d = rnd() % 2 ? t[rnd() % (sizeof t / sizeof *t)] : (int(rnd() % 4001) - 2000) / (rnd() % 2 ? 16. : 1.); if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); v = u; } else memcpy(&v, &d, 8); } else v = rnd(); break;
        case 5: v = (w < 2 ? 0 : ~0ull >> (65 - w)) + rnd() % 3; break;
        case 6: { v = 0; for (int k = 1 + rnd() % 4; k > 0; --k) v = rnd() % 2 ? v + (1ull << rnd() % w) : v - (1ull << rnd() % w); break; }
        default: v = rnd() >> (rnd() % 64);
      }
      return APInt(64, v).zextOrTrunc(w);
    };
    std::vector<APInt> val(order.size(), APInt(1, 0));
    std::vector<unsigned> rootIdx; for (E r : roots) rootIdx.push_back(idx[r]);
    for (unsigned iter = 0; iter < 200000; ++iter) {
      if (iter && iter % 8 == 0 && secs(t) > budget) break;
      std::unordered_map<E, APInt> asg;
      unsigned mode = iter == 0 ? 0 : rnd() % 4; APInt common[2] = {draw(64), draw(64)};
      for (E v : vars) {
        auto b = base.find(v);
        bool keep = mode == 0 ? iter == 0 || rnd() % 8 : mode == 1 ? rnd() % 2 : mode == 2 ? v->w == 1 || v->w == 8 : false;
        if (keep && b != base.end()) asg.emplace(v, b->second);
        else if (v->w <= 64 && rnd() % 4 == 0) asg.emplace(v, common[rnd() % 2].zextOrTrunc(v->w));
        else asg.emplace(v, draw(v->w));
      }
      bool ok = true;
      for (size_t i = 0; ok && i < order.size(); ++i) {
        E x = order[i]; auto A = [&](int k) -> const APInt& { return val[idx.find(x->a[k])->second]; };
        switch (x->op) {
          case Op::CONST: val[i] = x->c; break;
          case Op::VAR: val[i] = asg.find(x)->second; break;
          case Op::UNDEF: val[i] = APInt(x->w, 0); break;
          case Op::CONCAT: val[i] = A(0).zext(x->w).shl(x->a[1]->w) | A(1).zext(x->w); break;
          case Op::EXTRACT: val[i] = A(0).extractBits(x->w, x->lo); break;
          case Op::ZEXT: val[i] = A(0).zext(x->w); break;
          case Op::SEXT: val[i] = A(0).sext(x->w); break;
          case Op::ITE: val[i] = A(0).isOne() ? A(1) : A(2); break;
          case Op::EQ: val[i] = APInt(1, A(0) == A(1)); break;
          case Op::ULT: val[i] = APInt(1, A(0).ult(A(1))); break;
          case Op::ULE: val[i] = APInt(1, A(0).ule(A(1))); break;
          case Op::SLT: val[i] = APInt(1, A(0).slt(A(1))); break;
          case Op::SLE: val[i] = APInt(1, A(0).sle(A(1))); break;
          case Op::ADD: val[i] = A(0) + A(1); break;
          case Op::SUB: val[i] = A(0) - A(1); break;
          case Op::MUL: val[i] = A(0) * A(1); break;
          case Op::AND: val[i] = A(0) & A(1); break;
          case Op::OR: val[i] = A(0) | A(1); break;
          case Op::XOR: val[i] = A(0) ^ A(1); break;
          case Op::SHL: val[i] = A(1).uge(x->w) ? APInt(x->w, 0) : A(0).shl(A(1)); break;
          case Op::LSHR: val[i] = A(1).uge(x->w) ? APInt(x->w, 0) : A(0).lshr(A(1)); break;
          case Op::ASHR: val[i] = A(0).ashr(A(1).uge(x->w) ? APInt(x->w, x->w - 1) : A(1)); break;
          case Op::UDIV: val[i] = A(1).isZero() ? APInt::getAllOnes(x->w) : A(0).udiv(A(1)); break;
          case Op::UREM: val[i] = A(1).isZero() ? A(0) : A(0).urem(A(1)); break;
          case Op::SDIV: if (A(1).isZero()) ok = false; else val[i] = A(0).sdiv(A(1)); break;
          case Op::SREM: if (A(1).isZero()) ok = false; else val[i] = A(0).srem(A(1)); break;
          case Op::UF: {
            std::string b = x->name.substr(0, x->name.find('.')); E r = nullptr;
            if (b == "fadd" || b == "fsub" || b == "fmul" || b == "fdiv") r = fbin(b.c_str(), ex.con(A(0)), ex.con(A(1)));
            else if (b == "fpext" || b == "fptrunc" || b == "sitofp" || b == "uitofp" || b == "fptosi" || b == "fptoui") r = fconv(b.c_str(), ex.con(A(0)), x->w);
            if (r && Exprs::isC(r)) val[i] = r->c; else ok = false;
            break;
          }
          default: ok = false;
        }
      }
      if (!ok) continue;
      for (unsigned r : rootIdx) if (val[r].isZero()) { ok = false; break; }
      if (!ok) continue;
      out.clear();
      for (auto& in : s.inputs) {
        std::vector<std::string> v;
        if (in.fork) v.push_back(hexOf(APInt(64, in.fv)));
        else for (auto e : in.vars) { auto a = asg.find(e); auto b = base.find(e); v.push_back(e->op == Op::CONST ? hexOf(e->c) : a != asg.end() ? hexOf(a->second) : b != base.end() ? hexOf(b->second) : "0"); }
        out.push_back(v);
      }
      return true;
    }
    return false;
  }
  // Report if pc /\ cond is satisfiable: cond describes the bad situation.
  // the disjuncts of a condition: each lane of a vector property is one of them
  std::vector<E> disjuncts(E cond) {
    std::vector<E> out; std::set<std::pair<E, bool>> seen; std::vector<std::pair<E, bool>> st{{cond, false}};
    while (!st.empty()) {
      auto [e, neg] = st.back(); st.pop_back();
      if (!seen.insert({e, neg}).second) continue;
      if (e->w == 1 && e->op == Op::XOR && Exprs::isC(e->a[1]) && e->a[1]->c.isOne()) st.push_back({e->a[0], !neg});
      else if (e->w == 1 && e->op == Op::XOR && Exprs::isC(e->a[0]) && e->a[0]->c.isOne()) st.push_back({e->a[1], !neg});
      else if (e->w == 1 && e->op == (neg ? Op::AND : Op::OR)) { st.push_back({e->a[1], neg}); st.push_back({e->a[0], neg}); }
      else out.push_back(neg ? ex.bnot(e) : e);
    }
    return out;
  }
  void checkBad(State& s, E cond, const char* kind, const std::string& label) {
    if (Exprs::isZero(cond)) return;
    auto parts = disjuncts(cond);
    SR r;
    if (parts.size() > 1) {
      auto q0 = qtimeout; qtimeout = std::min(q0, 2000u); r = solve(s.pc, cond, false, true); qtimeout = q0;
      if (r == UNSAT) return;
      if (r == UNK) { for (E p : parts) checkBad(s, p, kind, label); return; } // unsatisfiable iff every disjunct is
    }
    else r = solve(s.pc, cond, false, true);
    if (r == UNSAT) return;
    bool exact = false, approx = false;
    if (r == UNK || trA->usedUF) {
      // decide again with the exact floating-point semantics
      auto snapshot = r == SAT ? modelVals(s, false) : std::vector<std::vector<std::string>>{};
      std::vector<std::vector<std::string>> cv;
      { std::vector<E> mp; for (E e : s.pc) mp.push_back(mid(e)); E mc = mid(cond); auto q0 = qtimeout; qtimeout = std::min(q0, 10000u); SR m = solve(mp, mc, false, false); qtimeout = q0; if (m == UNSAT) return; }
      if (r == SAT && concretise(s, cond, snapshot, 0.3, cv)) { viol.push_back({kind, label, where(s), s.inputs, cv, false, ""}); throw Found{}; }
      if (parts.size() > 1) { for (E p : parts) checkBad(s, p, kind, label); return; }
      SR x = solve(s.pc, cond, true, true);
      if (x == UNSAT) return;
      if (x == SAT) exact = true;
      else if (concretise(s, cond, snapshot, 8, cv)) { viol.push_back({kind, label, where(s), s.inputs, cv, false, ""}); throw Found{}; }
      else if (r == SAT) { approx = true; viol.push_back({kind, label, where(s), s.inputs, snapshot, true, "exact FP query undecided; candidate from uninterpreted-function model"}); throw Found{}; }
      else throw Budget{"solver gave no answer for: " + label};
    }
    viol.push_back({kind, label, where(s), s.inputs, modelVals(s, exact), approx, ""});
    throw Found{};
  }
  // ---------- memory ----------
  uint64_t allocate(State& s, uint64_t size, uint64_t align, const std::string& what, uint64_t off = 0) {
    if (align == 0) align = 1;
    uint64_t b = s.brk;
    uint64_t A = std::max<uint64_t>(align, 1);
    b = (b + 2 * A - 1) / (2 * A) * (2 * A) + A; // aligned to A but not to 2A
    b += off;
    auto o = std::make_shared<Obj>(); o->base = b; o->size = size; o->align = align; o->what = what; o->b.resize(size);
    s.mem[b] = o;
    s.brk = b + size + 4096;
    return b;
  }
  Obj* find(State& s, uint64_t a, uint64_t size, std::map<uint64_t, std::shared_ptr<Obj>>::iterator* itp = nullptr) {
    auto it = s.mem.upper_bound(a);
    if (it == s.mem.begin()) return nullptr;
    --it;
    Obj* o = it->second.get();
    if (a < o->base || a + size > o->base + o->size || a + size < a) return nullptr;
    if (itp) *itp = it;
    return o;
  }
  Obj* writable(State& s, std::map<uint64_t, std::shared_ptr<Obj>>::iterator it) {
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  E cellsToNode(const Cell* c, unsigned n) { // n bytes -> node of 8n bits
    if (n == 0) unsup("zero-size load");
    bool allUndef = true; for (unsigned i = 0; i < n; ++i) if (c[i].v) { allUndef = false; break; }
    if (allUndef) return ex.undef(n * 8);
    // whole value
    if (c[0].v && c[0].v->w == n * 8 && c[0].idx == 0) {
      bool ok = true; for (unsigned i = 1; i < n; ++i) if (c[i].v != c[0].v || c[i].idx != i) { ok = false; break; }
      if (ok) return c[0].v;
    }
    E r = nullptr;
    for (unsigned i = 0; i < n;) {
      unsigned j = i + 1;
      E part;
      if (!c[i].v) { part = ex.undef(8); }
      else {
        while (j < n && c[j].v == c[i].v && c[j].idx == c[i].idx + (j - i)) ++j;
        part = ex.extract(c[i].v, c[i].idx * 8, (j - i) * 8);
      }
      r = r ? ex.concat(part, r) : part;
      i = j;
    }
    return r;
  }
  static unsigned bits(Type* t, const DataLayout& DL) { return DL.getTypeSizeInBits(t).getFixedValue(); }
  // list scalar leaf types with byte offsets
  struct Leaf { uint64_t off; Type* t; };
  void leaves(Type* t, uint64_t off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * es, out); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      unsigned eb = bits(vt->getElementType(), DL);
      if (eb % 8) { out.push_back({off, t}); return; } // packed bits: one leaf for the whole vector
      for (unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back({off + uint64_t(i) * eb / 8, vt->getElementType()});
    } else out.push_back({off, t});
  }
  unsigned count(Type* t) { // number of scalars in flattened Val
    if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += count(e); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * count(at->getElementType());
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    if (t->isVoidTy()) return 0;
    return 1;
  }
  static unsigned sw(Type* t, const DataLayout& DL) { return t->isPointerTy() ? 64 : bits(t, DL); }
  void undefVal(Type* t, Val& v) {
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) undefVal(e, v); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); ++i) undefVal(at->getElementType(), v); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(ex.undef(sw(vt->getElementType(), DL))); return; }
    if (t->isVoidTy()) return;
    v.push_back(ex.undef(sw(t, DL)));
  }
  Val fromCells(const Cell* c, Type* t) {
    std::vector<Leaf> ls; leaves(t, 0, ls);
    Val v;
    for (auto& l : ls) {
      if (auto* vt = dyn_cast<FixedVectorType>(l.t)) {
        unsigned eb = bits(vt->getElementType(), DL), n = vt->getNumElements();
        E x = cellsToNode(c + l.off, (eb * n + 7) / 8);
        for (unsigned i = 0; i < n; ++i) v.push_back(ex.extract(x, i * eb, eb));
      } else {
        unsigned w = sw(l.t, DL); unsigned n = (w + 7) / 8;
        E x = cellsToNode(c + l.off, n);
        v.push_back(w == n * 8 ? x : ex.extract(x, 0, w));
      }
    }
    return v;
  }
  void toCells(const Val& v, Type* t, Cell* c) {
    std::vector<Leaf> ls; leaves(t, 0, ls);
    unsigned k = 0;
    for (auto& l : ls) {
      E x; unsigned n;
      if (auto* vt = dyn_cast<FixedVectorType>(l.t)) {
        unsigned cnt = vt->getNumElements();
        x = v[k]; for (unsigned i = 1; i < cnt; ++i) x = ex.concat(v[k + i], x);
        k += cnt; n = (x->w + 7) / 8;
      } else { x = v[k++]; n = (x->w + 7) / 8; }
      if (x->op == Op::UNDEF) { for (unsigned i = 0; i < n; ++i) c[l.off + i] = Cell{}; continue; }
      if (x->w != n * 8) x = ex.zext(x, n * 8);
      for (unsigned i = 0; i < n; ++i) c[l.off + i] = Cell{x, i};
    }
  }
  struct Loc { E cond; uint64_t addr; };
  void leafAddrs(E a, E cond, std::vector<Loc>& out) {
    if (Exprs::isC(a)) { for (auto& l : out) if (l.addr == a->c.getZExtValue()) { l.cond = ex.lor(l.cond, cond); return; } out.push_back({cond, a->c.getZExtValue()}); return; }
    leafAddrs(a->a[1], ex.land(cond, a->a[0]), out);
    leafAddrs(a->a[2], ex.land(cond, ex.bnot(a->a[0])), out);
  }
  std::vector<Loc> resolve(State& s, E addr, uint64_t size, uint64_t align, const char* what) {
    std::vector<Loc> r;
    addr = ex.def(addr);
    if (Exprs::isC(addr)) r.push_back({ex.tru(), addr->c.getZExtValue()});
    else if (addr->ct) leafAddrs(addr, ex.tru(), r);
    else {
      E block = ex.tru();
      for (;;) {
        SR q = solve(s.pc, block, false, true);
        if (q == UNSAT) break;
        if (q == UNK) throw Budget{"address enumeration: solver gave no answer"};
        cacheModel(*trA);
        Z3_ast o; Z3_model_eval(zc, lastModel, trA->toBVNow(addr), true, &o);
        APInt v(64, StringRef(Z3_get_numeral_string(zc, o)), 10);
        r.push_back({ex.eq(addr, ex.con(v)), v.getZExtValue()});
        block = ex.land(block, ex.ne(addr, ex.con(v)));
        if (!find(s, v.getZExtValue(), size)) break; // out of bounds for a feasible input: reported below
        if (r.size() > 200) throw Budget{"too many addresses"};
      }
    }
    std::vector<Loc> ok;
    for (auto& l : r) {
      Obj* o = size ? find(s, l.addr, size) : nullptr;
      if (size && !o) {
        std::string near = "?";
        auto it = s.mem.upper_bound(l.addr);
        if (it != s.mem.begin()) { --it; long d = long(l.addr - it->second->base); near = "offset " + std::to_string(d) + " of " + it->second->what + " (" + std::to_string(it->second->size) + " bytes)"; if (d > (long)it->second->size + 2048) { auto n = std::next(it); if (n != s.mem.end()) near = "offset " + std::to_string(long(l.addr - n->second->base)) + " of " + n->second->what; } }
        checkBad(s, l.cond, "oob", std::string("out-of-bounds ") + what + " of " + std::to_string(size) + " bytes at " + near);
        continue;
      }
      if (align > 1 && l.addr % align) { checkBad(s, l.cond, "misaligned", std::string("misaligned ") + what + ": requires " + std::to_string(align)); continue; }
      ok.push_back(l);
    }
    return ok;
  }
  Val load(State& s, E addr, Type* t, uint64_t align) {
    uint64_t n = DL.getTypeStoreSize(t);
    if (n == 0) { Val v; undefVal(t, v); return v; }
    auto locs = resolve(s, addr, n, align, "read");
    if (locs.empty()) { Val v; undefVal(t, v); return v; }
    Val r;
    for (size_t i = 0; i < locs.size(); ++i) {
      Obj* o = find(s, locs[i].addr, n);
      Val v = fromCells(&o->b[locs[i].addr - o->base], t);
      if (i == 0) r = v; else for (size_t k = 0; k < r.size(); ++k) r[k] = ex.ite(locs[i].cond, v[k], r[k]);
    }
    return r;
  }
  void store(State& s, E addr, const Val& v, Type* t, uint64_t align) {
    uint64_t n = DL.getTypeStoreSize(t);
    if (n == 0) return;
    auto locs = resolve(s, addr, n, align, "write");
    for (auto& l : locs) {
      std::map<uint64_t, std::shared_ptr<Obj>>::iterator it;
      find(s, l.addr, n, &it);
      if (it->second->ro) { checkBad(s, l.cond, "oob", "write to constant memory"); continue; }
      Obj* o = writable(s, it);
      Cell* c = &o->b[l.addr - o->base];
      if (Exprs::isOnes(l.cond)) { toCells(v, t, c); continue; }
      Val old = fromCells(c, t); Val nv;
      for (size_t k = 0; k < v.size(); ++k) nv.push_back(ex.ite(l.cond, v[k], old[k]));
      toCells(nv, t, c);
    }
  }
  void copyMem(State& s, E dst, E src, uint64_t n, uint64_t da, uint64_t sa) {
    if (n == 0) return;
    auto sl = resolve(s, src, n, sa, "read");
    auto dl = resolve(s, dst, n, da, "write");
    if (sl.empty() || dl.empty()) return;
    if (sl.size() != 1 || dl.size() != 1) {
      // general case through byte-wise values
      Type* bt = ArrayType::get(Type::getInt8Ty(M.getContext()), n);
      Val v = load(s, src, bt, 1); store(s, dst, v, bt, 1); return;
    }
    std::vector<Cell> tmp; { Obj* o = find(s, sl[0].addr, n); tmp.assign(o->b.begin() + (sl[0].addr - o->base), o->b.begin() + (sl[0].addr - o->base) + n); }
    std::map<uint64_t, std::shared_ptr<Obj>>::iterator it; find(s, dl[0].addr, n, &it);
    if (it->second->ro) { checkBad(s, ex.tru(), "oob", "write to constant memory"); return; }
    Obj* o = writable(s, it); std::copy(tmp.begin(), tmp.end(), o->b.begin() + (dl[0].addr - o->base));
  }
  // ---------- functions ----------
  FnInfo* info(Function* F) {
    auto& p = infos[F];
    if (p) return p.get();
    p = std::make_unique<FnInfo>();
    for (auto& a : F->args()) p->num[&a] = p->n++;
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
    // post-dominators over the blocks that can reach a return
    std::vector<BasicBlock*> bs; DenseMap<BasicBlock*, unsigned> id;
    std::set<BasicBlock*> live; std::vector<BasicBlock*> wl;
    for (auto& b : *F) if (isa<ReturnInst>(b.getTerminator())) { live.insert(&b); wl.push_back(&b); }
    while (!wl.empty()) { auto* b = wl.back(); wl.pop_back(); for (auto* q : predecessors(b)) if (live.insert(q).second) wl.push_back(q); }
    for (auto& b : *F) if (live.count(&b)) { id[&b] = bs.size(); bs.push_back(&b); }
    unsigned n = bs.size();
    if (n && n <= 4000) {
      std::vector<std::vector<bool>> pd(n, std::vector<bool>(n + 1, true)); // n = virtual exit
      auto isRet = [&](unsigned i) { return isa<ReturnInst>(bs[i]->getTerminator()); };
      bool ch = true;
      for (unsigned i = 0; i < n; ++i) if (isRet(i)) { pd[i].assign(n + 1, false); pd[i][i] = true; pd[i][n] = true; }
      while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; --i) {
          if (isRet(i)) continue;
          std::vector<bool> x(n + 1, true);
          for (auto* q : successors(bs[i])) if (live.count(q)) { auto& y = pd[id[q]]; for (unsigned k = 0; k <= n; ++k) x[k] = x[k] && y[k]; }
          x[i] = true;
          if (x != pd[i]) { pd[i] = x; ch = true; }
        }
      }
      std::vector<unsigned> cnt(n, 0); for (unsigned i = 0; i < n; ++i) for (unsigned k = 0; k < n; ++k) cnt[i] += pd[i][k];
      for (unsigned i = 0; i < n; ++i) {
        int best = -1; // strict postdominator with the most postdominators itself = nearest
        for (unsigned k = 0; k < n; ++k) if (k != i && pd[i][k] && (best < 0 || cnt[k] > cnt[best])) best = k;
        p->ipdom[bs[i]] = best < 0 ? nullptr : bs[best];
      }
      // dead blocks (never return) have no entry
      for (unsigned i = 0; i < n; ++i) {
        const BasicBlock* P = p->ipdom[bs[i]]; if (!P || bs[i]->getTerminator()->getNumSuccessors() < 2) continue;
        std::set<const BasicBlock*> vis; std::vector<const BasicBlock*> w; bool cyc = false;
        for (auto* q : successors(bs[i])) if (q != P && vis.insert(q).second) w.push_back(q);
        while (!w.empty() && !cyc) { auto* b = w.back(); w.pop_back(); if (b == bs[i]) { cyc = true; break; } for (auto* q : successors(b)) if (q != P && vis.insert(q).second) w.push_back(q); }
        if (!cyc && vis.size() <= 12) p->simple.insert(bs[i]);
      }
    }
    return p.get();
  }
  uint64_t gaddrOf(const GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* f = dyn_cast<Function>(g)) { uint64_t a = gbrk; gbrk += 16; gaddr[g] = a; faddr[a] = const_cast<Function*>(f); return a; }
    auto* v = dyn_cast<GlobalVariable>(g);
    if (!v) { if (auto* al = dyn_cast<GlobalAlias>(g)) return gaddrOf(cast<GlobalValue>(al->getAliaseeObject())); unsup("global"); }
    unsup("global not laid out: " + g->getName().str());
  }
  void layoutGlobals() {
    State tmp; tmp.brk = 0x7f0000000000ull;
    for (auto& g : M.globals()) {
      uint64_t n = DL.getTypeAllocSize(g.getValueType());
      uint64_t al = g.getAlign() ? g.getAlign()->value() : DL.getABITypeAlign(g.getValueType()).value();
      uint64_t a = allocate(tmp, std::max<uint64_t>(n, 1), al, "global " + g.getName().str());
      gaddr[&g] = a;
    }
    for (auto& g : M.globals()) {
      Obj* o = tmp.mem[gaddr[&g]].get();
      if (g.hasInitializer()) {
        try { Val v = constant(g.getInitializer()); if (DL.getTypeStoreSize(g.getValueType())) { std::vector<Cell> c(o->b.size()); toCells(v, g.getValueType(), c.data());
          for (auto& x : c) if (!x.v) x = Cell{ex.con(8, 0), 0}; o->b = c; } }
        catch (Unsupported&) {}
      }
      o->ro = g.isConstant();
    }
    gobjs = tmp.mem;
  }
  // ---------- constants ----------
  Val constant(const Constant* c) {
    Val v; Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { v.push_back(ex.con(ci->getValue())); return v; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { v.push_back(ex.con(cf->getValueAPF().bitcastToAPInt())); return v; }
    if (isa<UndefValue>(c)) { undefVal(t, v); return v; }
    if (isa<ConstantPointerNull>(c)) { v.push_back(ex.con(64, 0)); return v; }
    if (isa<ConstantAggregateZero>(c)) { undefVal(t, v); for (auto& e : v) e = ex.con(e->w, 0); return v; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { v.push_back(ex.con(64, gaddrOf(g))); return v; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) { Val x = constant(cd->getElementAsConstant(i)); v.append(x.begin(), x.end()); } return v; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) { Val x = constant(cast<Constant>(ca->getOperand(i))); v.append(x.begin(), x.end()); } return v; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); v.push_back(gep(g, [&](const Value* x) { return constant(cast<Constant>(x)); })); return v; }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
          Val x = constant(cast<Constant>(ce->getOperand(0)));
          if (x.size() == 1) { unsigned w = sw(t, DL); E e = x[0]; e = e->w < w ? ex.zext(e, w) : ex.extract(e, 0, w); v.push_back(e); return v; } break; }
        case Instruction::Add: { Val a = constant(cast<Constant>(ce->getOperand(0))), b = constant(cast<Constant>(ce->getOperand(1))); v.push_back(ex.add(a[0], b[0])); return v; }
        case Instruction::Sub: { Val a = constant(cast<Constant>(ce->getOperand(0))), b = constant(cast<Constant>(ce->getOperand(1))); v.push_back(ex.sub(a[0], b[0])); return v; }
        default: break;
      }
    }
    unsup("constant");
  }
  template <class F> E gep(const GEPOperator* g, F get) {
    Val bv = get(g->getPointerOperand());
    if (bv.size() != 1) unsup("vector GEP");
    E a = bv[0];
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      if (auto* st = it.getStructTypeOrNull()) {
        unsigned idx = cast<ConstantInt>(it.getOperand())->getZExtValue();
        a = ex.add(a, ex.con(64, DL.getStructLayout(st)->getElementOffset(idx)));
      } else {
        uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
        Val iv = get(it.getOperand());
        if (iv.size() != 1) unsup("vector GEP");
        E i = iv[0]; i = i->w < 64 ? ex.sext(i, 64) : ex.extract(i, 0, 64);
        a = ex.add(a, ex.bin(Op::MUL, i, ex.con(64, sz)));
      }
    }
    return a;
  }
  Val get(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    Frame& f = s.fr.back();
    auto it = f.fi->num.find(v);
    if (it == f.fi->num.end()) unsup("value");
    return f.regs[it->second];
  }
  void set(State& s, const Instruction* i, Val v) { Frame& f = s.fr.back(); f.regs[f.fi->num[i]] = std::move(v); }
  E get1(State& s, const Value* v) { Val x = get(s, v); if (x.size() != 1) unsup("scalar expected"); return x[0]; }

  // ---------- FP helpers ----------
  E fbin(const char* nm, E a, E b) {
    a = ex.def(a); b = ex.def(b);
    std::string n = nm;
    if (Exprs::isC(a) && Exprs::isC(b)) {
      APFloat x(Exprs::sem(a->w), a->c), y(Exprs::sem(b->w), b->c);
      if (n == "fadd") x.add(y, APFloat::rmNearestTiesToEven);
      else if (n == "fsub") x.subtract(y, APFloat::rmNearestTiesToEven);
      else if (n == "fmul") x.multiply(y, APFloat::rmNearestTiesToEven);
      else if (n == "fdiv") x.divide(y, APFloat::rmNearestTiesToEven);
      else return ex.uf(n + "." + std::to_string(a->w), a->w, {a, b});
      return ex.con(x.bitcastToAPInt());
    }
    if ((n == "fadd" || n == "fmul") && (Exprs::isC(a) || (!Exprs::isC(b) && a->id > b->id))) std::swap(a, b);
    if (Exprs::isC(b) && (n == "fadd" || n == "fsub" || n == "fmul" || n == "fdiv")) { // neutral elements
      APFloat y(Exprs::sem(b->w), b->c);
      bool plain = ((n == "fmul" || n == "fdiv") && y.isExactlyValue(1.0)) || (n == "fadd" && y.isNegZero()) || (n == "fsub" && y.isPosZero());
      bool pz = n == "fadd" && y.isPosZero();
      if (plain || pz) {
        if (neutral.count({a, pz})) return a;
        E nanv = ex.uf(n + "." + std::to_string(a->w), a->w, {a, b});
        E r = ex.ite(ex.isNaN(a), nanv, pz ? ex.ite(ex.isFZero(a), ex.con(a->w, 0), a) : a);
        neutral.insert({r, pz}); neutral.insert({r, false});
        return r;
      }
    }
    return ex.uf(n + "." + std::to_string(a->w), a->w, {a, b});
  }
  std::set<std::pair<E, bool>> neutral; // results unchanged by adding +0 (true) / multiplying by 1 (false)
  E fconv(const char* nm, E a, unsigned w) {
    a = ex.def(a);
    std::string n = nm;
    if (Exprs::isC(a)) {
      bool lossy;
      if (n == "fpext" || n == "fptrunc") { APFloat x(Exprs::sem(a->w), a->c); x.convert(Exprs::sem(w), APFloat::rmNearestTiesToEven, &lossy); return ex.con(x.bitcastToAPInt()); }
      if (n == "sitofp" || n == "uitofp") { APFloat x(Exprs::sem(w)); x.convertFromAPInt(a->c, n == "sitofp", APFloat::rmNearestTiesToEven); return ex.con(x.bitcastToAPInt()); }
      APFloat x(Exprs::sem(a->w), a->c); APSInt r(w, n == "fptoui"); bool e; auto st = x.convertToInteger(r, APFloat::rmTowardZero, &e);
      if (!(st & APFloat::opInvalidOp)) return ex.con(r);
      return ex.freshVar(w, "poison");
    }
    if (n == "fptrunc" && a->op == Op::UF && a->name.rfind("fpext.", 0) == 0 && a->a[0]->w == w) return a->a[0];
    // a widened narrower integer: normalise so that float(int(short x)) and float(x) agree
    if (n == "sitofp" && a->op == Op::SEXT && a->a[0]->w >= 8) return fconv("sitofp", a->a[0], w);
    if ((n == "sitofp" || n == "uitofp") && a->op == Op::ZEXT && a->a[0]->w >= 8) return fconv("uitofp", a->a[0], w);
    if (a->ct > 1) return ex.ite(a->a[0], fconv(nm, a->a[1], w), fconv(nm, a->a[2], w));
    if (a->op == Op::ZEXT && a->a[0]->w == 1) return ex.ite(a->a[0], fconv(nm, ex.con(a->w, 1), w), fconv(nm, ex.con(a->w, 0), w));
    return ex.uf(n + "." + std::to_string(a->w) + "." + std::to_string(w), w, {a});
  }
  E fcmpE(CmpInst::Predicate p, E a, E b) {
    a = ex.def(a); b = ex.def(b);
    E uno = ex.lor(ex.isNaN(a), ex.isNaN(b));
    switch (p) {
      case CmpInst::FCMP_FALSE: return ex.fls();
      case CmpInst::FCMP_TRUE: return ex.tru();
      case CmpInst::FCMP_OEQ: return ex.feqOrd(a, b);
      case CmpInst::FCMP_OGT: return ex.fltOrd(b, a);
      case CmpInst::FCMP_OLT: return ex.fltOrd(a, b);
      case CmpInst::FCMP_OGE: return ex.lor(ex.fltOrd(b, a), ex.feqOrd(a, b));
      case CmpInst::FCMP_OLE: return ex.lor(ex.fltOrd(a, b), ex.feqOrd(a, b));
      case CmpInst::FCMP_ONE: return ex.land(ex.bnot(uno), ex.bnot(ex.feqOrd(a, b)));
      case CmpInst::FCMP_ORD: return ex.bnot(uno);
      case CmpInst::FCMP_UNO: return uno;
      case CmpInst::FCMP_UEQ: return ex.lor(uno, ex.feqOrd(a, b));
      case CmpInst::FCMP_UGT: return ex.bnot(ex.lor(ex.fltOrd(a, b), ex.feqOrd(a, b)));
      case CmpInst::FCMP_UGE: return ex.bnot(ex.fltOrd(a, b));
      case CmpInst::FCMP_ULT: return ex.bnot(ex.lor(ex.fltOrd(b, a), ex.feqOrd(a, b)));
      case CmpInst::FCMP_ULE: return ex.bnot(ex.fltOrd(b, a));
      case CmpInst::FCMP_UNE: return ex.bnot(ex.feqOrd(a, b));
      default: unsup("fcmp");
    }
  }
  E icmpE(CmpInst::Predicate p, E a, E b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return ex.eq(a, b);
      case CmpInst::ICMP_NE: return ex.ne(a, b);
      case CmpInst::ICMP_ULT: return ex.cmp(Op::ULT, a, b);
      case CmpInst::ICMP_ULE: return ex.cmp(Op::ULE, a, b);
      case CmpInst::ICMP_UGT: return ex.cmp(Op::ULT, b, a);
      case CmpInst::ICMP_UGE: return ex.cmp(Op::ULE, b, a);
      case CmpInst::ICMP_SLT: return ex.cmp(Op::SLT, a, b);
      case CmpInst::ICMP_SLE: return ex.cmp(Op::SLE, a, b);
      case CmpInst::ICMP_SGT: return ex.cmp(Op::SLT, b, a);
      case CmpInst::ICMP_SGE: return ex.cmp(Op::SLE, b, a);
      default: unsup("icmp");
    }
  }
#include "intrin.inc"

  // ---------- control ----------
  void enterBlock(State& s, BasicBlock* to) {
    Frame& f = s.fr.back();
    BasicBlock* from = f.bb;
    std::vector<std::pair<PHINode*, Val>> ps;
    auto it = to->begin();
    for (; it != to->end(); ++it) { auto* p = dyn_cast<PHINode>(&*it); if (!p) break; ps.push_back({p, get(s, p->getIncomingValueForBlock(from))}); }
    f.bb = to; f.it = it;
    for (auto& [p, v] : ps) set(s, p, std::move(v));
    s.entered = true;
  }
  void pushCall(State& s, Function* F, std::vector<Val> args, CallBase* cb) {
    if (s.fr.size() > 400) unsup("recursion too deep");
    if (seenF.insert(F).second) if (auto* sp = F->getSubprogram()) {
      std::string fn = sp->getFilename().str(); auto p = fn.find("/vir/");
      if (p != std::string::npos) funcs.insert(fn.substr(p + 1) + ":" + std::to_string(sp->getLine()) + ":" + sp->getName().str());
    }
    Frame f; f.F = F; f.fi = info(F); f.bb = &F->getEntryBlock(); f.it = f.bb->begin(); f.regs.resize(f.fi->n); f.caller = cb;
    unsigned i = 0;
    for (auto& a : F->args()) {
      Val v = i < args.size() ? args[i] : Val{};
      if (cb && i < cb->arg_size() && cb->isByValArgument(i)) {
        Type* t = cb->getParamByValType(i); uint64_t n = DL.getTypeAllocSize(t);
        uint64_t al = cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8;
        uint64_t b = allocate(s, n, al, "byval"); f.allocas.push_back(b);
        copyMem(s, ex.con(64, b), v[0], n, 1, 1);
        v = {ex.con(64, b)};
      }
      f.regs[f.fi->num[&a]] = v; ++i;
    }
    s.fr.push_back(std::move(f));
  }
  void trapEnd(State& s, const std::string& what) {
    ++lossEvents;
    if (s.expectTrap) { ++trapPaths; return; }
    checkBad(s, ex.tru(), "trap", what);
    ++deadPaths;
  }
  // merge b into a; both at the same program point; L = common pc length
  bool mergeable(State& a, State& b) {
    if (a.fr.size() != b.fr.size() || a.expectTrap != b.expectTrap || a.inputs.size() != b.inputs.size()) return false;
    for (size_t i = 0; i < a.inputs.size(); ++i) if (a.inputs[i].fork != b.inputs[i].fork || a.inputs[i].fv != b.inputs[i].fv || a.inputs[i].vars != b.inputs[i].vars) return false;
    if (a.mem.size() != b.mem.size()) return false;
    for (auto i = a.mem.begin(), j = b.mem.begin(); i != a.mem.end(); ++i, ++j) if (i->first != j->first || i->second->size != j->second->size) return false;
    return true;
  }
  void mergeInto(State& a, State& b, E condB) {
    ++merges;
    Frame &fa = a.fr.back(), &fb = b.fr.back();
    for (unsigned i = 0; i < fa.regs.size(); ++i) {
      Val &x = fa.regs[i], &y = fb.regs[i];
      if (x == y) continue;
      if (x.size() != y.size()) { x.clear(); continue; }
      for (unsigned k = 0; k < x.size(); ++k) if (x[k] != y[k]) x[k] = ex.ite(condB, y[k], x[k]);
    }
    for (auto i = a.mem.begin(), j = b.mem.begin(); i != a.mem.end(); ++i, ++j) {
      if (i->second == j->second) continue;
      Obj* o = nullptr; Obj* p = j->second.get();
      for (uint64_t k = 0; k < p->size;) {
        if (i->second->b[k] == p->b[k]) { ++k; continue; }
        if (!o) o = writable(a, i);
        // widest common whole value
        auto wholeAt = [&](Obj* q) -> unsigned { Cell& c = q->b[k]; if (!c.v || c.idx || c.v->w % 8) return 0; unsigned n = c.v->w / 8; if (k + n > q->size) return 0; for (unsigned t = 1; t < n; ++t) if (q->b[k + t].v != c.v || q->b[k + t].idx != t) return 0; return n; };
        auto undefAt = [&](Obj* q, unsigned n) { for (unsigned t = 0; t < n; ++t) if (q->b[k + t].v) return false; return true; };
        unsigned n1 = wholeAt(o), n2 = wholeAt(p); unsigned n = 1; E x, y;
        auto defAt = [&](Obj* q, unsigned n) { for (unsigned t = 0; t < n; ++t) if (!q->b[k + t].v) return false; return true; };
        for (unsigned m : {std::max(n1, n2), std::min(n1, n2)}) if (m > 1 && k + m <= p->size && (defAt(o, m) || undefAt(o, m)) && (defAt(p, m) || undefAt(p, m))) { n = m; break; }
        x = cellsToNode(&o->b[k], n); y = cellsToNode(&p->b[k], n);
        E v;
        if (x->op == Op::UNDEF && y->op == Op::UNDEF) { k += n; continue; }
        v = ex.ite(condB, y, x);
        for (unsigned t = 0; t < n; ++t) o->b[k + t] = Cell{v, t};
        k += n;
      }
    }
    a.brk = std::max(a.brk, b.brk); a.mayUnsat = a.mayUnsat || b.mayUnsat;
    a.asserts = std::max(a.asserts, b.asserts);
  }
  void mergeAll(std::vector<SP>& outs, size_t L, bool lost) {
    if (outs.size() < 2) return;
    std::vector<SP> res;
    std::vector<E> resCond; std::vector<bool> isMerged;
    for (auto& o : outs) {
      E c = ex.tru(); for (size_t i = L; i < o->pc.size(); ++i) c = ex.land(c, o->pc[i]);
      bool done = false;
      for (size_t r = 0; r < res.size(); ++r) if (mergeable(*res[r], *o)) {
        mergeInto(*res[r], *o, c);
        resCond[r] = ex.lor(resCond[r], c); isMerged[r] = true; done = true; break;
      }
      if (!done) { res.push_back(std::move(o)); resCond.push_back(c); isMerged.push_back(false); }
    }
    for (size_t r = 0; r < res.size(); ++r) if (isMerged[r]) {
      res[r]->pc.resize(L);
      if (!(res.size() == 1 && !lost) && !Exprs::isOnes(resCond[r])) res[r]->pc.push_back(resCond[r]);
    }
    outs = std::move(res);
  }
  void run(SP s, size_t stopDepth, const BasicBlock* stopBB, std::vector<SP>& out) {
    for (;;) {
      if (s->entered && stopBB && s->fr.size() == stopDepth && s->fr.back().bb == stopBB) { out.push_back(std::move(s)); return; }
      s->entered = false;
      if ((++insts & 1023) == 0) tick();
      Frame& f = s->fr.back();
      Instruction* I = &*f.it;
      // --- terminators with several successors ---
      std::vector<std::pair<E, BasicBlock*>> succ;
      if (auto* br = dyn_cast<BranchInst>(I)) {
        if (br->isUnconditional()) { enterBlock(*s, br->getSuccessor(0)); continue; }
        E c = ex.def(get1(*s, br->getCondition()));
        if (Exprs::isC(c)) { enterBlock(*s, br->getSuccessor(c->c.isOne() ? 0 : 1)); continue; }
        if (br->getSuccessor(0) == br->getSuccessor(1)) { enterBlock(*s, br->getSuccessor(0)); continue; }
        succ.push_back({c, br->getSuccessor(0)}); succ.push_back({ex.bnot(c), br->getSuccessor(1)});
      } else if (auto* swi = dyn_cast<SwitchInst>(I)) {
        E c = ex.def(get1(*s, swi->getCondition()));
        if (Exprs::isC(c)) { BasicBlock* to = swi->getDefaultDest(); for (auto& cs : swi->cases()) if (cs.getCaseValue()->getValue() == c->c) to = cs.getCaseSuccessor(); enterBlock(*s, to); continue; }
        E none = ex.tru(); std::vector<std::pair<BasicBlock*, E>> g;
        for (auto& cs : swi->cases()) {
          E e = ex.eq(c, ex.con(cs.getCaseValue()->getValue())); none = ex.land(none, ex.bnot(e));
          bool d = false; for (auto& [b, x] : g) if (b == cs.getCaseSuccessor()) { x = ex.lor(x, e); d = true; }
          if (!d) g.push_back({cs.getCaseSuccessor(), e});
        }
        bool d = false; for (auto& [b, x] : g) if (b == swi->getDefaultDest()) { x = ex.lor(x, none); d = true; }
        if (!d) g.push_back({swi->getDefaultDest(), none});
        for (auto& [b, x] : g) succ.push_back({x, b});
      }
      if (!succ.empty()) {
        std::vector<std::pair<E, BasicBlock*>> fe;
        bool parentMay = s->mayUnsat, skip = f.fi->simple.count(f.bb);
        if (!skip && f.fi->ipdom.count(f.bb)) { // ask the solver only once a cyclic branch was taken often
          unsigned* n = nullptr; for (auto& [b, c] : f.visits) if (b == f.bb) n = &c;
          if (!n) { f.visits.push_back({f.bb, 0}); n = &f.visits.back().second; }
          skip = ++*n <= lazyLoops;
        }
        if (skip) { fe = succ; s->mayUnsat = true; }
        else for (size_t i = 0; i < succ.size(); ++i) {
          if (i + 1 == succ.size() && fe.empty() && !s->mayUnsat) { fe.push_back(succ[i]); break; } // pc is satisfiable, so the last must be feasible
          if (feasible(*s, succ[i].first)) fe.push_back(succ[i]);
        }
        if (fe.empty()) { ++deadPaths; return; } // the whole path is infeasible
        if (fe.size() == 1) { enterBlock(*s, fe[0].second); continue; }
        size_t d = s->fr.size(); const BasicBlock* P = nullptr;
        auto ip = f.fi->ipdom.find(f.bb); if (ip != f.fi->ipdom.end()) P = ip->second;
        size_t L = s->pc.size();
        ++forks;
        if (!P) {
          for (size_t i = 0; i < fe.size(); ++i) {
            SP c = i + 1 == fe.size() ? std::move(s) : std::make_unique<State>(*s);
            c->pc.push_back(fe[i].first); enterBlock(*c, fe[i].second);
            run(std::move(c), stopDepth, stopBB, out);
          }
          return;
        }
        std::vector<SP> outs; unsigned long le = lossEvents;
        for (size_t i = 0; i < fe.size(); ++i) {
          SP c = i + 1 == fe.size() ? std::move(s) : std::make_unique<State>(*s);
          c->pc.push_back(fe[i].first); enterBlock(*c, fe[i].second);
          run(std::move(c), d, P, outs);
        }
        mergeAll(outs, L, le != lossEvents);
        if (outs.empty()) return;
        if (outs.size() == 1 && le == lossEvents) outs[0]->mayUnsat = parentMay;
        if (outs.size() == 1) { s = std::move(outs[0]); s->entered = true; continue; }
        for (auto& o : outs) { o->entered = true; run(std::move(o), stopDepth, stopBB, out); }
        return;
      }
      if (auto* ri = dyn_cast<ReturnInst>(I)) {
        Val v; if (ri->getReturnValue()) v = get(*s, ri->getReturnValue());
        for (auto a : f.allocas) s->mem.erase(a);
        CallBase* cb = f.caller;
        s->fr.pop_back();
        if (s->fr.empty()) {
          ++paths;
          if (!haveWitness) {
            if (solve(s->pc, nullptr, true, true) == SAT) { haveWitness = true; witnessInputs = s->inputs; witnessVals = modelVals(*s, true); }
          }
          return;
        }
        if (!cb->getType()->isVoidTy()) set(*s, cb, std::move(v));
        Frame& g = s->fr.back();
        if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(*s, inv->getNormalDest()); else ++g.it;
        continue;
      }
      if (isa<UnreachableInst>(I)) {
        ++lossEvents;
        checkBad(*s, ex.tru(), "unreachable", "reached unreachable code");
        ++deadPaths; return;
      }
      if (auto* cb = dyn_cast<CallBase>(I)) {
        CallRes r = call(s, cb, stopDepth, stopBB, out);
        if (r == CallRes::Dead) return;
        if (r == CallRes::Pushed) continue;
        if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(*s, inv->getNormalDest()); else ++s->fr.back().it;
        continue;
      }
      step(*s, I);
      ++s->fr.back().it;
    }
  }
  enum class CallRes { Next, Pushed, Dead };

  std::string cstr(State& s, E p) {
    std::string r; if (!Exprs::isC(p)) return "?";
    uint64_t a = p->c.getZExtValue();
    for (;;) { Obj* o = find(s, a, 1); if (!o) break; Cell& c = o->b[a - o->base]; if (!c.v) break; E e = ex.extract(c.v, c.idx * 8, 8); if (!Exprs::isC(e) || e->c.isZero()) break; r += char(e->c.getZExtValue()); ++a; if (r.size() > 200) break; }
    return r;
  }
  uint64_t cint(E e, const char* what) { if (!Exprs::isC(e)) unsup(std::string("symbolic ") + what); return e->c.getZExtValue(); }

  CallRes call(SP& s, CallBase* cb, size_t stopDepth, const BasicBlock* stopBB, std::vector<SP>& out) {
    std::vector<Val> args;
    Value* callee = cb->getCalledOperand();
    if (auto* ia = dyn_cast<InlineAsm>(callee)) {
      // only empty asm (compiler barriers) is supported; outputs tied to inputs keep their value
      if (!StringRef(ia->getAsmString()).trim().empty()) unsup("inline asm: " + std::string(ia->getAsmString()));
      inlineAsm(*s, cb, ia);
      return CallRes::Next;
    }
    Function* F = dyn_cast<Function>(callee->stripPointerCasts());
    if (!F) {
      if (auto* al = dyn_cast<GlobalAlias>(callee)) F = dyn_cast<Function>(al->getAliaseeObject());
      if (!F) {
        E a = get1(*s, callee);
        if (!Exprs::isC(a)) unsup("symbolic call target");
        auto it = faddr.find(a->c.getZExtValue());
        if (it == faddr.end()) { checkBad(*s, ex.tru(), "oob", "call through invalid pointer"); return CallRes::Dead; }
        F = it->second;
      }
    }
    StringRef nm = F->getName();
    if (nm.starts_with("llvm.dbg.") || nm.starts_with("llvm.invariant.end") || nm.starts_with("llvm.lifetime.") || nm.starts_with("llvm.experimental.noalias")) return CallRes::Next;
    if (nm == "llvm.assume") { doAssume(*s, cb); return CallRes::Next; }
    for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) args.push_back({}); else args.push_back(get(*s, a)); }
    if (!F->isDeclaration() && !nm.starts_with("vp_")) { pushCall(*s, F, std::move(args), cb); return CallRes::Pushed; }
    // ---- harness runtime ----
    if (nm == "vp_sym" || nm == "vp_symbool") {
      bool isb = nm == "vp_symbool";
      uint64_t el = isb ? 1 : cint(args[1][0], "size"), n = cint(args[isb ? 1 : 2][0], "count");
      std::string name = cstr(*s, args[isb ? 2 : 3][0]);
      Input in; in.name = name; in.elsize = el;
      uint64_t a = cint(args[0][0], "address");
      for (uint64_t i = 0; i < n; ++i) {
        std::string vn = std::to_string(s->inputs.size()) + ":" + name + "[" + std::to_string(i) + "]";
        E v = ex.var(isb ? 1 : el * 8, vn); in.vars.push_back(v);
        E x = isb ? ex.zext(v, 8) : v;
        auto locs = resolve(*s, ex.con(64, a + i * el), el, 1, "vp_sym");
        std::map<uint64_t, std::shared_ptr<Obj>>::iterator it; find(*s, a + i * el, el, &it);
        Obj* o = writable(*s, it); for (unsigned k = 0; k < el; ++k) o->b[a + i * el - o->base + k] = Cell{x, k};
      }
      s->inputs.push_back(in);
      return CallRes::Next;
    }
    if (nm == "vp_fork") {
      // a symbolic variable in [lo, hi]; case-split over its feasible values
      uint64_t lo = cint(args[0][0], "lo"), hi = cint(args[1][0], "hi");
      std::string name = cstr(*s, args[2][0]);
      size_t n = hi - lo + 1;
      for (uint64_t v = lo; v <= hi; ++v) {
        SP c = --n == 0 ? std::move(s) : std::make_unique<State>(*s);
        Input in; in.name = name; in.elsize = 8; in.fork = true; in.fv = v; c->inputs.push_back(in);
        set(*c, cb, Val{ex.con(bits(cb->getType(), DL), v)});
        ++c->fr.back().it;
        run(std::move(c), stopDepth, stopBB, out);
      }
      ++forks;
      return CallRes::Dead;
    }
    if (nm == "vp_assume") {
      E c = args[0][0]; if (c->w > 1) c = ex.ne(c, ex.con(c->w, 0));
      c = ex.def(c);
      if (Exprs::isOnes(c)) return CallRes::Next;
      ++lossEvents;
      if (!feasible(*s, c)) { ++deadPaths; return CallRes::Dead; }
      s->pc.push_back(c);
      return CallRes::Next;
    }
    if (nm == "vp_assert") {
      E c = args[0][0]; if (c->w > 1) c = ex.ne(c, ex.con(c->w, 0));
      c = ex.def(c);
      ++s->asserts;
      if (Exprs::isOnes(c)) { ++assertsFolded; return CallRes::Next; }
      ++assertsSolved;
      checkBad(*s, ex.bnot(c), "assert", cstr(*s, args[1][0]));
      return CallRes::Next;
    }
    if (nm == "vp_opaque") return CallRes::Next;
    if (nm == "vp_expect_trap") { s->expectTrap = true; return CallRes::Next; }
    if (nm == "vp_alloc") {
      uint64_t n = cint(args[0][0], "alloc size"), al = cint(args[1][0], "alloc align"), off = cint(args[2][0], "alloc offset");
      uint64_t b = allocate(*s, n, al, "buffer " + cstr(*s, args[3][0]), off);
      set(*s, cb, Val{ex.con(64, b)});
      return CallRes::Next;
    }
    if (nm == "vp_opaque") { return CallRes::Next; }
    return external(s, cb, F, nm, args);
  }

  void inlineAsm(State& s, CallBase* cb, InlineAsm* ia) {
    auto cons = ia->ParseConstraints();
    // outputs in order; indirect outputs (=*m) with tied inputs keep memory: nothing to do
    std::vector<int> outIdx; int argNo = 0;
    std::vector<std::pair<int, int>> tied; // (output number, arg)
    int outNo = 0; std::vector<bool> outIndirect; std::vector<int> outArg, inIndirect;
    for (auto& c : cons) {
      if (c.Type == InlineAsm::isOutput) { outArg.push_back(argNo); if (c.isIndirect) { ++argNo; outIndirect.push_back(true); } else outIndirect.push_back(false); ++outNo; }
      else if (c.Type == InlineAsm::isInput) {
        if (c.isIndirect) inIndirect.push_back(argNo);
        for (auto& code : c.Codes) if (!code.empty() && isdigit((unsigned char)code[0])) tied.push_back({std::stoi(code), argNo});
        ++argNo;
      }
    }
    // indirect outputs (memory operands): tied to an input value: that value; read-write memory ("=*m" with "*m" of
    // the same address): unchanged; otherwise arbitrary
    for (int o = 0; o < outNo; ++o) if (outIndirect[o]) {
      E p = get1(s, cb->getArgOperand(outArg[o])); Type* et = cb->getParamElementType(outArg[o]); bool ok = false;
      for (auto& [oo, a] : tied) if (oo == o) {
        if (std::find(inIndirect.begin(), inIndirect.end(), a) != inIndirect.end()) continue; // memory operand, below
        store(s, p, get(s, cb->getArgOperand(a)), cb->getArgOperand(a)->getType(), 1); ok = true;
      }
      for (int i : inIndirect) if (get1(s, cb->getArgOperand(i)) == p) ok = true;
      if (!ok && et) { Val u; undefVal(et, u); store(s, p, u, et, 1); }
    }
    if (cb->getType()->isVoidTy()) return;
    Val v; int direct = 0; (void)direct;
    std::vector<Type*> tys; if (auto* st = dyn_cast<StructType>(cb->getType())) for (auto* t : st->elements()) tys.push_back(t); else tys.push_back(cb->getType());
    unsigned di = 0;
    for (int o = 0; o < outNo; ++o) {
      if (outIndirect[o]) continue;
      bool ok = false;
      for (auto& [oo, a] : tied) if (oo == o) {
        Val x = get(s, cb->getArgOperand(a));
        Type* at = cb->getArgOperand(a)->getType();
        if (at != tys[di]) { std::vector<Cell> c(DL.getTypeStoreSize(at) + 64); toCells(x, at, c.data()); x = fromCells(c.data(), tys[di]); }
        v.append(x.begin(), x.end()); ok = true;
      }
      if (!ok) undefVal(tys[di], v);
      ++di;
    }
    set(s, cb, v);
  }

  void doAssume(State& s, CallBase* cb) {
    auto* ai = cast<AssumeInst>(cb);
    E c = get1(s, ai->getArgOperand(0));
    if (!Exprs::isOnes(c)) checkBad(s, ex.bnot(ex.def(c)), "assume", "code assumes a condition that does not hold");
    for (unsigned i = 0; i < ai->getNumOperandBundles(); ++i) {
      auto b = ai->getOperandBundleAt(i);
      if (b.getTagName() == "align" && b.Inputs.size() >= 2) {
        E p = get1(s, b.Inputs[0]), al = get1(s, b.Inputs[1]); al = al->w < 64 ? ex.zext(al, 64) : al;
        if (b.Inputs.size() > 2) { E off = get1(s, b.Inputs[2]); p = ex.sub(p, off->w < 64 ? ex.sext(off, 64) : off); }
        E bad = ex.ne(ex.bin(Op::UREM, p, al), ex.con(64, 0));
        checkBad(s, bad, "misaligned", "code assumes an alignment of " + (Exprs::isC(al) ? std::to_string(al->c.getZExtValue()) : "?") + " that the pointer does not have");
      }
    }
  }

  void step(State& s, Instruction* I) {
    Type* t = I->getType();
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      Val a = get(s, bo->getOperand(0)), b = get(s, bo->getOperand(1)), r;
      for (unsigned i = 0; i < a.size(); ++i) r.push_back(binop(s, bo->getOpcode(), a[i], b[i]));
      set(s, I, r); return;
    }
    switch (I->getOpcode()) {
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        uint64_t n = DL.getTypeAllocSize(a->getAllocatedType());
        if (a->isArrayAllocation()) n *= cint(get1(s, a->getArraySize()), "alloca size");
        uint64_t b = allocate(s, std::max<uint64_t>(n, 1), a->getAlign().value(), "object " + a->getName().str() + " in " + s.fr.back().F->getName().str().substr(0, 60));
        s.fr.back().allocas.push_back(b);
        set(s, I, Val{ex.con(64, b)}); return;
      }
      case Instruction::Load: { auto* l = cast<LoadInst>(I); set(s, I, load(s, get1(s, l->getPointerOperand()), t, l->getAlign().value())); return; }
      case Instruction::Store: { auto* l = cast<StoreInst>(I); store(s, get1(s, l->getPointerOperand()), get(s, l->getValueOperand()), l->getValueOperand()->getType(), l->getAlign().value()); return; }
      case Instruction::GetElementPtr: { set(s, I, Val{gep(cast<GEPOperator>(I), [&](const Value* v) { return get(s, v); })}); return; }
      case Instruction::FNeg: { Val a = get(s, I->getOperand(0)); for (auto& x : a) x = ex.fneg(x); set(s, I, a); return; }
      case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1)), r; for (unsigned i = 0; i < a.size(); ++i) r.push_back(icmpE(c->getPredicate(), a[i], b[i])); set(s, I, r); return; }
      case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1)), r; for (unsigned i = 0; i < a.size(); ++i) r.push_back(fcmpE(c->getPredicate(), a[i], b[i])); set(s, I, r); return; }
      case Instruction::Select: {
        Val c = get(s, I->getOperand(0)), a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2)), r;
        for (unsigned i = 0; i < a.size(); ++i) r.push_back(ex.ite(c.size() == 1 ? c[0] : c[i], a[i], b[i]));
        set(s, I, r); return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        Val a = get(s, I->getOperand(0)), r; unsigned w = sw(t->getScalarType(), DL);
        for (auto x : a) switch (I->getOpcode()) {
          case Instruction::Trunc: r.push_back(ex.extract(x, 0, w)); break;
          case Instruction::ZExt: r.push_back(ex.zext(x, w)); break;
          case Instruction::SExt: r.push_back(ex.sext(x, w)); break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: r.push_back(x->w >= w ? ex.extract(x, 0, w) : ex.zext(x, w)); break;
          case Instruction::FPExt: r.push_back(fconv("fpext", x, w)); break;
          case Instruction::FPTrunc: r.push_back(fconv("fptrunc", x, w)); break;
          case Instruction::SIToFP: r.push_back(fconv("sitofp", x, w)); break;
          case Instruction::UIToFP: r.push_back(fconv("uitofp", x, w)); break;
          case Instruction::FPToSI: r.push_back(fconv("fptosi", x, w)); break;
          default: r.push_back(fconv("fptoui", x, w)); break;
        }
        set(s, I, r); return;
      }
      case Instruction::BitCast: {
        Val a = get(s, I->getOperand(0)); Type* st = I->getOperand(0)->getType();
        set(s, I, bitcast(a, st, t)); return;
      }
      case Instruction::Freeze: { Val a = get(s, I->getOperand(0)); for (auto& x : a) x = ex.def(x); set(s, I, a); return; }
      case Instruction::ExtractElement: {
        Val a = get(s, I->getOperand(0)); E i = get1(s, I->getOperand(1));
        if (Exprs::isC(i)) { uint64_t k = i->c.getZExtValue(); set(s, I, Val{k < a.size() ? a[k] : ex.undef(a[0]->w)}); return; }
        checkBad(s, ex.cmp(Op::ULE, ex.con(i->w, a.size()), i), "oob", "vector element index out of range");
        E r = a[0]; for (unsigned k = 1; k < a.size(); ++k) r = ex.ite(ex.eq(i, ex.con(i->w, k)), a[k], r);
        set(s, I, Val{r}); return;
      }
      case Instruction::InsertElement: {
        Val a = get(s, I->getOperand(0)); E x = get1(s, I->getOperand(1)), i = get1(s, I->getOperand(2));
        if (Exprs::isC(i)) { uint64_t k = i->c.getZExtValue(); if (k < a.size()) a[k] = x; set(s, I, a); return; }
        checkBad(s, ex.cmp(Op::ULE, ex.con(i->w, a.size()), i), "oob", "vector element index out of range");
        for (unsigned k = 0; k < a.size(); ++k) a[k] = ex.ite(ex.eq(i, ex.con(i->w, k)), x, a[k]);
        set(s, I, a); return;
      }
      case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I); Val a = get(s, sv->getOperand(0)), b = get(s, sv->getOperand(1)), r;
        for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? ex.undef(a[0]->w) : unsigned(m) < a.size() ? a[m] : b[m - a.size()]);
        set(s, I, r); return;
      }
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(I); Val a = get(s, ev->getAggregateOperand());
        auto [off, tt] = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices());
        set(s, I, Val(a.begin() + off, a.begin() + off + count(tt))); return;
      }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I); Val a = get(s, iv->getAggregateOperand()), x = get(s, iv->getInsertedValueOperand());
        auto [off, tt] = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices());
        for (unsigned k = 0; k < x.size(); ++k) a[off + k] = x[k];
        set(s, I, a); return;
      }
      case Instruction::Fence: return;
      default: unsup(std::string("instruction ") + I->getOpcodeName());
    }
  }
  std::pair<unsigned, Type*> aggOff(Type* t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += count(st->getElementType(k)); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); off += i * count(at->getElementType()); t = at->getElementType(); }
    }
    return {off, t};
  }
  Val bitcast(const Val& a, Type* st, Type* t) {
    if (st->getScalarType() == t->getScalarType() && a.size() == count(t)) return a;
    unsigned sb = sw(st->getScalarType(), DL), db = sw(t->getScalarType(), DL);
    if (sb == db) return a;
    if (sb % 8 == 0 && db % 8 == 0) { std::vector<Cell> c(DL.getTypeStoreSize(st) + 64); toCells(a, st, c.data()); return fromCells(c.data(), t); }
    E x = a[0]; for (unsigned i = 1; i < a.size(); ++i) x = ex.concat(a[i], x);
    Val r; unsigned n = x->w / db; for (unsigned i = 0; i < n; ++i) r.push_back(ex.extract(x, i * db, db));
    return r;
  }
  E binop(State& s, unsigned op, E a, E b) {
    switch (op) {
      case Instruction::Add: return ex.add(a, b);
      case Instruction::Sub: return ex.sub(a, b);
      case Instruction::Mul: return ex.bin(Op::MUL, a, b);
      case Instruction::And: return ex.bin(Op::AND, a, b);
      case Instruction::Or: return ex.bin(Op::OR, a, b);
      case Instruction::Xor: return ex.bin(Op::XOR, a, b);
      case Instruction::Shl: return ex.bin(Op::SHL, a, b);
      case Instruction::LShr: return ex.bin(Op::LSHR, a, b);
      case Instruction::AShr: return ex.bin(Op::ASHR, a, b);
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        b = ex.def(b); a = ex.def(a);
        if (!Exprs::isC(b) || b->c.isZero()) checkBad(s, ex.eq(b, ex.con(b->w, 0)), "divzero", "division by zero");
        return ex.bin(op == Instruction::UDiv ? Op::UDIV : op == Instruction::SDiv ? Op::SDIV : op == Instruction::URem ? Op::UREM : Op::SREM, a, b);
      }
      case Instruction::FAdd: return fbin("fadd", a, b);
      case Instruction::FSub: return fbin("fsub", a, b);
      case Instruction::FMul: return fbin("fmul", a, b);
      case Instruction::FDiv: return fbin("fdiv", a, b);
      case Instruction::FRem: return fbin("fmod", a, b);
      default: unsup("binop");
    }
  }
  void harness(Function* F) {
    auto s = std::make_unique<State>();
    s->mem = gobjs;
    std::vector<SP> out;
    pushCall(*s, F, {}, nullptr);
    run(std::move(s), size_t(-1), nullptr, out);
  }
};

int main(int argc, char** argv) {
  std::string file, only, list; double limit = 120; unsigned qt = 30000, xt = 30000; bool v = false, lst = false; int lazy = 34, sh = 0, shn = 1, hidx = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--only") only = argv[++i];
    else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &sh, &shn); }
    else if (a == "--lazy") lazy = atoi(argv[++i]);
    else if (a == "--list") lst = true;
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--qt") qt = atoi(argv[++i]);
    else if (a == "--xt") xt = atoi(argv[++i]);
    else if (a == "-v") v = true;
    else file = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("symex", errs()); return 3; }
  for (auto& F : *M) {
    if (F.isDeclaration() || !F.getName().starts_with("vp_harness_")) continue;
    if (!only.empty() && ("," + only + ",").find("," + F.getName().str() + ",") == std::string::npos) continue;
    if (hidx++ % shn != sh) continue;
    if (lst) { puts(F.getName().str().c_str()); continue; }
    // dynamic initialisation of namespace-scope variables runs before the harness
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast_or_null<ConstantArray>(gc->hasInitializer() ? gc->getInitializer() : nullptr)) {
      Instruction* ip = &*F.getEntryBlock().getFirstInsertionPt();
      for (auto& o : arr->operands()) if (auto* cs = dyn_cast<ConstantStruct>(o)) if (auto* cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) CallInst::Create(cf->getFunctionType(), cf, "", ip);
    }
    Engine e(*M); e.limit = limit; e.qtimeout = qt; e.xtimeout = xt; e.verbose = v; e.lazyLoops = lazy;
    std::string status = "holds", msg;
    auto t = Clock::now();
    try { e.layoutGlobals(); e.harness(&F); }
    catch (Found&) { status = "violation"; }
    catch (Unsupported& u) { status = "error"; msg = "unsupported: " + u.msg; }
    catch (Budget& b) { status = "unknown"; msg = b.msg; }
    std::ostringstream o;
    auto inputs = [&](const std::vector<Input>& in, const std::vector<std::vector<std::string>>& vals) {
      o << "[";
      for (size_t i = 0; i < in.size(); ++i) {
        o << (i ? "," : "") << "{\"name\":" << jstr(in[i].name) << ",\"size\":" << in[i].elsize << ",\"fork\":" << (in[i].fork ? "true" : "false") << ",\"hex\":[";
        for (size_t k = 0; k < vals[i].size(); ++k) o << (k ? "," : "") << jstr(vals[i][k]);
        o << "]}";
      }
      o << "]";
    };
    o << "{\"harness\":" << jstr(F.getName().str()) << ",\"status\":" << jstr(status) << ",\"msg\":" << jstr(msg)
      << ",\"paths\":" << e.paths << ",\"trap_paths\":" << e.trapPaths << ",\"forks\":" << e.forks << ",\"merges\":" << e.merges << ",\"insts\":" << e.insts
      << ",\"queries\":" << e.queries << ",\"unsat\":" << e.qUnsat << ",\"sat\":" << e.qSat << ",\"exact_fp\":" << e.qExact << ",\"model_cache\":" << e.cacheHits
      << ",\"asserts_folded\":" << e.assertsFolded << ",\"asserts_solved\":" << e.assertsSolved << ",\"nodes\":" << e.ex.store.size()
      << ",\"solver_s\":" << e.solverT << ",\"wall_s\":" << secs(t) << ",\"functions\":[";
    bool first = true; for (auto& f : e.funcs) { o << (first ? "" : ",") << jstr(f); first = false; }
    o << "],\"violations\":[";
    for (size_t i = 0; i < e.viol.size(); ++i) {
      auto& x = e.viol[i];
      o << (i ? "," : "") << "{\"kind\":" << jstr(x.kind) << ",\"label\":" << jstr(x.label) << ",\"where\":" << jstr(x.where) << ",\"approx\":" << (x.approx ? "true" : "false") << ",\"inputs\":";
      inputs(x.inputs, x.vals); o << "}";
    }
    o << "],\"witness\":";
    if (e.haveWitness) inputs(e.witnessInputs, e.witnessVals); else o << "null";
    o << "}\n";
    std::cout << o.str() << std::flush;
  }
  return 0;
}
