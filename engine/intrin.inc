  // ---------- intrinsics and externals (included into struct Engine) ----------
  E ctpop(E x) {
    E r = ex.con(x->w, 0);
    if (x->w == 1) return x;
    for (unsigned i = 0; i < x->w; ++i) r = ex.add(r, ex.zext(ex.extract(x, i, 1), x->w));
    return r;
  }
  E cttz(E x) { E r = ex.con(x->w, x->w); for (int i = x->w - 1; i >= 0; --i) r = ex.ite(ex.extract(x, i, 1), ex.con(x->w, i), r); return r; }
  E ctlz(E x) { E r = ex.con(x->w, x->w); for (unsigned i = 0; i < x->w; ++i) r = ex.ite(ex.extract(x, i, 1), ex.con(x->w, x->w - 1 - i), r); return r; }
  E fminmax(bool isMin, E a, E b) { // IEEE minNum/maxNum as an uninterpreted function (zero signs unspecified)
    return ex.uf(std::string(isMin ? "fmin." : "fmax.") + std::to_string(a->w), a->w, {a, b});
  }
  E isFpClass(E a, unsigned m) {
    a = ex.def(a);
    auto f = Exprs::fmt(a->w); unsigned mb = f.sb - 1;
    E sign = ex.fsign(a), ns = ex.bnot(sign);
    E expo = ex.extract(a, mb, f.eb), man = ex.extract(a, 0, mb);
    E e0 = ex.eq(expo, ex.con(f.eb, 0)), e1 = ex.eq(expo, ex.con(APInt::getAllOnes(f.eb))), m0 = ex.eq(man, ex.con(mb, 0));
    E nan = ex.land(e1, ex.bnot(m0)), q = ex.extract(a, mb - 1, 1);
    E r = ex.fls();
    if (m & 1) r = ex.lor(r, ex.land(nan, ex.bnot(q)));
    if (m & 2) r = ex.lor(r, ex.land(nan, q));
    E inf = ex.land(e1, m0), zero = ex.land(e0, m0), sub = ex.land(e0, ex.bnot(m0)), nrm = ex.land(ex.bnot(e0), ex.bnot(e1));
    if (m & 4) r = ex.lor(r, ex.land(inf, sign));
    if (m & 8) r = ex.lor(r, ex.land(nrm, sign));
    if (m & 16) r = ex.lor(r, ex.land(sub, sign));
    if (m & 32) r = ex.lor(r, ex.land(zero, sign));
    if (m & 64) r = ex.lor(r, ex.land(zero, ns));
    if (m & 128) r = ex.lor(r, ex.land(sub, ns));
    if (m & 256) r = ex.lor(r, ex.land(nrm, ns));
    if (m & 512) r = ex.lor(r, ex.land(inf, ns));
    return r;
  }
  E ufn(const std::string& base, unsigned w, std::vector<E> a) {
    for (auto& x : a) x = ex.def(x);
    bool allc = true; for (auto x : a) allc = allc && Exprs::isC(x);
    if (allc && a.size() == 1 && (w == 32 || w == 64) && a[0]->w == w) {
      APFloat x(Exprs::sem(w), a[0]->c); bool did = true;
      if (base == "floor") x.roundToIntegral(APFloat::rmTowardNegative);
      else if (base == "ceil") x.roundToIntegral(APFloat::rmTowardPositive);
      else if (base == "trunc") x.roundToIntegral(APFloat::rmTowardZero);
      else if (base == "rint" || base == "nearbyint" || base == "roundeven") x.roundToIntegral(APFloat::rmNearestTiesToEven);
      else if (base == "round") x.roundToIntegral(APFloat::rmNearestTiesToAway);
      else did = false;
      if (did) return ex.con(x.bitcastToAPInt());
    }
    if (base == "fma" && a[0]->id > a[1]->id) std::swap(a[0], a[1]);
    return ex.uf(base + "." + std::to_string(a.size() ? a[0]->w : 0), w, a);
  }
  // strips the float/long-double suffix from libm names
  static std::string libmBase(StringRef n, Type* argT) {
    std::string s = n.str();
    if (s.rfind("__builtin_", 0) == 0) s = s.substr(10);
    if (argT && argT->isFloatTy() && s.size() > 1 && s.back() == 'f') s.pop_back();
    if (argT && argT->isX86_FP80Ty() && s.size() > 1 && s.back() == 'l') s.pop_back();
    return s;
  }
  enum class CallRes;
  CallRes external(SP& s, CallBase* cb, Function* F, StringRef nm, std::vector<Val>& args) {
    Type* t = cb->getType();
    auto ret = [&](Val v) { set(*s, cb, std::move(v)); return CallRes::Next; };
    auto lanes = [&](auto f) { Val r; for (unsigned i = 0; i < args[0].size(); ++i) r.push_back(f(i)); return ret(r); };
    if (nm.starts_with("llvm.")) {
      Intrinsic::ID id = F->getIntrinsicID();
      switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
          uint64_t n = cint(args[2][0], "memcpy size");
          auto pa = [&](unsigned i) { return cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 1; };
          copyMem(*s, args[0][0], args[1][0], n, pa(0), pa(1)); return CallRes::Next; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
          uint64_t n = cint(args[2][0], "memset size"); if (!n) return CallRes::Next;
          Type* bt = ArrayType::get(Type::getInt8Ty(M.getContext()), n); Val v(n, args[1][0]);
          store(*s, args[0][0], v, bt, cb->getParamAlign(0) ? cb->getParamAlign(0)->value() : 1); return CallRes::Next; }
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return ret(args[0]);
        case Intrinsic::is_constant: return ret(Val{ex.fls()});
        case Intrinsic::objectsize: return ret(Val{ex.con(APInt::getAllOnes(bits(t, DL)))});
        case Intrinsic::trap: case Intrinsic::debugtrap: trapEnd(*s, "unexpected trap"); return CallRes::Dead;
        case Intrinsic::ubsantrap: {
          unsigned k = cint(args[0][0], "trap kind");
          ++lossEvents;
          checkBad(*s, ex.tru(), "unreachable", "reached code declared unreachable (sanitizer trap kind " + std::to_string(k) + ")");
          ++deadPaths; return CallRes::Dead; }
        case Intrinsic::stacksave: return ret(Val{ex.con(64, 0)});
        case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::x86_avx_vzeroupper: case Intrinsic::x86_avx_vzeroall: return CallRes::Next;
        case Intrinsic::abs: return lanes([&](int i) { E x = ex.def(args[0][i]); return ex.ite(ex.extract(x, x->w - 1, 1), ex.neg(x), x); });
        case Intrinsic::smax: return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.ite(ex.cmp(Op::SLT, a, b), b, a); });
        case Intrinsic::smin: return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.ite(ex.cmp(Op::SLT, b, a), b, a); });
        case Intrinsic::umax: return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.ite(ex.cmp(Op::ULT, a, b), b, a); });
        case Intrinsic::umin: return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.ite(ex.cmp(Op::ULT, b, a), b, a); });
        case Intrinsic::ctpop: return lanes([&](int i) { return ctpop(ex.def(args[0][i])); });
        case Intrinsic::cttz: return lanes([&](int i) { return cttz(ex.def(args[0][i])); });
        case Intrinsic::ctlz: return lanes([&](int i) { return ctlz(ex.def(args[0][i])); });
        case Intrinsic::bswap: return lanes([&](int i) { E x = ex.def(args[0][i]); E r = nullptr; for (unsigned k = 0; k < x->w; k += 8) { E b = ex.extract(x, k, 8); r = r ? ex.concat(r, b) : b; } return r; });
        case Intrinsic::bitreverse: return lanes([&](int i) { E x = ex.def(args[0][i]); E r = nullptr; for (unsigned k = 0; k < x->w; ++k) { E b = ex.extract(x, k, 1); r = r ? ex.concat(r, b) : b; } return r; });
        case Intrinsic::fshl: case Intrinsic::fshr: return lanes([&](int i) {
          E a = ex.def(args[0][i]), b = ex.def(args[1][i]), c = ex.def(args[2][i]); unsigned w = a->w;
          E x = ex.concat(a, b), sh = ex.zext(ex.bin(Op::UREM, c, ex.con(w, w)), 2 * w);
          return id == Intrinsic::fshl ? ex.extract(ex.bin(Op::SHL, x, sh), w, w) : ex.extract(ex.bin(Op::LSHR, x, sh), 0, w); });
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
          if (args[0].size() != 1) unsup("vector overflow op");
          E a = ex.def(args[0][0]), b = ex.def(args[1][0]); unsigned w = a->w;
          bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
          Op o = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Op::ADD : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Op::SUB : Op::MUL;
          auto xt = [&](E e) { return sg ? ex.sext(e, 2 * w) : ex.zext(e, 2 * w); };
          E wide = ex.bin(o, xt(a), xt(b)), r = ex.bin(o, a, b);
          return ret(Val{r, ex.ne(wide, xt(r))}); }
        case Intrinsic::sadd_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::usub_sat: return lanes([&](int i) {
          E a = ex.def(args[0][i]), b = ex.def(args[1][i]); unsigned w = a->w;
          bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat; bool sb = id == Intrinsic::ssub_sat || id == Intrinsic::usub_sat;
          auto xt = [&](E e) { return sg ? ex.sext(e, w + 2) : ex.zext(e, w + 2); };
          E x = ex.bin(sb ? Op::SUB : Op::ADD, xt(a), xt(b));
          E mx = ex.con(sg ? APInt::getSignedMaxValue(w).sext(w + 2) : APInt::getMaxValue(w).zext(w + 2)), mn = ex.con(sg ? APInt::getSignedMinValue(w).sext(w + 2) : APInt(w + 2, 0));
          return ex.extract(ex.ite(ex.cmp(Op::SLT, mx, x), mx, ex.ite(ex.cmp(Op::SLT, x, mn), mn, x)), 0, w); });
        case Intrinsic::fabs: return lanes([&](int i) { return ex.fabs(args[0][i]); });
        case Intrinsic::copysign: return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.concat(ex.fsign(b), ex.extract(a, 0, a->w - 1)); });
        case Intrinsic::minnum: return lanes([&](int i) { return fminmax(true, ex.def(args[0][i]), ex.def(args[1][i])); });
        case Intrinsic::maxnum: return lanes([&](int i) { return fminmax(false, ex.def(args[0][i]), ex.def(args[1][i])); });
        case Intrinsic::is_fpclass: return lanes([&](int i) { return isFpClass(args[0][i], cint(args[1][0], "class")); });
        case Intrinsic::fmuladd: return lanes([&](int i) { return fbin("fadd", fbin("fmul", args[0][i], args[1][i]), args[2][i]); });
        case Intrinsic::sqrt: case Intrinsic::fma: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven:
        case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::exp10: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::pow: case Intrinsic::ldexp:
        case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::lround: case Intrinsic::llround: {
          std::string b = nm.str().substr(5); b = b.substr(0, b.find('.'));
          unsigned w = sw(t->getScalarType(), DL);
          return lanes([&](int i) { std::vector<E> a; for (auto& v : args) a.push_back(v.size() == 1 ? v[0] : v[i]); return ufn(b, w, a); }); }
        case Intrinsic::invariant_start: return ret(Val{ex.con(64, 0)});
        case Intrinsic::frexp: {
          unsigned w = args[0][0]->w; std::vector<E> a{ex.def(args[0][0])};
          if (args[0].size() != 1) unsup("vector frexp");
          return ret(Val{ex.uf("frexp." + std::to_string(w), w, a), ex.uf("frexp.out." + std::to_string(w), 32, a)}); }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
          Op o = id == Intrinsic::vector_reduce_add ? Op::ADD : id == Intrinsic::vector_reduce_mul ? Op::MUL : id == Intrinsic::vector_reduce_and ? Op::AND : id == Intrinsic::vector_reduce_or ? Op::OR : Op::XOR;
          E r = args[0][0]; for (unsigned i = 1; i < args[0].size(); ++i) r = ex.bin(o, r, args[0][i]); return ret(Val{r}); }
        case Intrinsic::masked_load: {
          // (ptr, align, mask, passthru)
          auto* vt = cast<FixedVectorType>(t); Val r = args[3]; unsigned es = DL.getTypeStoreSize(vt->getElementType());
          for (unsigned i = 0; i < r.size(); ++i) r[i] = maskedLane(*s, args[0][0], i * es, vt->getElementType(), args[2][i], r[i]);
          return ret(r); }
        case Intrinsic::masked_store: {
          auto* vt = cast<FixedVectorType>(cb->getArgOperand(0)->getType()); unsigned es = DL.getTypeStoreSize(vt->getElementType());
          for (unsigned i = 0; i < args[0].size(); ++i) maskedStoreLane(*s, args[1][0], i * es, vt->getElementType(), args[3][i], args[0][i]);
          return CallRes::Next; }
        default: break;
      }
      if (nm.starts_with("llvm.x86.")) return x86(s, cb, nm, args);
      unsup("intrinsic " + nm.str());
    }
    // ---- libc ----
    if (nm == "abort" || nm == "__assert_fail" || nm == "__glibcxx_assert_fail" || nm.starts_with("_ZSt21__glibcxx_assert_fail") || nm == "_ZSt9terminatev" || nm == "__cxa_pure_virtual" || nm == "exit" || nm == "_exit" || nm.starts_with("_ZSt20__throw") || nm.starts_with("_ZSt17__throw") || nm.starts_with("_ZSt24__throw") || nm.starts_with("_ZSt19__throw")) { trapEnd(*s, "unexpected call of " + nm.str()); return CallRes::Dead; }
    if (nm == "memcpy" || nm == "memmove" || nm == "__memcpy_chk" || nm == "__memmove_chk") { copyMem(*s, args[0][0], args[1][0], cint(args[2][0], "memcpy size"), 1, 1); return ret(args[0]); }
    if (nm == "memset") {
      uint64_t n = cint(args[2][0], "memset size"); if (n) { Type* bt = ArrayType::get(Type::getInt8Ty(M.getContext()), n); Val v(n, ex.extract(args[1][0], 0, 8)); store(*s, args[0][0], v, bt, 1); } return ret(args[0]); }
    if (nm == "memcmp" || nm == "bcmp") {
      uint64_t n = cint(args[2][0], "memcmp size"); E r = ex.con(32, 0);
      if (n) { Type* bt = ArrayType::get(Type::getInt8Ty(M.getContext()), n); Val a = load(*s, args[0][0], bt, 1), b = load(*s, args[1][0], bt, 1);
        for (int i = n - 1; i >= 0; --i) r = ex.ite(ex.eq(a[i], b[i]), r, ex.ite(ex.cmp(Op::ULT, a[i], b[i]), ex.con(APInt::getAllOnes(32)), ex.con(32, 1))); }
      return ret(Val{r}); }
    if (nm == "printf" || nm == "fprintf" || nm == "puts" || nm == "putchar" || nm == "fputs" || nm == "fwrite" || nm == "snprintf") { if (!t->isVoidTy()) return ret(Val{ex.con(bits(t, DL), 0)}); return CallRes::Next; }
    if (nm.starts_with("_Zn")) { uint64_t n = cint(args[0][0], "new size"); uint64_t al = args.size() > 1 && args[1].size() == 1 && nm.contains("align") ? cint(args[1][0], "align") : 16; uint64_t b = allocate(*s, std::max<uint64_t>(n, 1), al, "heap"); return ret(Val{ex.con(64, b)}); }
    if (nm.starts_with("_Zd")) { if (Exprs::isC(args[0][0]) && !args[0][0]->c.isZero()) s->mem.erase(args[0][0]->c.getZExtValue()); return CallRes::Next; }
    if (nm == "__cxa_atexit") return ret(Val{ex.con(32, 0)});
    if (nm == "_ZNSt8ios_base4InitC1Ev") return CallRes::Next;
    if (nm == "__errno_location") { static uint64_t a = 0; (void)a; uint64_t b = allocate(*s, 4, 4, "errno"); return ret(Val{ex.con(64, b)}); }
    // ---- libm: arbitrary functions of their arguments ----
    bool fpOnly = !t->isVoidTy() && (t->isFloatingPointTy() || t->isIntegerTy()); bool anyFP = t->isFloatingPointTy();
    Type* fp = t->isFloatingPointTy() ? t : nullptr; int ptrArg = -1;
    for (unsigned i = 0; i < cb->arg_size(); ++i) { Type* at = cb->getArgOperand(i)->getType(); if (at->isFloatingPointTy()) { anyFP = true; if (!fp) fp = at; } else if (at->isPointerTy()) { ptrArg = i; } else if (!at->isIntegerTy()) fpOnly = false; }
    if (fpOnly && anyFP) {
      std::string b = libmBase(nm, fp);
      unsigned w = sw(t, DL);
      std::vector<E> a; for (unsigned i = 0; i < args.size(); ++i) if ((int)i != ptrArg) a.push_back(ex.def(args[i][0]));
      if (b == "fabs" && ptrArg < 0) return ret(Val{ex.fabs(a[0])});
      if (b == "copysign") return ret(Val{ex.concat(ex.fsign(a[1]), ex.extract(a[0], 0, a[0]->w - 1))});
      if (b == "fmin" || b == "fmax") return ret(Val{fminmax(b == "fmin", a[0], a[1])});
      if (ptrArg >= 0) {
        if (b == "frexp" || b == "remquo") { E x = ex.uf(b + ".out." + std::to_string(w), 32, a); store(*s, args[ptrArg][0], Val{x}, Type::getInt32Ty(M.getContext()), 4); return ret(Val{ex.uf(b + "." + std::to_string(w), w, a)}); }
        if (b == "modf") { E x = ex.uf("modf.out." + std::to_string(w), w, a); store(*s, args[ptrArg][0], Val{x}, t, w / 8); return ret(Val{ex.uf("modf." + std::to_string(w), w, a)}); }
        unsup("libm function with pointer: " + nm.str());
      }
      return ret(Val{ufn(b, w, a)});
    }
    unsup("external function " + nm.str());
  }
  E maskedLane(State& s, E base, uint64_t off, Type* et, E m, E pass) {
    m = ex.def(m);
    if (Exprs::isZero(m)) return pass;
    E addr = ex.add(base, ex.con(64, off));
    if (Exprs::isOnes(m)) return load(s, addr, et, 1)[0];
    uint64_t n = DL.getTypeStoreSize(et);
    if (!Exprs::isC(addr)) unsup("symbolic masked load");
    if (!find(s, addr->c.getZExtValue(), n)) { checkBad(s, m, "oob", "masked load reads outside of an object"); return pass; }
    return ex.ite(m, load(s, addr, et, 1)[0], pass);
  }
  void maskedStoreLane(State& s, E base, uint64_t off, Type* et, E m, E v) {
    m = ex.def(m);
    if (Exprs::isZero(m)) return;
    E addr = ex.add(base, ex.con(64, off));
    if (Exprs::isOnes(m)) { store(s, addr, Val{v}, et, 1); return; }
    uint64_t n = DL.getTypeStoreSize(et);
    if (!Exprs::isC(addr)) unsup("symbolic masked store");
    if (!find(s, addr->c.getZExtValue(), n)) { checkBad(s, m, "oob", "masked store writes outside of an object"); return; }
    E old = load(s, addr, et, 1)[0];
    store(s, addr, Val{ex.ite(m, v, old)}, et, 1);
  }
  E signMask(const Val& v, unsigned w) { E r = nullptr; for (auto e : v) { E b = ex.extract(ex.def(e), e->w - 1, 1); r = r ? ex.concat(b, r) : b; } return r->w < w ? ex.zext(r, w) : r; }
  E wide(const Val& v) { E r = v[0]; for (unsigned i = 1; i < v.size(); ++i) r = ex.concat(v[i], r); return r; }
  CallRes x86(SP& s, CallBase* cb, StringRef nm, std::vector<Val>& args) {
    Type* t = cb->getType();
    StringRef n = nm.drop_front(9);
    auto ret = [&](Val v) { set(*s, cb, std::move(v)); return CallRes::Next; };
    auto lanes = [&](auto f) { Val r; for (unsigned i = 0; i < args[0].size(); ++i) r.push_back(f(i)); return ret(r); };
    if (n.contains("movmsk")) return ret(Val{signMask(args[0], sw(t, DL))});
    if (n.contains("ptest") || n.contains("vtest")) {
      E a, b;
      if (n.contains("vtest")) { a = signMask(args[0], args[0].size()); b = signMask(args[1], args[1].size()); }
      else { a = wide(args[0]); b = wide(args[1]); }
      E z = ex.eq(ex.bin(Op::AND, a, b), ex.con(a->w, 0)), c = ex.eq(ex.bin(Op::AND, ex.bnot(a), b), ex.con(a->w, 0));
      E r = n.contains("testnzc") ? ex.land(ex.bnot(z), ex.bnot(c)) : n.contains("testz") ? z : c;
      return ret(Val{ex.zext(r, 32)});
    }
    if ((n.contains(".min.p") || n.contains(".max.p")) && args.size() == 2) {
      bool mn = n.contains(".min.");
      return lanes([&](int i) { E a = ex.def(args[0][i]), b = ex.def(args[1][i]); return ex.ite(mn ? ex.fltOrd(a, b) : ex.fltOrd(b, a), a, b); });
    }
    if (n.contains("blendv")) return lanes([&](int i) { E m = ex.def(args[2][i]); return ex.ite(ex.extract(m, m->w - 1, 1), args[1][i], args[0][i]); });
    if (n.contains("maskload")) {
      auto* vt = cast<FixedVectorType>(t); unsigned es = DL.getTypeStoreSize(vt->getElementType()); Val r;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) { E m = ex.def(args[1][i]); r.push_back(maskedLane(*s, args[0][0], i * es, vt->getElementType(), ex.extract(m, m->w - 1, 1), ex.con(es * 8, 0))); }
      return ret(r);
    }
    if (n.contains("maskstore")) {
      auto* vt = cast<FixedVectorType>(cb->getArgOperand(2)->getType()); unsigned es = DL.getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); ++i) { E m = ex.def(args[1][i]); maskedStoreLane(*s, args[0][0], i * es, vt->getElementType(), ex.extract(m, m->w - 1, 1), args[2][i]); }
      return CallRes::Next;
    }
    if (n.contains("maskmov.dqu")) {
      Type* bt = Type::getInt8Ty(M.getContext());
      for (unsigned i = 0; i < 16; ++i) { E m = ex.def(args[1][i]); maskedStoreLane(*s, args[2][0], i, bt, ex.extract(m, 7, 1), args[0][i]); }
      return CallRes::Next;
    }
    if (n.contains("pshuf.b")) {
      Val r;
      for (unsigned i = 0; i < args[0].size(); ++i) {
        E m = ex.def(args[1][i]); unsigned lane = i & ~15u; E k = ex.extract(m, 0, 4), x = args[0][lane];
        for (unsigned j = 1; j < 16; ++j) x = ex.ite(ex.eq(k, ex.con(4, j)), args[0][lane + j], x);
        r.push_back(ex.ite(ex.extract(m, 7, 1), ex.con(8, 0), x));
      }
      return ret(r);
    }
    if (n == "avx2.permd" || n == "avx2.permps") {
      Val r; for (unsigned i = 0; i < 8; ++i) { E k = ex.extract(ex.def(args[1][i]), 0, 3), x = args[0][0]; for (unsigned j = 1; j < 8; ++j) x = ex.ite(ex.eq(k, ex.con(3, j)), args[0][j], x); r.push_back(x); }
      return ret(r);
    }
    if (n.contains("vpermilvar.ps")) {
      Val r; for (unsigned i = 0; i < args[0].size(); ++i) { E k = ex.extract(ex.def(args[1][i]), 0, 2); unsigned l = i & ~3u; E x = args[0][l]; for (unsigned j = 1; j < 4; ++j) x = ex.ite(ex.eq(k, ex.con(2, j)), args[0][l + j], x); r.push_back(x); }
      return ret(r);
    }
    if (n.contains("vpermilvar.pd")) {
      Val r; for (unsigned i = 0; i < args[0].size(); ++i) { E k = ex.extract(ex.def(args[1][i]), 1, 1); unsigned l = i & ~1u; r.push_back(ex.ite(k, args[0][l + 1], args[0][l])); }
      return ret(r);
    }
    if (n.contains("packss") || n.contains("packus")) {
      bool us = n.contains("packus"); unsigned w = args[0][0]->w, h = w / 2; Val r;
      auto sat = [&](E x) { x = ex.def(x); E mx = ex.con(us ? APInt::getMaxValue(h).zext(w) : APInt::getSignedMaxValue(h).sext(w)), mi = ex.con(us ? APInt(w, 0) : APInt::getSignedMinValue(h).sext(w));
        if (x->op == Op::SEXT && x->a[0]->w <= h && !us) return ex.extract(x, 0, h);
        return ex.extract(ex.ite(ex.cmp(Op::SLT, mx, x), mx, ex.ite(ex.cmp(Op::SLT, x, mi), mi, x)), 0, h); };
      unsigned per = 128 / w;
      for (unsigned l = 0; l < args[0].size(); l += per) { for (unsigned i = 0; i < per; ++i) r.push_back(sat(args[0][l + i])); for (unsigned i = 0; i < per; ++i) r.push_back(sat(args[1][l + i])); }
      return ret(r);
    }
    if (n.contains(".cmp.p") || n.contains(".cmp.s")) {
      unsigned imm = cint(args[2][0], "imm") & 31;
      static const CmpInst::Predicate P[16] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD,
        CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
      return lanes([&](int i) { E r = fcmpE(P[imm & 15], args[0][i], args[1][i]); return ex.sext(r, args[0][i]->w); });
    }
    if (n.starts_with("bmi.pdep") || n.starts_with("bmi.pext")) {
      E x = ex.def(args[0][0]), m = ex.def(args[1][0]); unsigned w = x->w; E r = ex.con(w, 0);
      E k = ex.con(w, 0);
      for (unsigned i = 0; i < w; ++i) {
        E mb = ex.extract(m, i, 1);
        if (n.starts_with("bmi.pdep")) r = ex.bin(Op::OR, r, ex.bin(Op::SHL, ex.zext(ex.land(mb, ex.extract(ex.bin(Op::LSHR, x, k), 0, 1)), w), ex.con(w, i)));
        else r = ex.bin(Op::OR, r, ex.bin(Op::SHL, ex.zext(ex.land(mb, ex.extract(x, i, 1)), w), k));
        k = ex.add(k, ex.zext(mb, w));
      }
      return ret(Val{r});
    }
    if (n.contains("pmulh.w") || n.contains("pmulhu.w")) { bool u = n.contains("pmulhu"); return lanes([&](int i) { E a = args[0][i], b = args[1][i]; auto x = [&](E e) { return u ? ex.zext(e, 32) : ex.sext(e, 32); }; return ex.extract(ex.bin(Op::MUL, x(a), x(b)), 16, 16); }); }
    if (n.contains("psll.") || n.contains("psrl.") || n.contains("psra.") || n.contains("pslli") || n.contains("psrli") || n.contains("psrai")) {
      E c = args[1].size() == 1 ? args[1][0] : nullptr;
      if (!c) { // count = low 64 bits
        Val lo; unsigned need = 64 / args[1][0]->w; for (unsigned i = 0; i < need; ++i) lo.push_back(args[1][i]); c = wide(lo); }
      c = ex.def(c);
      bool l = n.contains("psll"), ar = n.contains("psra");
      return lanes([&](int i) { E a = ex.def(args[0][i]); unsigned w = a->w; E big = ex.cmp(Op::ULE, ex.con(c->w, w), c); E k = c->w >= w ? ex.extract(c, 0, w) : ex.zext(c, w);
        if (ar) return ex.bin(Op::ASHR, a, ex.ite(big, ex.con(w, w - 1), k));
        return ex.ite(big, ex.con(w, 0), ex.bin(l ? Op::SHL : Op::LSHR, a, k)); });
    }
    if (n.contains("psllv") || n.contains("psrlv") || n.contains("psrav")) {
      bool l = n.contains("psllv"), ar = n.contains("psrav");
      return lanes([&](int i) { E a = ex.def(args[0][i]), k = ex.def(args[1][i]); unsigned w = a->w; E big = ex.cmp(Op::ULE, ex.con(w, w), k);
        if (ar) return ex.bin(Op::ASHR, a, ex.ite(big, ex.con(w, w - 1), k));
        return ex.ite(big, ex.con(w, 0), ex.bin(l ? Op::SHL : Op::LSHR, a, k)); });
    }
    if (n == "avx.cvt.pd2.ps.256") return lanes([&](int i) { return fconv("fptrunc", args[0][i], 32); });
    if (n == "sse2.cvtpd2ps") { Val r; for (int i = 0; i < 2; ++i) r.push_back(fconv("fptrunc", args[0][i], 32)); r.push_back(ex.con(32, 0)); r.push_back(ex.con(32, 0)); return ret(r); }
    if (n.contains("cvttp") || n.contains("cvtp") || n.contains("cvtdq") || n.contains("rcp") || n.contains("rsqrt") || n.contains("round.p")) {
      unsup("x86 conversion intrinsic " + nm.str());
    }
    unsup("intrinsic " + nm.str());
  }
