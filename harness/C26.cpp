// C26: fake_modify and fake_read do not change values
// @unit name=fb
// @unit name=std cfg=stdlib
// @unit name=stdsse cfg=stdlib march=x86-64
// @bound every value; arithmetic types, pointers, simd and simd_mask of all ABIs up to 16 lanes, small structures; the empty asm statements are interpreted by their constraints (an output operand not tied to an input is arbitrary)
#include "simdh.h"
#include <vir/simd_benchmarking.h>
template <class T> void sc() {
  T a = vp::sym1<T>("a"), b = vp::sym1<T>("b"); const T a0 = a, b0 = b;
  vir::fake_read(a, b); vp_assert(vp::bits(a) == vp::bits(a0) && vp::bits(b) == vp::bits(b0), "fake_read"); vir::fake_modify(a); vp_assert(vp::bits(a) == vp::bits(a0), "fake_modify");
  vir::fake_modify(a, b); vp_assert(vp::bits(a) == vp::bits(a0) && vp::bits(b) == vp::bits(b0), "fake_modify of two");
}
template <class V> void ve() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N], b[N]; V x = vp::symv<V>(a, "x"), y = vp::symv<V>(b, "y");
  auto ok = [&] { bool r = true; for (int i = 0; i < N; ++i) r &= vp::bits(T(x[i])) == vp::bits(a[i]) && vp::bits(T(y[i])) == vp::bits(b[i]); return r; };
  vir::fake_read(x, y); vp_assert(ok(), "fake_read"); vir::fake_modify(x); vp_assert(ok(), "fake_modify"); vir::fake_modify(x, y); vp_assert(ok(), "fake_modify of two");
}
template <class M> void ma() {
  constexpr int N = M::size(); bool a[N]; M x = vp::symm<M>(a, "x");
  auto ok = [&] { bool r = true; for (int i = 0; i < N; ++i) r &= bool(x[i]) == a[i]; return r; };
  vir::fake_read(x); vp_assert(ok(), "fake_read"); vir::fake_modify(x); vp_assert(ok(), "fake_modify");
}
#define SC(T) VP(sc_##T, sc<T>)
SC(i8) SC(u8) SC(i16) SC(u16) SC(i32) SC(u32) SC(i64) SC(u64) SC(f32) SC(f64) SC(c16) SC(c32)
#define VV(T, A) VP(ve_##T##_##A, ve<stdx::simd<T, ab::A<T>>>) VP(ma_##T##_##A, ma<stdx::simd_mask<T, ab::A<T>>>)
#define VA(T) VV(T, s) VV(T, n) VV(T, c) VV(T, f1) VV(T, f2) VV(T, f3) VV(T, f4)
VA(f32) VA(f64) VA(i32) VA(u8) VA(i16) VA(u64) VV(f32, f8) VV(u8, f8) VV(u8, f16) VV(i16, f16) VV(i32, f7) VV(u8, f5) VV(u8, f6) VV(u8, f7) VV(u8, f12) VV(i16, f5) VV(i16, f7)
#if !defined VIR_DISABLE_STDX_SIMD // (clang has no asm operands of more than 32 bytes)
VV(f64, f7) VV(f32, f16) VV(f64, f8) VV(i32, f16)
#endif
struct S1 { int a; float b; short c; }; struct S2 { char a; short b; char c; }; struct S3 { double a; int b; }; struct S4 { float a, b, c, d, e; }; struct S5 { char a, b, c; };
template <class S> void st() {
  S x, y; vp_sym(&x, 1, sizeof(S), "x"); __builtin_memcpy(&y, &x, sizeof(S));
  auto ok = [&] { bool r = true; for (unsigned i = 0; i < sizeof(S); ++i) r &= reinterpret_cast<unsigned char*>(&x)[i] == reinterpret_cast<unsigned char*>(&y)[i]; return r; };
  vir::fake_read(x); vp_assert(ok(), "fake_read"); vir::fake_modify(x); vp_assert(ok(), "fake_modify"); int k = vp::sym1<int>("k"); const int k0 = k; vir::fake_modify(x, k); vp_assert(ok() && k == k0, "fake_modify of structure and scalar");
}
VP(st_1, st<S1>) VP(st_2, st<S2>) VP(st_3, st<S3>)
#if defined VIR_DISABLE_STDX_SIMD
VP(st_4, st<S4>)
#endif
 VP(st_5, st<S5>)
