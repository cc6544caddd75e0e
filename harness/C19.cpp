// C19: structure reflection enumerates members in declaration order
// @unit name=a defs=VP_LO=1,VP_HI=16
// @unit name=b defs=VP_LO=17,VP_HI=30
// @unit name=c defs=VP_LO=31,VP_HI=40
// @unit name=d defs=VP_LO=41,VP_HI=50
// @unit name=misc defs=VP_LO=0,VP_HI=0
// @unit name=a23 std=gnu++23 defs=VP_LO=1,VP_HI=9
// @bound every member value; aggregates with every number of members from 1 to 50 (the maximum supported), members of 1 to 8 bytes; const, mutable and rvalue objects; nested structures, arrays, empty bases, inherited members, bit-fields, tuple, pair and array
#include "simdh.h"
#include <vir/struct_reflect.h>
#include <array>
#include <cstring>
#include <tuple>
#include "C19_structs.inc"
template <class T> bool eq(const T& a, const T& b) { if constexpr (std::is_arithmetic_v<T>) return vp::bits(a) == vp::bits(b); else { bool ok = true; for (size_t i = 0; i < sizeof(T); ++i) ok &= reinterpret_cast<const unsigned char*>(&a)[i] == reinterpret_cast<const unsigned char*>(&b)[i]; return ok; } }
template <class S> void all() {
  vp_assert(vir::struct_size_v<S> == size_t(S::n), "struct_size_v");
  S s = {}, old = {};
  S::each([&](auto, auto m) { s.*m = vp::sym1<std::remove_reference_t<decltype(s.*m)>>("member"); old.*m = s.*m; });
  const S& c = s;
  bool val = true, adr = true, typ = true, tup = true, ref = true;
  const auto t = vir::to_tuple(c); auto r = vir::to_tuple_ref(s); const auto cr = vir::to_tuple_ref(c); const auto t2 = vir::to_tuple(S(c));
  if constexpr (std::tuple_size_v<std::remove_const_t<decltype(t)>> == S::n && std::tuple_size_v<decltype(r)> == S::n)
    S::each([&]<int I>(std::integral_constant<int, I>, auto m) {
      using M = std::remove_reference_t<decltype(s.*m)>;
      typ &= std::is_same_v<vir::struct_element_t<I, S>, M> && std::is_same_v<decltype(vir::struct_get<I>(s)), M&> && std::is_same_v<decltype(vir::struct_get<I>(c)), const M&> && std::is_same_v<std::tuple_element_t<I, decltype(r)>, M&> && std::is_same_v<std::tuple_element_t<I, vir::as_tuple_t<S>>, M>;
      val &= eq<M>(vir::struct_get<I>(s), s.*m) & eq<M>(vir::struct_get<I>(c), s.*m);
      adr &= static_cast<const void*>(&vir::struct_get<I>(s)) == &(s.*m) && static_cast<const void*>(&vir::struct_get<I>(c)) == &(s.*m);
      tup &= eq<M>(std::get<I>(t), s.*m) & eq<M>(std::get<I>(t2), s.*m);
      ref &= static_cast<const void*>(&std::get<I>(r)) == &(s.*m) && static_cast<const void*>(&std::get<I>(cr)) == &(s.*m);
    });
  else tup = false;
  vp_assert(typ, "element types"); vp_assert(val, "struct_get reads the member"); vp_assert(adr, "struct_get refers to the member"); vp_assert(tup, "to_tuple"); vp_assert(ref, "to_tuple_ref");
  // writes through struct_get change that member only
  bool w = true;
  S::each([&]<int I>(std::integral_constant<int, I>, auto m) {
    using M = std::remove_reference_t<decltype(s.*m)>;
    const M x = vp::sym1<M>("new"); vir::struct_get<I>(s) = x;
    S::each([&]<int J>(std::integral_constant<int, J>, auto k) { using K = std::remove_reference_t<decltype(s.*k)>; if constexpr (J == I) w &= eq<K>(s.*k, x); else w &= eq<K>(s.*k, old.*k); });
    s.*m = old.*m;
  });
  vp_assert(w, "struct_get writes only to the member");
  if constexpr (S::n == 2) {
    const auto p = vir::to_pair(c); auto pr = vir::to_pair_ref(s);
    vp_assert(eq(p.first, s.a0) && eq(p.second, s.a1), "to_pair"); vp_assert(&pr.first == &s.a0 && &pr.second == &s.a1, "to_pair_ref");
    vp_assert(std::is_same_v<vir::as_pair_t<S>, std::pair<decltype(s.a0), decltype(s.a1)>>, "as_pair_t");
  }
}
#define A(N) VP(s##N, all<S##N>)
#if VP_LO == 1
A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9)
#if VP_HI == 16
A(10) A(11) A(12) A(13) A(14) A(15) A(16)
#endif
#elif VP_LO == 17
A(17) A(18) A(19) A(20) A(21) A(22) A(23) A(24) A(25) A(26) A(27) A(28) A(29) A(30)
#elif VP_LO == 31
A(31) A(32) A(33) A(34) A(35) A(36) A(37) A(38) A(39) A(40)
#elif VP_LO == 41
A(41) A(42) A(43) A(44) A(45) A(46) A(47) A(48) A(49) A(50)
#else
struct In { int x; float y; }; struct Nest { In a; double b; In c; };
struct Arr { int a[3]; float b; short c[2]; };
struct E1 {}; struct E2 {}; struct E3 {}; struct B1 : E1 { int a; float b; }; struct B2 : E1, E2 { short a; int b; double c; }; struct B3 : E1, E2, E3 { int a; int b; };
struct Base { int a; double b; short c; }; struct Der : Base {};
struct Bits { unsigned a : 3; unsigned b : 5; unsigned c : 24; };
struct One { double a; }; struct OneNest { In a; }; struct None {};
template <class T> struct Tm { T x, y, z; }; struct Al { char a; alignas(32) int b; char c; }; struct Ptr { int* p; const char* q; };
void sizes() {
  vp_assert(vir::struct_size_v<Nest> == 3, "nested"); vp_assert(vir::struct_size_v<Arr> == 3, "array members"); vp_assert(vir::struct_size_v<B1> == 2 && vir::struct_size_v<B2> == 3 && vir::struct_size_v<B3> == 2, "empty bases");
  vp_assert(vir::struct_size_v<Bits> == 3, "bit-fields"); vp_assert(vir::struct_size_v<One> == 1 && vir::struct_size_v<OneNest> == 1, "one member"); vp_assert(vir::struct_size_v<Tm<float>> == 3 && vir::struct_size_v<Tm<char>> == 3, "template"); vp_assert(vir::struct_size_v<Al> == 3 && vir::struct_size_v<Ptr> == 2, "over-aligned members, pointers");
  vp_assert(vir::struct_size_v<std::tuple<int, float, double, char>> == 4 && vir::struct_size_v<std::pair<int, float>> == 2 && vir::struct_size_v<std::array<int, 7>> == 7, "tuple, pair, array"); vp_assert(vir::struct_size_v<std::tuple<>> == 0, "empty tuple");
  vp_assert(vir::struct_size_v<Tm<std::tuple<int, float>>> == 3 && vir::struct_size_v<Tm<std::array<float, 4>>> == 3, "members with tuple interface");
}
VP(sizes, sizes)
void nest() {
  Nest n; int* p = &n.a.x; vp::sym(&n.a.x, 1, "x"); vp::sym(&n.a.y, 1, "y"); vp::sym(&n.b, 1, "b"); vp::sym(&n.c.x, 1, "x"); vp::sym(&n.c.y, 1, "y");
  vp_assert(&vir::struct_get<0>(n) == &n.a && &vir::struct_get<1>(n) == &n.b && &vir::struct_get<2>(n) == &n.c, "nested members");
  const auto t = vir::to_tuple(n); vp_assert(std::get<0>(t).x == n.a.x && eq(std::get<0>(t).y, n.a.y) && eq(std::get<1>(t), n.b) && std::get<2>(t).x == n.c.x && eq(std::get<2>(t).y, n.c.y), "nested to_tuple");
  vp_assert(&vir::struct_get<1>(vir::struct_get<2>(n)) == &n.c.y, "struct_get twice");
  vp_assert(std::is_same_v<vir::as_tuple_t<Nest>, std::tuple<In, double, In>>, "as_tuple_t"); (void)p;
}
VP(nest, nest)
void arr() {
  Arr a; vp::sym(a.a, 3, "a"); vp::sym(&a.b, 1, "b"); vp::sym(a.c, 2, "c");
  vp_assert(&vir::struct_get<0>(a)[0] == a.a && &vir::struct_get<1>(a) == &a.b && &vir::struct_get<2>(a)[1] == a.c + 1, "array members");
  auto r = vir::to_tuple_ref(a); vp_assert(std::get<0>(r)[2] == a.a[2] && eq(std::get<1>(r), a.b) && std::get<2>(r)[0] == a.c[0], "array to_tuple_ref");
}
VP(arr, arr)
void bases() {
  B1 a; vp::sym(&a.a, 1, "a"); vp::sym(&a.b, 1, "b"); B2 b; vp::sym(&b.a, 1, "a"); vp::sym(&b.b, 1, "b"); vp::sym(&b.c, 1, "c"); B3 c; vp::sym(&c.a, 1, "a"); vp::sym(&c.b, 1, "b");
  vp_assert(&vir::struct_get<0>(a) == &a.a && &vir::struct_get<1>(a) == &a.b, "one empty base"); vp_assert(&vir::struct_get<0>(b) == &b.a && &vir::struct_get<1>(b) == &b.b && &vir::struct_get<2>(b) == &b.c, "two empty bases"); vp_assert(&vir::struct_get<0>(c) == &c.a && &vir::struct_get<1>(c) == &c.b, "three empty bases");
  const auto t = vir::to_tuple(b); vp_assert(std::get<0>(t) == b.a && std::get<1>(t) == b.b && eq(std::get<2>(t), b.c), "to_tuple with bases");
  const auto p = vir::to_pair(c); vp_assert(p.first == c.a && p.second == c.b, "to_pair with bases"); auto q = vir::to_pair_ref(a); vp_assert(&q.first == &a.a && &q.second == &a.b, "to_pair_ref with bases");
}
VP(bases, bases)
void tups() {
  std::tuple<int, float, short, double> t{vp::sym1<int>("0"), vp::sym1<float>("1"), vp::sym1<short>("2"), vp::sym1<double>("3")};
  vp_assert(&vir::struct_get<0>(t) == &std::get<0>(t) && &vir::struct_get<1>(t) == &std::get<1>(t) && &vir::struct_get<2>(t) == &std::get<2>(t) && &vir::struct_get<3>(t) == &std::get<3>(t), "tuple elements");
  const auto u = vir::to_tuple(t); vp_assert(std::get<0>(u) == std::get<0>(t) && eq(std::get<1>(u), std::get<1>(t)) && std::get<2>(u) == std::get<2>(t) && eq(std::get<3>(u), std::get<3>(t)), "to_tuple(tuple)");
  std::pair<short, double> p{vp::sym1<short>("first"), vp::sym1<double>("second")}; vp_assert(&vir::struct_get<0>(p) == &p.first && &vir::struct_get<1>(p) == &p.second, "pair elements"); const auto pp = vir::to_pair(p); vp_assert(pp.first == p.first && eq(pp.second, p.second), "to_pair(pair)");
  const auto tp = vir::to_tuple(p); vp_assert(std::get<0>(tp) == p.first && eq(std::get<1>(tp), p.second), "to_tuple(pair)");
  std::array<int, 5> a; vp::sym(a.data(), 5, "a"); const auto at = vir::to_tuple(a); vp_assert(&vir::struct_get<0>(a) == &a[0] && &vir::struct_get<4>(a) == &a[4] && std::get<0>(at) == a[0] && std::get<1>(at) == a[1] && std::get<2>(at) == a[2] && std::get<3>(at) == a[3] && std::get<4>(at) == a[4], "array elements");
  One o{vp::sym1<double>("o")}; const One& co = o; vp_assert(&vir::struct_get<0>(o) == &o.a && &vir::struct_get<0>(co) == &o.a && eq(std::get<0>(vir::to_tuple(o)), o.a) && &std::get<0>(vir::to_tuple_ref(o)) == &o.a, "one member");
  Tm<float> m{1, 2, 3}; vp::sym(&m.x, 3, "m"); Tm<double> d; vp::sym(&d.x, 3, "d"); vp_assert(&vir::struct_get<2>(m) == &m.z && &vir::struct_get<1>(d) == &d.y, "template members");
  Al l; vp::sym(&l.a, 1, "a"); vp::sym(&l.b, 1, "b"); vp::sym(&l.c, 1, "c"); vp_assert(&vir::struct_get<0>(l) == &l.a && &vir::struct_get<1>(l) == &l.b && &vir::struct_get<2>(l) == &l.c, "over-aligned member");
  vp_assert(std::is_same_v<vir::as_tuple_t<const Base>, const std::tuple<int, double, short>> && std::is_same_v<vir::as_tuple_t<Base&>, std::tuple<int, double, short>&> && std::is_same_v<vir::as_pair_t<In>, std::pair<int, float>>, "as_tuple_t, as_pair_t");
}
VP(tups, tups)
#endif
