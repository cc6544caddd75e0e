struct S1 { u16 a0; static constexpr int n = 1;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S1::a0); } };
struct S2 { u32 a0; i16 a1; static constexpr int n = 2;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S2::a0); f(std::integral_constant<int, 1>(), &S2::a1); } };
struct S3 { u64 a0; f64 a1; u16 a2; static constexpr int n = 3;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S3::a0); f(std::integral_constant<int, 1>(), &S3::a1); f(std::integral_constant<int, 2>(), &S3::a2); } };
struct S4 { f32 a0; i8 a1; u32 a2; i16 a3; static constexpr int n = 4;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S4::a0); f(std::integral_constant<int, 1>(), &S4::a1); f(std::integral_constant<int, 2>(), &S4::a2); f(std::integral_constant<int, 3>(), &S4::a3); } };
struct S5 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; static constexpr int n = 5;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S5::a0); f(std::integral_constant<int, 1>(), &S5::a1); f(std::integral_constant<int, 2>(), &S5::a2); f(std::integral_constant<int, 3>(), &S5::a3); f(std::integral_constant<int, 4>(), &S5::a4); } };
struct S6 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; static constexpr int n = 6;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S6::a0); f(std::integral_constant<int, 1>(), &S6::a1); f(std::integral_constant<int, 2>(), &S6::a2); f(std::integral_constant<int, 3>(), &S6::a3); f(std::integral_constant<int, 4>(), &S6::a4); f(std::integral_constant<int, 5>(), &S6::a5); } };
struct S7 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; static constexpr int n = 7;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S7::a0); f(std::integral_constant<int, 1>(), &S7::a1); f(std::integral_constant<int, 2>(), &S7::a2); f(std::integral_constant<int, 3>(), &S7::a3); f(std::integral_constant<int, 4>(), &S7::a4); f(std::integral_constant<int, 5>(), &S7::a5); f(std::integral_constant<int, 6>(), &S7::a6); } };
struct S8 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; static constexpr int n = 8;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S8::a0); f(std::integral_constant<int, 1>(), &S8::a1); f(std::integral_constant<int, 2>(), &S8::a2); f(std::integral_constant<int, 3>(), &S8::a3); f(std::integral_constant<int, 4>(), &S8::a4); f(std::integral_constant<int, 5>(), &S8::a5); f(std::integral_constant<int, 6>(), &S8::a6); f(std::integral_constant<int, 7>(), &S8::a7); } };
struct S9 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; static constexpr int n = 9;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S9::a0); f(std::integral_constant<int, 1>(), &S9::a1); f(std::integral_constant<int, 2>(), &S9::a2); f(std::integral_constant<int, 3>(), &S9::a3); f(std::integral_constant<int, 4>(), &S9::a4); f(std::integral_constant<int, 5>(), &S9::a5); f(std::integral_constant<int, 6>(), &S9::a6); f(std::integral_constant<int, 7>(), &S9::a7); f(std::integral_constant<int, 8>(), &S9::a8); } };
struct S10 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; static constexpr int n = 10;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S10::a0); f(std::integral_constant<int, 1>(), &S10::a1); f(std::integral_constant<int, 2>(), &S10::a2); f(std::integral_constant<int, 3>(), &S10::a3); f(std::integral_constant<int, 4>(), &S10::a4); f(std::integral_constant<int, 5>(), &S10::a5); f(std::integral_constant<int, 6>(), &S10::a6); f(std::integral_constant<int, 7>(), &S10::a7); f(std::integral_constant<int, 8>(), &S10::a8); f(std::integral_constant<int, 9>(), &S10::a9); } };
struct S11 { u64 a0; f64 a1; u16 a2; f32 a3; i8 a4; u32 a5; i16 a6; u8 a7; u64 a8; f64 a9; u16 a10; static constexpr int n = 11;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S11::a0); f(std::integral_constant<int, 1>(), &S11::a1); f(std::integral_constant<int, 2>(), &S11::a2); f(std::integral_constant<int, 3>(), &S11::a3); f(std::integral_constant<int, 4>(), &S11::a4); f(std::integral_constant<int, 5>(), &S11::a5); f(std::integral_constant<int, 6>(), &S11::a6); f(std::integral_constant<int, 7>(), &S11::a7); f(std::integral_constant<int, 8>(), &S11::a8); f(std::integral_constant<int, 9>(), &S11::a9); f(std::integral_constant<int, 10>(), &S11::a10); } };
struct S12 { f32 a0; i8 a1; u32 a2; i16 a3; u8 a4; u64 a5; f64 a6; u16 a7; f32 a8; i8 a9; u32 a10; i16 a11; static constexpr int n = 12;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S12::a0); f(std::integral_constant<int, 1>(), &S12::a1); f(std::integral_constant<int, 2>(), &S12::a2); f(std::integral_constant<int, 3>(), &S12::a3); f(std::integral_constant<int, 4>(), &S12::a4); f(std::integral_constant<int, 5>(), &S12::a5); f(std::integral_constant<int, 6>(), &S12::a6); f(std::integral_constant<int, 7>(), &S12::a7); f(std::integral_constant<int, 8>(), &S12::a8); f(std::integral_constant<int, 9>(), &S12::a9); f(std::integral_constant<int, 10>(), &S12::a10); f(std::integral_constant<int, 11>(), &S12::a11); } };
struct S13 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; f32 a5; i8 a6; u32 a7; i16 a8; u8 a9; u64 a10; f64 a11; u16 a12; static constexpr int n = 13;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S13::a0); f(std::integral_constant<int, 1>(), &S13::a1); f(std::integral_constant<int, 2>(), &S13::a2); f(std::integral_constant<int, 3>(), &S13::a3); f(std::integral_constant<int, 4>(), &S13::a4); f(std::integral_constant<int, 5>(), &S13::a5); f(std::integral_constant<int, 6>(), &S13::a6); f(std::integral_constant<int, 7>(), &S13::a7); f(std::integral_constant<int, 8>(), &S13::a8); f(std::integral_constant<int, 9>(), &S13::a9); f(std::integral_constant<int, 10>(), &S13::a10); f(std::integral_constant<int, 11>(), &S13::a11); f(std::integral_constant<int, 12>(), &S13::a12); } };
struct S14 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; u8 a6; u64 a7; f64 a8; u16 a9; f32 a10; i8 a11; u32 a12; i16 a13; static constexpr int n = 14;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S14::a0); f(std::integral_constant<int, 1>(), &S14::a1); f(std::integral_constant<int, 2>(), &S14::a2); f(std::integral_constant<int, 3>(), &S14::a3); f(std::integral_constant<int, 4>(), &S14::a4); f(std::integral_constant<int, 5>(), &S14::a5); f(std::integral_constant<int, 6>(), &S14::a6); f(std::integral_constant<int, 7>(), &S14::a7); f(std::integral_constant<int, 8>(), &S14::a8); f(std::integral_constant<int, 9>(), &S14::a9); f(std::integral_constant<int, 10>(), &S14::a10); f(std::integral_constant<int, 11>(), &S14::a11); f(std::integral_constant<int, 12>(), &S14::a12); f(std::integral_constant<int, 13>(), &S14::a13); } };
struct S15 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; f32 a7; i8 a8; u32 a9; i16 a10; u8 a11; u64 a12; f64 a13; u16 a14; static constexpr int n = 15;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S15::a0); f(std::integral_constant<int, 1>(), &S15::a1); f(std::integral_constant<int, 2>(), &S15::a2); f(std::integral_constant<int, 3>(), &S15::a3); f(std::integral_constant<int, 4>(), &S15::a4); f(std::integral_constant<int, 5>(), &S15::a5); f(std::integral_constant<int, 6>(), &S15::a6); f(std::integral_constant<int, 7>(), &S15::a7); f(std::integral_constant<int, 8>(), &S15::a8); f(std::integral_constant<int, 9>(), &S15::a9); f(std::integral_constant<int, 10>(), &S15::a10); f(std::integral_constant<int, 11>(), &S15::a11); f(std::integral_constant<int, 12>(), &S15::a12); f(std::integral_constant<int, 13>(), &S15::a13); f(std::integral_constant<int, 14>(), &S15::a14); } };
struct S16 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; u8 a8; u64 a9; f64 a10; u16 a11; f32 a12; i8 a13; u32 a14; i16 a15; static constexpr int n = 16;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S16::a0); f(std::integral_constant<int, 1>(), &S16::a1); f(std::integral_constant<int, 2>(), &S16::a2); f(std::integral_constant<int, 3>(), &S16::a3); f(std::integral_constant<int, 4>(), &S16::a4); f(std::integral_constant<int, 5>(), &S16::a5); f(std::integral_constant<int, 6>(), &S16::a6); f(std::integral_constant<int, 7>(), &S16::a7); f(std::integral_constant<int, 8>(), &S16::a8); f(std::integral_constant<int, 9>(), &S16::a9); f(std::integral_constant<int, 10>(), &S16::a10); f(std::integral_constant<int, 11>(), &S16::a11); f(std::integral_constant<int, 12>(), &S16::a12); f(std::integral_constant<int, 13>(), &S16::a13); f(std::integral_constant<int, 14>(), &S16::a14); f(std::integral_constant<int, 15>(), &S16::a15); } };
struct S17 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; f32 a9; i8 a10; u32 a11; i16 a12; u8 a13; u64 a14; f64 a15; u16 a16; static constexpr int n = 17;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S17::a0); f(std::integral_constant<int, 1>(), &S17::a1); f(std::integral_constant<int, 2>(), &S17::a2); f(std::integral_constant<int, 3>(), &S17::a3); f(std::integral_constant<int, 4>(), &S17::a4); f(std::integral_constant<int, 5>(), &S17::a5); f(std::integral_constant<int, 6>(), &S17::a6); f(std::integral_constant<int, 7>(), &S17::a7); f(std::integral_constant<int, 8>(), &S17::a8); f(std::integral_constant<int, 9>(), &S17::a9); f(std::integral_constant<int, 10>(), &S17::a10); f(std::integral_constant<int, 11>(), &S17::a11); f(std::integral_constant<int, 12>(), &S17::a12); f(std::integral_constant<int, 13>(), &S17::a13); f(std::integral_constant<int, 14>(), &S17::a14); f(std::integral_constant<int, 15>(), &S17::a15); f(std::integral_constant<int, 16>(), &S17::a16); } };
struct S18 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; u8 a10; u64 a11; f64 a12; u16 a13; f32 a14; i8 a15; u32 a16; i16 a17; static constexpr int n = 18;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S18::a0); f(std::integral_constant<int, 1>(), &S18::a1); f(std::integral_constant<int, 2>(), &S18::a2); f(std::integral_constant<int, 3>(), &S18::a3); f(std::integral_constant<int, 4>(), &S18::a4); f(std::integral_constant<int, 5>(), &S18::a5); f(std::integral_constant<int, 6>(), &S18::a6); f(std::integral_constant<int, 7>(), &S18::a7); f(std::integral_constant<int, 8>(), &S18::a8); f(std::integral_constant<int, 9>(), &S18::a9); f(std::integral_constant<int, 10>(), &S18::a10); f(std::integral_constant<int, 11>(), &S18::a11); f(std::integral_constant<int, 12>(), &S18::a12); f(std::integral_constant<int, 13>(), &S18::a13); f(std::integral_constant<int, 14>(), &S18::a14); f(std::integral_constant<int, 15>(), &S18::a15); f(std::integral_constant<int, 16>(), &S18::a16); f(std::integral_constant<int, 17>(), &S18::a17); } };
struct S19 { u64 a0; f64 a1; u16 a2; f32 a3; i8 a4; u32 a5; i16 a6; u8 a7; u64 a8; f64 a9; u16 a10; f32 a11; i8 a12; u32 a13; i16 a14; u8 a15; u64 a16; f64 a17; u16 a18; static constexpr int n = 19;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S19::a0); f(std::integral_constant<int, 1>(), &S19::a1); f(std::integral_constant<int, 2>(), &S19::a2); f(std::integral_constant<int, 3>(), &S19::a3); f(std::integral_constant<int, 4>(), &S19::a4); f(std::integral_constant<int, 5>(), &S19::a5); f(std::integral_constant<int, 6>(), &S19::a6); f(std::integral_constant<int, 7>(), &S19::a7); f(std::integral_constant<int, 8>(), &S19::a8); f(std::integral_constant<int, 9>(), &S19::a9); f(std::integral_constant<int, 10>(), &S19::a10); f(std::integral_constant<int, 11>(), &S19::a11); f(std::integral_constant<int, 12>(), &S19::a12); f(std::integral_constant<int, 13>(), &S19::a13); f(std::integral_constant<int, 14>(), &S19::a14); f(std::integral_constant<int, 15>(), &S19::a15); f(std::integral_constant<int, 16>(), &S19::a16); f(std::integral_constant<int, 17>(), &S19::a17); f(std::integral_constant<int, 18>(), &S19::a18); } };
struct S20 { f32 a0; i8 a1; u32 a2; i16 a3; u8 a4; u64 a5; f64 a6; u16 a7; f32 a8; i8 a9; u32 a10; i16 a11; u8 a12; u64 a13; f64 a14; u16 a15; f32 a16; i8 a17; u32 a18; i16 a19; static constexpr int n = 20;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S20::a0); f(std::integral_constant<int, 1>(), &S20::a1); f(std::integral_constant<int, 2>(), &S20::a2); f(std::integral_constant<int, 3>(), &S20::a3); f(std::integral_constant<int, 4>(), &S20::a4); f(std::integral_constant<int, 5>(), &S20::a5); f(std::integral_constant<int, 6>(), &S20::a6); f(std::integral_constant<int, 7>(), &S20::a7); f(std::integral_constant<int, 8>(), &S20::a8); f(std::integral_constant<int, 9>(), &S20::a9); f(std::integral_constant<int, 10>(), &S20::a10); f(std::integral_constant<int, 11>(), &S20::a11); f(std::integral_constant<int, 12>(), &S20::a12); f(std::integral_constant<int, 13>(), &S20::a13); f(std::integral_constant<int, 14>(), &S20::a14); f(std::integral_constant<int, 15>(), &S20::a15); f(std::integral_constant<int, 16>(), &S20::a16); f(std::integral_constant<int, 17>(), &S20::a17); f(std::integral_constant<int, 18>(), &S20::a18); f(std::integral_constant<int, 19>(), &S20::a19); } };
struct S21 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; f32 a5; i8 a6; u32 a7; i16 a8; u8 a9; u64 a10; f64 a11; u16 a12; f32 a13; i8 a14; u32 a15; i16 a16; u8 a17; u64 a18; f64 a19; u16 a20; static constexpr int n = 21;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S21::a0); f(std::integral_constant<int, 1>(), &S21::a1); f(std::integral_constant<int, 2>(), &S21::a2); f(std::integral_constant<int, 3>(), &S21::a3); f(std::integral_constant<int, 4>(), &S21::a4); f(std::integral_constant<int, 5>(), &S21::a5); f(std::integral_constant<int, 6>(), &S21::a6); f(std::integral_constant<int, 7>(), &S21::a7); f(std::integral_constant<int, 8>(), &S21::a8); f(std::integral_constant<int, 9>(), &S21::a9); f(std::integral_constant<int, 10>(), &S21::a10); f(std::integral_constant<int, 11>(), &S21::a11); f(std::integral_constant<int, 12>(), &S21::a12); f(std::integral_constant<int, 13>(), &S21::a13); f(std::integral_constant<int, 14>(), &S21::a14); f(std::integral_constant<int, 15>(), &S21::a15); f(std::integral_constant<int, 16>(), &S21::a16); f(std::integral_constant<int, 17>(), &S21::a17); f(std::integral_constant<int, 18>(), &S21::a18); f(std::integral_constant<int, 19>(), &S21::a19); f(std::integral_constant<int, 20>(), &S21::a20); } };
struct S22 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; u8 a6; u64 a7; f64 a8; u16 a9; f32 a10; i8 a11; u32 a12; i16 a13; u8 a14; u64 a15; f64 a16; u16 a17; f32 a18; i8 a19; u32 a20; i16 a21; static constexpr int n = 22;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S22::a0); f(std::integral_constant<int, 1>(), &S22::a1); f(std::integral_constant<int, 2>(), &S22::a2); f(std::integral_constant<int, 3>(), &S22::a3); f(std::integral_constant<int, 4>(), &S22::a4); f(std::integral_constant<int, 5>(), &S22::a5); f(std::integral_constant<int, 6>(), &S22::a6); f(std::integral_constant<int, 7>(), &S22::a7); f(std::integral_constant<int, 8>(), &S22::a8); f(std::integral_constant<int, 9>(), &S22::a9); f(std::integral_constant<int, 10>(), &S22::a10); f(std::integral_constant<int, 11>(), &S22::a11); f(std::integral_constant<int, 12>(), &S22::a12); f(std::integral_constant<int, 13>(), &S22::a13); f(std::integral_constant<int, 14>(), &S22::a14); f(std::integral_constant<int, 15>(), &S22::a15); f(std::integral_constant<int, 16>(), &S22::a16); f(std::integral_constant<int, 17>(), &S22::a17); f(std::integral_constant<int, 18>(), &S22::a18); f(std::integral_constant<int, 19>(), &S22::a19); f(std::integral_constant<int, 20>(), &S22::a20); f(std::integral_constant<int, 21>(), &S22::a21); } };
struct S23 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; f32 a7; i8 a8; u32 a9; i16 a10; u8 a11; u64 a12; f64 a13; u16 a14; f32 a15; i8 a16; u32 a17; i16 a18; u8 a19; u64 a20; f64 a21; u16 a22; static constexpr int n = 23;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S23::a0); f(std::integral_constant<int, 1>(), &S23::a1); f(std::integral_constant<int, 2>(), &S23::a2); f(std::integral_constant<int, 3>(), &S23::a3); f(std::integral_constant<int, 4>(), &S23::a4); f(std::integral_constant<int, 5>(), &S23::a5); f(std::integral_constant<int, 6>(), &S23::a6); f(std::integral_constant<int, 7>(), &S23::a7); f(std::integral_constant<int, 8>(), &S23::a8); f(std::integral_constant<int, 9>(), &S23::a9); f(std::integral_constant<int, 10>(), &S23::a10); f(std::integral_constant<int, 11>(), &S23::a11); f(std::integral_constant<int, 12>(), &S23::a12); f(std::integral_constant<int, 13>(), &S23::a13); f(std::integral_constant<int, 14>(), &S23::a14); f(std::integral_constant<int, 15>(), &S23::a15); f(std::integral_constant<int, 16>(), &S23::a16); f(std::integral_constant<int, 17>(), &S23::a17); f(std::integral_constant<int, 18>(), &S23::a18); f(std::integral_constant<int, 19>(), &S23::a19); f(std::integral_constant<int, 20>(), &S23::a20); f(std::integral_constant<int, 21>(), &S23::a21); f(std::integral_constant<int, 22>(), &S23::a22); } };
struct S24 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; u8 a8; u64 a9; f64 a10; u16 a11; f32 a12; i8 a13; u32 a14; i16 a15; u8 a16; u64 a17; f64 a18; u16 a19; f32 a20; i8 a21; u32 a22; i16 a23; static constexpr int n = 24;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S24::a0); f(std::integral_constant<int, 1>(), &S24::a1); f(std::integral_constant<int, 2>(), &S24::a2); f(std::integral_constant<int, 3>(), &S24::a3); f(std::integral_constant<int, 4>(), &S24::a4); f(std::integral_constant<int, 5>(), &S24::a5); f(std::integral_constant<int, 6>(), &S24::a6); f(std::integral_constant<int, 7>(), &S24::a7); f(std::integral_constant<int, 8>(), &S24::a8); f(std::integral_constant<int, 9>(), &S24::a9); f(std::integral_constant<int, 10>(), &S24::a10); f(std::integral_constant<int, 11>(), &S24::a11); f(std::integral_constant<int, 12>(), &S24::a12); f(std::integral_constant<int, 13>(), &S24::a13); f(std::integral_constant<int, 14>(), &S24::a14); f(std::integral_constant<int, 15>(), &S24::a15); f(std::integral_constant<int, 16>(), &S24::a16); f(std::integral_constant<int, 17>(), &S24::a17); f(std::integral_constant<int, 18>(), &S24::a18); f(std::integral_constant<int, 19>(), &S24::a19); f(std::integral_constant<int, 20>(), &S24::a20); f(std::integral_constant<int, 21>(), &S24::a21); f(std::integral_constant<int, 22>(), &S24::a22); f(std::integral_constant<int, 23>(), &S24::a23); } };
struct S25 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; f32 a9; i8 a10; u32 a11; i16 a12; u8 a13; u64 a14; f64 a15; u16 a16; f32 a17; i8 a18; u32 a19; i16 a20; u8 a21; u64 a22; f64 a23; u16 a24; static constexpr int n = 25;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S25::a0); f(std::integral_constant<int, 1>(), &S25::a1); f(std::integral_constant<int, 2>(), &S25::a2); f(std::integral_constant<int, 3>(), &S25::a3); f(std::integral_constant<int, 4>(), &S25::a4); f(std::integral_constant<int, 5>(), &S25::a5); f(std::integral_constant<int, 6>(), &S25::a6); f(std::integral_constant<int, 7>(), &S25::a7); f(std::integral_constant<int, 8>(), &S25::a8); f(std::integral_constant<int, 9>(), &S25::a9); f(std::integral_constant<int, 10>(), &S25::a10); f(std::integral_constant<int, 11>(), &S25::a11); f(std::integral_constant<int, 12>(), &S25::a12); f(std::integral_constant<int, 13>(), &S25::a13); f(std::integral_constant<int, 14>(), &S25::a14); f(std::integral_constant<int, 15>(), &S25::a15); f(std::integral_constant<int, 16>(), &S25::a16); f(std::integral_constant<int, 17>(), &S25::a17); f(std::integral_constant<int, 18>(), &S25::a18); f(std::integral_constant<int, 19>(), &S25::a19); f(std::integral_constant<int, 20>(), &S25::a20); f(std::integral_constant<int, 21>(), &S25::a21); f(std::integral_constant<int, 22>(), &S25::a22); f(std::integral_constant<int, 23>(), &S25::a23); f(std::integral_constant<int, 24>(), &S25::a24); } };
struct S26 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; u8 a10; u64 a11; f64 a12; u16 a13; f32 a14; i8 a15; u32 a16; i16 a17; u8 a18; u64 a19; f64 a20; u16 a21; f32 a22; i8 a23; u32 a24; i16 a25; static constexpr int n = 26;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S26::a0); f(std::integral_constant<int, 1>(), &S26::a1); f(std::integral_constant<int, 2>(), &S26::a2); f(std::integral_constant<int, 3>(), &S26::a3); f(std::integral_constant<int, 4>(), &S26::a4); f(std::integral_constant<int, 5>(), &S26::a5); f(std::integral_constant<int, 6>(), &S26::a6); f(std::integral_constant<int, 7>(), &S26::a7); f(std::integral_constant<int, 8>(), &S26::a8); f(std::integral_constant<int, 9>(), &S26::a9); f(std::integral_constant<int, 10>(), &S26::a10); f(std::integral_constant<int, 11>(), &S26::a11); f(std::integral_constant<int, 12>(), &S26::a12); f(std::integral_constant<int, 13>(), &S26::a13); f(std::integral_constant<int, 14>(), &S26::a14); f(std::integral_constant<int, 15>(), &S26::a15); f(std::integral_constant<int, 16>(), &S26::a16); f(std::integral_constant<int, 17>(), &S26::a17); f(std::integral_constant<int, 18>(), &S26::a18); f(std::integral_constant<int, 19>(), &S26::a19); f(std::integral_constant<int, 20>(), &S26::a20); f(std::integral_constant<int, 21>(), &S26::a21); f(std::integral_constant<int, 22>(), &S26::a22); f(std::integral_constant<int, 23>(), &S26::a23); f(std::integral_constant<int, 24>(), &S26::a24); f(std::integral_constant<int, 25>(), &S26::a25); } };
struct S27 { u64 a0; f64 a1; u16 a2; f32 a3; i8 a4; u32 a5; i16 a6; u8 a7; u64 a8; f64 a9; u16 a10; f32 a11; i8 a12; u32 a13; i16 a14; u8 a15; u64 a16; f64 a17; u16 a18; f32 a19; i8 a20; u32 a21; i16 a22; u8 a23; u64 a24; f64 a25; u16 a26; static constexpr int n = 27;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S27::a0); f(std::integral_constant<int, 1>(), &S27::a1); f(std::integral_constant<int, 2>(), &S27::a2); f(std::integral_constant<int, 3>(), &S27::a3); f(std::integral_constant<int, 4>(), &S27::a4); f(std::integral_constant<int, 5>(), &S27::a5); f(std::integral_constant<int, 6>(), &S27::a6); f(std::integral_constant<int, 7>(), &S27::a7); f(std::integral_constant<int, 8>(), &S27::a8); f(std::integral_constant<int, 9>(), &S27::a9); f(std::integral_constant<int, 10>(), &S27::a10); f(std::integral_constant<int, 11>(), &S27::a11); f(std::integral_constant<int, 12>(), &S27::a12); f(std::integral_constant<int, 13>(), &S27::a13); f(std::integral_constant<int, 14>(), &S27::a14); f(std::integral_constant<int, 15>(), &S27::a15); f(std::integral_constant<int, 16>(), &S27::a16); f(std::integral_constant<int, 17>(), &S27::a17); f(std::integral_constant<int, 18>(), &S27::a18); f(std::integral_constant<int, 19>(), &S27::a19); f(std::integral_constant<int, 20>(), &S27::a20); f(std::integral_constant<int, 21>(), &S27::a21); f(std::integral_constant<int, 22>(), &S27::a22); f(std::integral_constant<int, 23>(), &S27::a23); f(std::integral_constant<int, 24>(), &S27::a24); f(std::integral_constant<int, 25>(), &S27::a25); f(std::integral_constant<int, 26>(), &S27::a26); } };
struct S28 { f32 a0; i8 a1; u32 a2; i16 a3; u8 a4; u64 a5; f64 a6; u16 a7; f32 a8; i8 a9; u32 a10; i16 a11; u8 a12; u64 a13; f64 a14; u16 a15; f32 a16; i8 a17; u32 a18; i16 a19; u8 a20; u64 a21; f64 a22; u16 a23; f32 a24; i8 a25; u32 a26; i16 a27; static constexpr int n = 28;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S28::a0); f(std::integral_constant<int, 1>(), &S28::a1); f(std::integral_constant<int, 2>(), &S28::a2); f(std::integral_constant<int, 3>(), &S28::a3); f(std::integral_constant<int, 4>(), &S28::a4); f(std::integral_constant<int, 5>(), &S28::a5); f(std::integral_constant<int, 6>(), &S28::a6); f(std::integral_constant<int, 7>(), &S28::a7); f(std::integral_constant<int, 8>(), &S28::a8); f(std::integral_constant<int, 9>(), &S28::a9); f(std::integral_constant<int, 10>(), &S28::a10); f(std::integral_constant<int, 11>(), &S28::a11); f(std::integral_constant<int, 12>(), &S28::a12); f(std::integral_constant<int, 13>(), &S28::a13); f(std::integral_constant<int, 14>(), &S28::a14); f(std::integral_constant<int, 15>(), &S28::a15); f(std::integral_constant<int, 16>(), &S28::a16); f(std::integral_constant<int, 17>(), &S28::a17); f(std::integral_constant<int, 18>(), &S28::a18); f(std::integral_constant<int, 19>(), &S28::a19); f(std::integral_constant<int, 20>(), &S28::a20); f(std::integral_constant<int, 21>(), &S28::a21); f(std::integral_constant<int, 22>(), &S28::a22); f(std::integral_constant<int, 23>(), &S28::a23); f(std::integral_constant<int, 24>(), &S28::a24); f(std::integral_constant<int, 25>(), &S28::a25); f(std::integral_constant<int, 26>(), &S28::a26); f(std::integral_constant<int, 27>(), &S28::a27); } };
struct S29 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; f32 a5; i8 a6; u32 a7; i16 a8; u8 a9; u64 a10; f64 a11; u16 a12; f32 a13; i8 a14; u32 a15; i16 a16; u8 a17; u64 a18; f64 a19; u16 a20; f32 a21; i8 a22; u32 a23; i16 a24; u8 a25; u64 a26; f64 a27; u16 a28; static constexpr int n = 29;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S29::a0); f(std::integral_constant<int, 1>(), &S29::a1); f(std::integral_constant<int, 2>(), &S29::a2); f(std::integral_constant<int, 3>(), &S29::a3); f(std::integral_constant<int, 4>(), &S29::a4); f(std::integral_constant<int, 5>(), &S29::a5); f(std::integral_constant<int, 6>(), &S29::a6); f(std::integral_constant<int, 7>(), &S29::a7); f(std::integral_constant<int, 8>(), &S29::a8); f(std::integral_constant<int, 9>(), &S29::a9); f(std::integral_constant<int, 10>(), &S29::a10); f(std::integral_constant<int, 11>(), &S29::a11); f(std::integral_constant<int, 12>(), &S29::a12); f(std::integral_constant<int, 13>(), &S29::a13); f(std::integral_constant<int, 14>(), &S29::a14); f(std::integral_constant<int, 15>(), &S29::a15); f(std::integral_constant<int, 16>(), &S29::a16); f(std::integral_constant<int, 17>(), &S29::a17); f(std::integral_constant<int, 18>(), &S29::a18); f(std::integral_constant<int, 19>(), &S29::a19); f(std::integral_constant<int, 20>(), &S29::a20); f(std::integral_constant<int, 21>(), &S29::a21); f(std::integral_constant<int, 22>(), &S29::a22); f(std::integral_constant<int, 23>(), &S29::a23); f(std::integral_constant<int, 24>(), &S29::a24); f(std::integral_constant<int, 25>(), &S29::a25); f(std::integral_constant<int, 26>(), &S29::a26); f(std::integral_constant<int, 27>(), &S29::a27); f(std::integral_constant<int, 28>(), &S29::a28); } };
struct S30 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; u8 a6; u64 a7; f64 a8; u16 a9; f32 a10; i8 a11; u32 a12; i16 a13; u8 a14; u64 a15; f64 a16; u16 a17; f32 a18; i8 a19; u32 a20; i16 a21; u8 a22; u64 a23; f64 a24; u16 a25; f32 a26; i8 a27; u32 a28; i16 a29; static constexpr int n = 30;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S30::a0); f(std::integral_constant<int, 1>(), &S30::a1); f(std::integral_constant<int, 2>(), &S30::a2); f(std::integral_constant<int, 3>(), &S30::a3); f(std::integral_constant<int, 4>(), &S30::a4); f(std::integral_constant<int, 5>(), &S30::a5); f(std::integral_constant<int, 6>(), &S30::a6); f(std::integral_constant<int, 7>(), &S30::a7); f(std::integral_constant<int, 8>(), &S30::a8); f(std::integral_constant<int, 9>(), &S30::a9); f(std::integral_constant<int, 10>(), &S30::a10); f(std::integral_constant<int, 11>(), &S30::a11); f(std::integral_constant<int, 12>(), &S30::a12); f(std::integral_constant<int, 13>(), &S30::a13); f(std::integral_constant<int, 14>(), &S30::a14); f(std::integral_constant<int, 15>(), &S30::a15); f(std::integral_constant<int, 16>(), &S30::a16); f(std::integral_constant<int, 17>(), &S30::a17); f(std::integral_constant<int, 18>(), &S30::a18); f(std::integral_constant<int, 19>(), &S30::a19); f(std::integral_constant<int, 20>(), &S30::a20); f(std::integral_constant<int, 21>(), &S30::a21); f(std::integral_constant<int, 22>(), &S30::a22); f(std::integral_constant<int, 23>(), &S30::a23); f(std::integral_constant<int, 24>(), &S30::a24); f(std::integral_constant<int, 25>(), &S30::a25); f(std::integral_constant<int, 26>(), &S30::a26); f(std::integral_constant<int, 27>(), &S30::a27); f(std::integral_constant<int, 28>(), &S30::a28); f(std::integral_constant<int, 29>(), &S30::a29); } };
struct S31 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; f32 a7; i8 a8; u32 a9; i16 a10; u8 a11; u64 a12; f64 a13; u16 a14; f32 a15; i8 a16; u32 a17; i16 a18; u8 a19; u64 a20; f64 a21; u16 a22; f32 a23; i8 a24; u32 a25; i16 a26; u8 a27; u64 a28; f64 a29; u16 a30; static constexpr int n = 31;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S31::a0); f(std::integral_constant<int, 1>(), &S31::a1); f(std::integral_constant<int, 2>(), &S31::a2); f(std::integral_constant<int, 3>(), &S31::a3); f(std::integral_constant<int, 4>(), &S31::a4); f(std::integral_constant<int, 5>(), &S31::a5); f(std::integral_constant<int, 6>(), &S31::a6); f(std::integral_constant<int, 7>(), &S31::a7); f(std::integral_constant<int, 8>(), &S31::a8); f(std::integral_constant<int, 9>(), &S31::a9); f(std::integral_constant<int, 10>(), &S31::a10); f(std::integral_constant<int, 11>(), &S31::a11); f(std::integral_constant<int, 12>(), &S31::a12); f(std::integral_constant<int, 13>(), &S31::a13); f(std::integral_constant<int, 14>(), &S31::a14); f(std::integral_constant<int, 15>(), &S31::a15); f(std::integral_constant<int, 16>(), &S31::a16); f(std::integral_constant<int, 17>(), &S31::a17); f(std::integral_constant<int, 18>(), &S31::a18); f(std::integral_constant<int, 19>(), &S31::a19); f(std::integral_constant<int, 20>(), &S31::a20); f(std::integral_constant<int, 21>(), &S31::a21); f(std::integral_constant<int, 22>(), &S31::a22); f(std::integral_constant<int, 23>(), &S31::a23); f(std::integral_constant<int, 24>(), &S31::a24); f(std::integral_constant<int, 25>(), &S31::a25); f(std::integral_constant<int, 26>(), &S31::a26); f(std::integral_constant<int, 27>(), &S31::a27); f(std::integral_constant<int, 28>(), &S31::a28); f(std::integral_constant<int, 29>(), &S31::a29); f(std::integral_constant<int, 30>(), &S31::a30); } };
struct S32 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; u8 a8; u64 a9; f64 a10; u16 a11; f32 a12; i8 a13; u32 a14; i16 a15; u8 a16; u64 a17; f64 a18; u16 a19; f32 a20; i8 a21; u32 a22; i16 a23; u8 a24; u64 a25; f64 a26; u16 a27; f32 a28; i8 a29; u32 a30; i16 a31; static constexpr int n = 32;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S32::a0); f(std::integral_constant<int, 1>(), &S32::a1); f(std::integral_constant<int, 2>(), &S32::a2); f(std::integral_constant<int, 3>(), &S32::a3); f(std::integral_constant<int, 4>(), &S32::a4); f(std::integral_constant<int, 5>(), &S32::a5); f(std::integral_constant<int, 6>(), &S32::a6); f(std::integral_constant<int, 7>(), &S32::a7); f(std::integral_constant<int, 8>(), &S32::a8); f(std::integral_constant<int, 9>(), &S32::a9); f(std::integral_constant<int, 10>(), &S32::a10); f(std::integral_constant<int, 11>(), &S32::a11); f(std::integral_constant<int, 12>(), &S32::a12); f(std::integral_constant<int, 13>(), &S32::a13); f(std::integral_constant<int, 14>(), &S32::a14); f(std::integral_constant<int, 15>(), &S32::a15); f(std::integral_constant<int, 16>(), &S32::a16); f(std::integral_constant<int, 17>(), &S32::a17); f(std::integral_constant<int, 18>(), &S32::a18); f(std::integral_constant<int, 19>(), &S32::a19); f(std::integral_constant<int, 20>(), &S32::a20); f(std::integral_constant<int, 21>(), &S32::a21); f(std::integral_constant<int, 22>(), &S32::a22); f(std::integral_constant<int, 23>(), &S32::a23); f(std::integral_constant<int, 24>(), &S32::a24); f(std::integral_constant<int, 25>(), &S32::a25); f(std::integral_constant<int, 26>(), &S32::a26); f(std::integral_constant<int, 27>(), &S32::a27); f(std::integral_constant<int, 28>(), &S32::a28); f(std::integral_constant<int, 29>(), &S32::a29); f(std::integral_constant<int, 30>(), &S32::a30); f(std::integral_constant<int, 31>(), &S32::a31); } };
struct S33 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; f32 a9; i8 a10; u32 a11; i16 a12; u8 a13; u64 a14; f64 a15; u16 a16; f32 a17; i8 a18; u32 a19; i16 a20; u8 a21; u64 a22; f64 a23; u16 a24; f32 a25; i8 a26; u32 a27; i16 a28; u8 a29; u64 a30; f64 a31; u16 a32; static constexpr int n = 33;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S33::a0); f(std::integral_constant<int, 1>(), &S33::a1); f(std::integral_constant<int, 2>(), &S33::a2); f(std::integral_constant<int, 3>(), &S33::a3); f(std::integral_constant<int, 4>(), &S33::a4); f(std::integral_constant<int, 5>(), &S33::a5); f(std::integral_constant<int, 6>(), &S33::a6); f(std::integral_constant<int, 7>(), &S33::a7); f(std::integral_constant<int, 8>(), &S33::a8); f(std::integral_constant<int, 9>(), &S33::a9); f(std::integral_constant<int, 10>(), &S33::a10); f(std::integral_constant<int, 11>(), &S33::a11); f(std::integral_constant<int, 12>(), &S33::a12); f(std::integral_constant<int, 13>(), &S33::a13); f(std::integral_constant<int, 14>(), &S33::a14); f(std::integral_constant<int, 15>(), &S33::a15); f(std::integral_constant<int, 16>(), &S33::a16); f(std::integral_constant<int, 17>(), &S33::a17); f(std::integral_constant<int, 18>(), &S33::a18); f(std::integral_constant<int, 19>(), &S33::a19); f(std::integral_constant<int, 20>(), &S33::a20); f(std::integral_constant<int, 21>(), &S33::a21); f(std::integral_constant<int, 22>(), &S33::a22); f(std::integral_constant<int, 23>(), &S33::a23); f(std::integral_constant<int, 24>(), &S33::a24); f(std::integral_constant<int, 25>(), &S33::a25); f(std::integral_constant<int, 26>(), &S33::a26); f(std::integral_constant<int, 27>(), &S33::a27); f(std::integral_constant<int, 28>(), &S33::a28); f(std::integral_constant<int, 29>(), &S33::a29); f(std::integral_constant<int, 30>(), &S33::a30); f(std::integral_constant<int, 31>(), &S33::a31); f(std::integral_constant<int, 32>(), &S33::a32); } };
struct S34 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; u8 a10; u64 a11; f64 a12; u16 a13; f32 a14; i8 a15; u32 a16; i16 a17; u8 a18; u64 a19; f64 a20; u16 a21; f32 a22; i8 a23; u32 a24; i16 a25; u8 a26; u64 a27; f64 a28; u16 a29; f32 a30; i8 a31; u32 a32; i16 a33; static constexpr int n = 34;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S34::a0); f(std::integral_constant<int, 1>(), &S34::a1); f(std::integral_constant<int, 2>(), &S34::a2); f(std::integral_constant<int, 3>(), &S34::a3); f(std::integral_constant<int, 4>(), &S34::a4); f(std::integral_constant<int, 5>(), &S34::a5); f(std::integral_constant<int, 6>(), &S34::a6); f(std::integral_constant<int, 7>(), &S34::a7); f(std::integral_constant<int, 8>(), &S34::a8); f(std::integral_constant<int, 9>(), &S34::a9); f(std::integral_constant<int, 10>(), &S34::a10); f(std::integral_constant<int, 11>(), &S34::a11); f(std::integral_constant<int, 12>(), &S34::a12); f(std::integral_constant<int, 13>(), &S34::a13); f(std::integral_constant<int, 14>(), &S34::a14); f(std::integral_constant<int, 15>(), &S34::a15); f(std::integral_constant<int, 16>(), &S34::a16); f(std::integral_constant<int, 17>(), &S34::a17); f(std::integral_constant<int, 18>(), &S34::a18); f(std::integral_constant<int, 19>(), &S34::a19); f(std::integral_constant<int, 20>(), &S34::a20); f(std::integral_constant<int, 21>(), &S34::a21); f(std::integral_constant<int, 22>(), &S34::a22); f(std::integral_constant<int, 23>(), &S34::a23); f(std::integral_constant<int, 24>(), &S34::a24); f(std::integral_constant<int, 25>(), &S34::a25); f(std::integral_constant<int, 26>(), &S34::a26); f(std::integral_constant<int, 27>(), &S34::a27); f(std::integral_constant<int, 28>(), &S34::a28); f(std::integral_constant<int, 29>(), &S34::a29); f(std::integral_constant<int, 30>(), &S34::a30); f(std::integral_constant<int, 31>(), &S34::a31); f(std::integral_constant<int, 32>(), &S34::a32); f(std::integral_constant<int, 33>(), &S34::a33); } };
struct S35 { u64 a0; f64 a1; u16 a2; f32 a3; i8 a4; u32 a5; i16 a6; u8 a7; u64 a8; f64 a9; u16 a10; f32 a11; i8 a12; u32 a13; i16 a14; u8 a15; u64 a16; f64 a17; u16 a18; f32 a19; i8 a20; u32 a21; i16 a22; u8 a23; u64 a24; f64 a25; u16 a26; f32 a27; i8 a28; u32 a29; i16 a30; u8 a31; u64 a32; f64 a33; u16 a34; static constexpr int n = 35;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S35::a0); f(std::integral_constant<int, 1>(), &S35::a1); f(std::integral_constant<int, 2>(), &S35::a2); f(std::integral_constant<int, 3>(), &S35::a3); f(std::integral_constant<int, 4>(), &S35::a4); f(std::integral_constant<int, 5>(), &S35::a5); f(std::integral_constant<int, 6>(), &S35::a6); f(std::integral_constant<int, 7>(), &S35::a7); f(std::integral_constant<int, 8>(), &S35::a8); f(std::integral_constant<int, 9>(), &S35::a9); f(std::integral_constant<int, 10>(), &S35::a10); f(std::integral_constant<int, 11>(), &S35::a11); f(std::integral_constant<int, 12>(), &S35::a12); f(std::integral_constant<int, 13>(), &S35::a13); f(std::integral_constant<int, 14>(), &S35::a14); f(std::integral_constant<int, 15>(), &S35::a15); f(std::integral_constant<int, 16>(), &S35::a16); f(std::integral_constant<int, 17>(), &S35::a17); f(std::integral_constant<int, 18>(), &S35::a18); f(std::integral_constant<int, 19>(), &S35::a19); f(std::integral_constant<int, 20>(), &S35::a20); f(std::integral_constant<int, 21>(), &S35::a21); f(std::integral_constant<int, 22>(), &S35::a22); f(std::integral_constant<int, 23>(), &S35::a23); f(std::integral_constant<int, 24>(), &S35::a24); f(std::integral_constant<int, 25>(), &S35::a25); f(std::integral_constant<int, 26>(), &S35::a26); f(std::integral_constant<int, 27>(), &S35::a27); f(std::integral_constant<int, 28>(), &S35::a28); f(std::integral_constant<int, 29>(), &S35::a29); f(std::integral_constant<int, 30>(), &S35::a30); f(std::integral_constant<int, 31>(), &S35::a31); f(std::integral_constant<int, 32>(), &S35::a32); f(std::integral_constant<int, 33>(), &S35::a33); f(std::integral_constant<int, 34>(), &S35::a34); } };
struct S36 { f32 a0; i8 a1; u32 a2; i16 a3; u8 a4; u64 a5; f64 a6; u16 a7; f32 a8; i8 a9; u32 a10; i16 a11; u8 a12; u64 a13; f64 a14; u16 a15; f32 a16; i8 a17; u32 a18; i16 a19; u8 a20; u64 a21; f64 a22; u16 a23; f32 a24; i8 a25; u32 a26; i16 a27; u8 a28; u64 a29; f64 a30; u16 a31; f32 a32; i8 a33; u32 a34; i16 a35; static constexpr int n = 36;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S36::a0); f(std::integral_constant<int, 1>(), &S36::a1); f(std::integral_constant<int, 2>(), &S36::a2); f(std::integral_constant<int, 3>(), &S36::a3); f(std::integral_constant<int, 4>(), &S36::a4); f(std::integral_constant<int, 5>(), &S36::a5); f(std::integral_constant<int, 6>(), &S36::a6); f(std::integral_constant<int, 7>(), &S36::a7); f(std::integral_constant<int, 8>(), &S36::a8); f(std::integral_constant<int, 9>(), &S36::a9); f(std::integral_constant<int, 10>(), &S36::a10); f(std::integral_constant<int, 11>(), &S36::a11); f(std::integral_constant<int, 12>(), &S36::a12); f(std::integral_constant<int, 13>(), &S36::a13); f(std::integral_constant<int, 14>(), &S36::a14); f(std::integral_constant<int, 15>(), &S36::a15); f(std::integral_constant<int, 16>(), &S36::a16); f(std::integral_constant<int, 17>(), &S36::a17); f(std::integral_constant<int, 18>(), &S36::a18); f(std::integral_constant<int, 19>(), &S36::a19); f(std::integral_constant<int, 20>(), &S36::a20); f(std::integral_constant<int, 21>(), &S36::a21); f(std::integral_constant<int, 22>(), &S36::a22); f(std::integral_constant<int, 23>(), &S36::a23); f(std::integral_constant<int, 24>(), &S36::a24); f(std::integral_constant<int, 25>(), &S36::a25); f(std::integral_constant<int, 26>(), &S36::a26); f(std::integral_constant<int, 27>(), &S36::a27); f(std::integral_constant<int, 28>(), &S36::a28); f(std::integral_constant<int, 29>(), &S36::a29); f(std::integral_constant<int, 30>(), &S36::a30); f(std::integral_constant<int, 31>(), &S36::a31); f(std::integral_constant<int, 32>(), &S36::a32); f(std::integral_constant<int, 33>(), &S36::a33); f(std::integral_constant<int, 34>(), &S36::a34); f(std::integral_constant<int, 35>(), &S36::a35); } };
struct S37 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; f32 a5; i8 a6; u32 a7; i16 a8; u8 a9; u64 a10; f64 a11; u16 a12; f32 a13; i8 a14; u32 a15; i16 a16; u8 a17; u64 a18; f64 a19; u16 a20; f32 a21; i8 a22; u32 a23; i16 a24; u8 a25; u64 a26; f64 a27; u16 a28; f32 a29; i8 a30; u32 a31; i16 a32; u8 a33; u64 a34; f64 a35; u16 a36; static constexpr int n = 37;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S37::a0); f(std::integral_constant<int, 1>(), &S37::a1); f(std::integral_constant<int, 2>(), &S37::a2); f(std::integral_constant<int, 3>(), &S37::a3); f(std::integral_constant<int, 4>(), &S37::a4); f(std::integral_constant<int, 5>(), &S37::a5); f(std::integral_constant<int, 6>(), &S37::a6); f(std::integral_constant<int, 7>(), &S37::a7); f(std::integral_constant<int, 8>(), &S37::a8); f(std::integral_constant<int, 9>(), &S37::a9); f(std::integral_constant<int, 10>(), &S37::a10); f(std::integral_constant<int, 11>(), &S37::a11); f(std::integral_constant<int, 12>(), &S37::a12); f(std::integral_constant<int, 13>(), &S37::a13); f(std::integral_constant<int, 14>(), &S37::a14); f(std::integral_constant<int, 15>(), &S37::a15); f(std::integral_constant<int, 16>(), &S37::a16); f(std::integral_constant<int, 17>(), &S37::a17); f(std::integral_constant<int, 18>(), &S37::a18); f(std::integral_constant<int, 19>(), &S37::a19); f(std::integral_constant<int, 20>(), &S37::a20); f(std::integral_constant<int, 21>(), &S37::a21); f(std::integral_constant<int, 22>(), &S37::a22); f(std::integral_constant<int, 23>(), &S37::a23); f(std::integral_constant<int, 24>(), &S37::a24); f(std::integral_constant<int, 25>(), &S37::a25); f(std::integral_constant<int, 26>(), &S37::a26); f(std::integral_constant<int, 27>(), &S37::a27); f(std::integral_constant<int, 28>(), &S37::a28); f(std::integral_constant<int, 29>(), &S37::a29); f(std::integral_constant<int, 30>(), &S37::a30); f(std::integral_constant<int, 31>(), &S37::a31); f(std::integral_constant<int, 32>(), &S37::a32); f(std::integral_constant<int, 33>(), &S37::a33); f(std::integral_constant<int, 34>(), &S37::a34); f(std::integral_constant<int, 35>(), &S37::a35); f(std::integral_constant<int, 36>(), &S37::a36); } };
struct S38 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; u8 a6; u64 a7; f64 a8; u16 a9; f32 a10; i8 a11; u32 a12; i16 a13; u8 a14; u64 a15; f64 a16; u16 a17; f32 a18; i8 a19; u32 a20; i16 a21; u8 a22; u64 a23; f64 a24; u16 a25; f32 a26; i8 a27; u32 a28; i16 a29; u8 a30; u64 a31; f64 a32; u16 a33; f32 a34; i8 a35; u32 a36; i16 a37; static constexpr int n = 38;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S38::a0); f(std::integral_constant<int, 1>(), &S38::a1); f(std::integral_constant<int, 2>(), &S38::a2); f(std::integral_constant<int, 3>(), &S38::a3); f(std::integral_constant<int, 4>(), &S38::a4); f(std::integral_constant<int, 5>(), &S38::a5); f(std::integral_constant<int, 6>(), &S38::a6); f(std::integral_constant<int, 7>(), &S38::a7); f(std::integral_constant<int, 8>(), &S38::a8); f(std::integral_constant<int, 9>(), &S38::a9); f(std::integral_constant<int, 10>(), &S38::a10); f(std::integral_constant<int, 11>(), &S38::a11); f(std::integral_constant<int, 12>(), &S38::a12); f(std::integral_constant<int, 13>(), &S38::a13); f(std::integral_constant<int, 14>(), &S38::a14); f(std::integral_constant<int, 15>(), &S38::a15); f(std::integral_constant<int, 16>(), &S38::a16); f(std::integral_constant<int, 17>(), &S38::a17); f(std::integral_constant<int, 18>(), &S38::a18); f(std::integral_constant<int, 19>(), &S38::a19); f(std::integral_constant<int, 20>(), &S38::a20); f(std::integral_constant<int, 21>(), &S38::a21); f(std::integral_constant<int, 22>(), &S38::a22); f(std::integral_constant<int, 23>(), &S38::a23); f(std::integral_constant<int, 24>(), &S38::a24); f(std::integral_constant<int, 25>(), &S38::a25); f(std::integral_constant<int, 26>(), &S38::a26); f(std::integral_constant<int, 27>(), &S38::a27); f(std::integral_constant<int, 28>(), &S38::a28); f(std::integral_constant<int, 29>(), &S38::a29); f(std::integral_constant<int, 30>(), &S38::a30); f(std::integral_constant<int, 31>(), &S38::a31); f(std::integral_constant<int, 32>(), &S38::a32); f(std::integral_constant<int, 33>(), &S38::a33); f(std::integral_constant<int, 34>(), &S38::a34); f(std::integral_constant<int, 35>(), &S38::a35); f(std::integral_constant<int, 36>(), &S38::a36); f(std::integral_constant<int, 37>(), &S38::a37); } };
struct S39 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; f32 a7; i8 a8; u32 a9; i16 a10; u8 a11; u64 a12; f64 a13; u16 a14; f32 a15; i8 a16; u32 a17; i16 a18; u8 a19; u64 a20; f64 a21; u16 a22; f32 a23; i8 a24; u32 a25; i16 a26; u8 a27; u64 a28; f64 a29; u16 a30; f32 a31; i8 a32; u32 a33; i16 a34; u8 a35; u64 a36; f64 a37; u16 a38; static constexpr int n = 39;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S39::a0); f(std::integral_constant<int, 1>(), &S39::a1); f(std::integral_constant<int, 2>(), &S39::a2); f(std::integral_constant<int, 3>(), &S39::a3); f(std::integral_constant<int, 4>(), &S39::a4); f(std::integral_constant<int, 5>(), &S39::a5); f(std::integral_constant<int, 6>(), &S39::a6); f(std::integral_constant<int, 7>(), &S39::a7); f(std::integral_constant<int, 8>(), &S39::a8); f(std::integral_constant<int, 9>(), &S39::a9); f(std::integral_constant<int, 10>(), &S39::a10); f(std::integral_constant<int, 11>(), &S39::a11); f(std::integral_constant<int, 12>(), &S39::a12); f(std::integral_constant<int, 13>(), &S39::a13); f(std::integral_constant<int, 14>(), &S39::a14); f(std::integral_constant<int, 15>(), &S39::a15); f(std::integral_constant<int, 16>(), &S39::a16); f(std::integral_constant<int, 17>(), &S39::a17); f(std::integral_constant<int, 18>(), &S39::a18); f(std::integral_constant<int, 19>(), &S39::a19); f(std::integral_constant<int, 20>(), &S39::a20); f(std::integral_constant<int, 21>(), &S39::a21); f(std::integral_constant<int, 22>(), &S39::a22); f(std::integral_constant<int, 23>(), &S39::a23); f(std::integral_constant<int, 24>(), &S39::a24); f(std::integral_constant<int, 25>(), &S39::a25); f(std::integral_constant<int, 26>(), &S39::a26); f(std::integral_constant<int, 27>(), &S39::a27); f(std::integral_constant<int, 28>(), &S39::a28); f(std::integral_constant<int, 29>(), &S39::a29); f(std::integral_constant<int, 30>(), &S39::a30); f(std::integral_constant<int, 31>(), &S39::a31); f(std::integral_constant<int, 32>(), &S39::a32); f(std::integral_constant<int, 33>(), &S39::a33); f(std::integral_constant<int, 34>(), &S39::a34); f(std::integral_constant<int, 35>(), &S39::a35); f(std::integral_constant<int, 36>(), &S39::a36); f(std::integral_constant<int, 37>(), &S39::a37); f(std::integral_constant<int, 38>(), &S39::a38); } };
struct S40 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; u8 a8; u64 a9; f64 a10; u16 a11; f32 a12; i8 a13; u32 a14; i16 a15; u8 a16; u64 a17; f64 a18; u16 a19; f32 a20; i8 a21; u32 a22; i16 a23; u8 a24; u64 a25; f64 a26; u16 a27; f32 a28; i8 a29; u32 a30; i16 a31; u8 a32; u64 a33; f64 a34; u16 a35; f32 a36; i8 a37; u32 a38; i16 a39; static constexpr int n = 40;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S40::a0); f(std::integral_constant<int, 1>(), &S40::a1); f(std::integral_constant<int, 2>(), &S40::a2); f(std::integral_constant<int, 3>(), &S40::a3); f(std::integral_constant<int, 4>(), &S40::a4); f(std::integral_constant<int, 5>(), &S40::a5); f(std::integral_constant<int, 6>(), &S40::a6); f(std::integral_constant<int, 7>(), &S40::a7); f(std::integral_constant<int, 8>(), &S40::a8); f(std::integral_constant<int, 9>(), &S40::a9); f(std::integral_constant<int, 10>(), &S40::a10); f(std::integral_constant<int, 11>(), &S40::a11); f(std::integral_constant<int, 12>(), &S40::a12); f(std::integral_constant<int, 13>(), &S40::a13); f(std::integral_constant<int, 14>(), &S40::a14); f(std::integral_constant<int, 15>(), &S40::a15); f(std::integral_constant<int, 16>(), &S40::a16); f(std::integral_constant<int, 17>(), &S40::a17); f(std::integral_constant<int, 18>(), &S40::a18); f(std::integral_constant<int, 19>(), &S40::a19); f(std::integral_constant<int, 20>(), &S40::a20); f(std::integral_constant<int, 21>(), &S40::a21); f(std::integral_constant<int, 22>(), &S40::a22); f(std::integral_constant<int, 23>(), &S40::a23); f(std::integral_constant<int, 24>(), &S40::a24); f(std::integral_constant<int, 25>(), &S40::a25); f(std::integral_constant<int, 26>(), &S40::a26); f(std::integral_constant<int, 27>(), &S40::a27); f(std::integral_constant<int, 28>(), &S40::a28); f(std::integral_constant<int, 29>(), &S40::a29); f(std::integral_constant<int, 30>(), &S40::a30); f(std::integral_constant<int, 31>(), &S40::a31); f(std::integral_constant<int, 32>(), &S40::a32); f(std::integral_constant<int, 33>(), &S40::a33); f(std::integral_constant<int, 34>(), &S40::a34); f(std::integral_constant<int, 35>(), &S40::a35); f(std::integral_constant<int, 36>(), &S40::a36); f(std::integral_constant<int, 37>(), &S40::a37); f(std::integral_constant<int, 38>(), &S40::a38); f(std::integral_constant<int, 39>(), &S40::a39); } };
struct S41 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; f32 a9; i8 a10; u32 a11; i16 a12; u8 a13; u64 a14; f64 a15; u16 a16; f32 a17; i8 a18; u32 a19; i16 a20; u8 a21; u64 a22; f64 a23; u16 a24; f32 a25; i8 a26; u32 a27; i16 a28; u8 a29; u64 a30; f64 a31; u16 a32; f32 a33; i8 a34; u32 a35; i16 a36; u8 a37; u64 a38; f64 a39; u16 a40; static constexpr int n = 41;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S41::a0); f(std::integral_constant<int, 1>(), &S41::a1); f(std::integral_constant<int, 2>(), &S41::a2); f(std::integral_constant<int, 3>(), &S41::a3); f(std::integral_constant<int, 4>(), &S41::a4); f(std::integral_constant<int, 5>(), &S41::a5); f(std::integral_constant<int, 6>(), &S41::a6); f(std::integral_constant<int, 7>(), &S41::a7); f(std::integral_constant<int, 8>(), &S41::a8); f(std::integral_constant<int, 9>(), &S41::a9); f(std::integral_constant<int, 10>(), &S41::a10); f(std::integral_constant<int, 11>(), &S41::a11); f(std::integral_constant<int, 12>(), &S41::a12); f(std::integral_constant<int, 13>(), &S41::a13); f(std::integral_constant<int, 14>(), &S41::a14); f(std::integral_constant<int, 15>(), &S41::a15); f(std::integral_constant<int, 16>(), &S41::a16); f(std::integral_constant<int, 17>(), &S41::a17); f(std::integral_constant<int, 18>(), &S41::a18); f(std::integral_constant<int, 19>(), &S41::a19); f(std::integral_constant<int, 20>(), &S41::a20); f(std::integral_constant<int, 21>(), &S41::a21); f(std::integral_constant<int, 22>(), &S41::a22); f(std::integral_constant<int, 23>(), &S41::a23); f(std::integral_constant<int, 24>(), &S41::a24); f(std::integral_constant<int, 25>(), &S41::a25); f(std::integral_constant<int, 26>(), &S41::a26); f(std::integral_constant<int, 27>(), &S41::a27); f(std::integral_constant<int, 28>(), &S41::a28); f(std::integral_constant<int, 29>(), &S41::a29); f(std::integral_constant<int, 30>(), &S41::a30); f(std::integral_constant<int, 31>(), &S41::a31); f(std::integral_constant<int, 32>(), &S41::a32); f(std::integral_constant<int, 33>(), &S41::a33); f(std::integral_constant<int, 34>(), &S41::a34); f(std::integral_constant<int, 35>(), &S41::a35); f(std::integral_constant<int, 36>(), &S41::a36); f(std::integral_constant<int, 37>(), &S41::a37); f(std::integral_constant<int, 38>(), &S41::a38); f(std::integral_constant<int, 39>(), &S41::a39); f(std::integral_constant<int, 40>(), &S41::a40); } };
struct S42 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; u8 a10; u64 a11; f64 a12; u16 a13; f32 a14; i8 a15; u32 a16; i16 a17; u8 a18; u64 a19; f64 a20; u16 a21; f32 a22; i8 a23; u32 a24; i16 a25; u8 a26; u64 a27; f64 a28; u16 a29; f32 a30; i8 a31; u32 a32; i16 a33; u8 a34; u64 a35; f64 a36; u16 a37; f32 a38; i8 a39; u32 a40; i16 a41; static constexpr int n = 42;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S42::a0); f(std::integral_constant<int, 1>(), &S42::a1); f(std::integral_constant<int, 2>(), &S42::a2); f(std::integral_constant<int, 3>(), &S42::a3); f(std::integral_constant<int, 4>(), &S42::a4); f(std::integral_constant<int, 5>(), &S42::a5); f(std::integral_constant<int, 6>(), &S42::a6); f(std::integral_constant<int, 7>(), &S42::a7); f(std::integral_constant<int, 8>(), &S42::a8); f(std::integral_constant<int, 9>(), &S42::a9); f(std::integral_constant<int, 10>(), &S42::a10); f(std::integral_constant<int, 11>(), &S42::a11); f(std::integral_constant<int, 12>(), &S42::a12); f(std::integral_constant<int, 13>(), &S42::a13); f(std::integral_constant<int, 14>(), &S42::a14); f(std::integral_constant<int, 15>(), &S42::a15); f(std::integral_constant<int, 16>(), &S42::a16); f(std::integral_constant<int, 17>(), &S42::a17); f(std::integral_constant<int, 18>(), &S42::a18); f(std::integral_constant<int, 19>(), &S42::a19); f(std::integral_constant<int, 20>(), &S42::a20); f(std::integral_constant<int, 21>(), &S42::a21); f(std::integral_constant<int, 22>(), &S42::a22); f(std::integral_constant<int, 23>(), &S42::a23); f(std::integral_constant<int, 24>(), &S42::a24); f(std::integral_constant<int, 25>(), &S42::a25); f(std::integral_constant<int, 26>(), &S42::a26); f(std::integral_constant<int, 27>(), &S42::a27); f(std::integral_constant<int, 28>(), &S42::a28); f(std::integral_constant<int, 29>(), &S42::a29); f(std::integral_constant<int, 30>(), &S42::a30); f(std::integral_constant<int, 31>(), &S42::a31); f(std::integral_constant<int, 32>(), &S42::a32); f(std::integral_constant<int, 33>(), &S42::a33); f(std::integral_constant<int, 34>(), &S42::a34); f(std::integral_constant<int, 35>(), &S42::a35); f(std::integral_constant<int, 36>(), &S42::a36); f(std::integral_constant<int, 37>(), &S42::a37); f(std::integral_constant<int, 38>(), &S42::a38); f(std::integral_constant<int, 39>(), &S42::a39); f(std::integral_constant<int, 40>(), &S42::a40); f(std::integral_constant<int, 41>(), &S42::a41); } };
struct S43 { u64 a0; f64 a1; u16 a2; f32 a3; i8 a4; u32 a5; i16 a6; u8 a7; u64 a8; f64 a9; u16 a10; f32 a11; i8 a12; u32 a13; i16 a14; u8 a15; u64 a16; f64 a17; u16 a18; f32 a19; i8 a20; u32 a21; i16 a22; u8 a23; u64 a24; f64 a25; u16 a26; f32 a27; i8 a28; u32 a29; i16 a30; u8 a31; u64 a32; f64 a33; u16 a34; f32 a35; i8 a36; u32 a37; i16 a38; u8 a39; u64 a40; f64 a41; u16 a42; static constexpr int n = 43;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S43::a0); f(std::integral_constant<int, 1>(), &S43::a1); f(std::integral_constant<int, 2>(), &S43::a2); f(std::integral_constant<int, 3>(), &S43::a3); f(std::integral_constant<int, 4>(), &S43::a4); f(std::integral_constant<int, 5>(), &S43::a5); f(std::integral_constant<int, 6>(), &S43::a6); f(std::integral_constant<int, 7>(), &S43::a7); f(std::integral_constant<int, 8>(), &S43::a8); f(std::integral_constant<int, 9>(), &S43::a9); f(std::integral_constant<int, 10>(), &S43::a10); f(std::integral_constant<int, 11>(), &S43::a11); f(std::integral_constant<int, 12>(), &S43::a12); f(std::integral_constant<int, 13>(), &S43::a13); f(std::integral_constant<int, 14>(), &S43::a14); f(std::integral_constant<int, 15>(), &S43::a15); f(std::integral_constant<int, 16>(), &S43::a16); f(std::integral_constant<int, 17>(), &S43::a17); f(std::integral_constant<int, 18>(), &S43::a18); f(std::integral_constant<int, 19>(), &S43::a19); f(std::integral_constant<int, 20>(), &S43::a20); f(std::integral_constant<int, 21>(), &S43::a21); f(std::integral_constant<int, 22>(), &S43::a22); f(std::integral_constant<int, 23>(), &S43::a23); f(std::integral_constant<int, 24>(), &S43::a24); f(std::integral_constant<int, 25>(), &S43::a25); f(std::integral_constant<int, 26>(), &S43::a26); f(std::integral_constant<int, 27>(), &S43::a27); f(std::integral_constant<int, 28>(), &S43::a28); f(std::integral_constant<int, 29>(), &S43::a29); f(std::integral_constant<int, 30>(), &S43::a30); f(std::integral_constant<int, 31>(), &S43::a31); f(std::integral_constant<int, 32>(), &S43::a32); f(std::integral_constant<int, 33>(), &S43::a33); f(std::integral_constant<int, 34>(), &S43::a34); f(std::integral_constant<int, 35>(), &S43::a35); f(std::integral_constant<int, 36>(), &S43::a36); f(std::integral_constant<int, 37>(), &S43::a37); f(std::integral_constant<int, 38>(), &S43::a38); f(std::integral_constant<int, 39>(), &S43::a39); f(std::integral_constant<int, 40>(), &S43::a40); f(std::integral_constant<int, 41>(), &S43::a41); f(std::integral_constant<int, 42>(), &S43::a42); } };
struct S44 { f32 a0; i8 a1; u32 a2; i16 a3; u8 a4; u64 a5; f64 a6; u16 a7; f32 a8; i8 a9; u32 a10; i16 a11; u8 a12; u64 a13; f64 a14; u16 a15; f32 a16; i8 a17; u32 a18; i16 a19; u8 a20; u64 a21; f64 a22; u16 a23; f32 a24; i8 a25; u32 a26; i16 a27; u8 a28; u64 a29; f64 a30; u16 a31; f32 a32; i8 a33; u32 a34; i16 a35; u8 a36; u64 a37; f64 a38; u16 a39; f32 a40; i8 a41; u32 a42; i16 a43; static constexpr int n = 44;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S44::a0); f(std::integral_constant<int, 1>(), &S44::a1); f(std::integral_constant<int, 2>(), &S44::a2); f(std::integral_constant<int, 3>(), &S44::a3); f(std::integral_constant<int, 4>(), &S44::a4); f(std::integral_constant<int, 5>(), &S44::a5); f(std::integral_constant<int, 6>(), &S44::a6); f(std::integral_constant<int, 7>(), &S44::a7); f(std::integral_constant<int, 8>(), &S44::a8); f(std::integral_constant<int, 9>(), &S44::a9); f(std::integral_constant<int, 10>(), &S44::a10); f(std::integral_constant<int, 11>(), &S44::a11); f(std::integral_constant<int, 12>(), &S44::a12); f(std::integral_constant<int, 13>(), &S44::a13); f(std::integral_constant<int, 14>(), &S44::a14); f(std::integral_constant<int, 15>(), &S44::a15); f(std::integral_constant<int, 16>(), &S44::a16); f(std::integral_constant<int, 17>(), &S44::a17); f(std::integral_constant<int, 18>(), &S44::a18); f(std::integral_constant<int, 19>(), &S44::a19); f(std::integral_constant<int, 20>(), &S44::a20); f(std::integral_constant<int, 21>(), &S44::a21); f(std::integral_constant<int, 22>(), &S44::a22); f(std::integral_constant<int, 23>(), &S44::a23); f(std::integral_constant<int, 24>(), &S44::a24); f(std::integral_constant<int, 25>(), &S44::a25); f(std::integral_constant<int, 26>(), &S44::a26); f(std::integral_constant<int, 27>(), &S44::a27); f(std::integral_constant<int, 28>(), &S44::a28); f(std::integral_constant<int, 29>(), &S44::a29); f(std::integral_constant<int, 30>(), &S44::a30); f(std::integral_constant<int, 31>(), &S44::a31); f(std::integral_constant<int, 32>(), &S44::a32); f(std::integral_constant<int, 33>(), &S44::a33); f(std::integral_constant<int, 34>(), &S44::a34); f(std::integral_constant<int, 35>(), &S44::a35); f(std::integral_constant<int, 36>(), &S44::a36); f(std::integral_constant<int, 37>(), &S44::a37); f(std::integral_constant<int, 38>(), &S44::a38); f(std::integral_constant<int, 39>(), &S44::a39); f(std::integral_constant<int, 40>(), &S44::a40); f(std::integral_constant<int, 41>(), &S44::a41); f(std::integral_constant<int, 42>(), &S44::a42); f(std::integral_constant<int, 43>(), &S44::a43); } };
struct S45 { i16 a0; u8 a1; u64 a2; f64 a3; u16 a4; f32 a5; i8 a6; u32 a7; i16 a8; u8 a9; u64 a10; f64 a11; u16 a12; f32 a13; i8 a14; u32 a15; i16 a16; u8 a17; u64 a18; f64 a19; u16 a20; f32 a21; i8 a22; u32 a23; i16 a24; u8 a25; u64 a26; f64 a27; u16 a28; f32 a29; i8 a30; u32 a31; i16 a32; u8 a33; u64 a34; f64 a35; u16 a36; f32 a37; i8 a38; u32 a39; i16 a40; u8 a41; u64 a42; f64 a43; u16 a44; static constexpr int n = 45;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S45::a0); f(std::integral_constant<int, 1>(), &S45::a1); f(std::integral_constant<int, 2>(), &S45::a2); f(std::integral_constant<int, 3>(), &S45::a3); f(std::integral_constant<int, 4>(), &S45::a4); f(std::integral_constant<int, 5>(), &S45::a5); f(std::integral_constant<int, 6>(), &S45::a6); f(std::integral_constant<int, 7>(), &S45::a7); f(std::integral_constant<int, 8>(), &S45::a8); f(std::integral_constant<int, 9>(), &S45::a9); f(std::integral_constant<int, 10>(), &S45::a10); f(std::integral_constant<int, 11>(), &S45::a11); f(std::integral_constant<int, 12>(), &S45::a12); f(std::integral_constant<int, 13>(), &S45::a13); f(std::integral_constant<int, 14>(), &S45::a14); f(std::integral_constant<int, 15>(), &S45::a15); f(std::integral_constant<int, 16>(), &S45::a16); f(std::integral_constant<int, 17>(), &S45::a17); f(std::integral_constant<int, 18>(), &S45::a18); f(std::integral_constant<int, 19>(), &S45::a19); f(std::integral_constant<int, 20>(), &S45::a20); f(std::integral_constant<int, 21>(), &S45::a21); f(std::integral_constant<int, 22>(), &S45::a22); f(std::integral_constant<int, 23>(), &S45::a23); f(std::integral_constant<int, 24>(), &S45::a24); f(std::integral_constant<int, 25>(), &S45::a25); f(std::integral_constant<int, 26>(), &S45::a26); f(std::integral_constant<int, 27>(), &S45::a27); f(std::integral_constant<int, 28>(), &S45::a28); f(std::integral_constant<int, 29>(), &S45::a29); f(std::integral_constant<int, 30>(), &S45::a30); f(std::integral_constant<int, 31>(), &S45::a31); f(std::integral_constant<int, 32>(), &S45::a32); f(std::integral_constant<int, 33>(), &S45::a33); f(std::integral_constant<int, 34>(), &S45::a34); f(std::integral_constant<int, 35>(), &S45::a35); f(std::integral_constant<int, 36>(), &S45::a36); f(std::integral_constant<int, 37>(), &S45::a37); f(std::integral_constant<int, 38>(), &S45::a38); f(std::integral_constant<int, 39>(), &S45::a39); f(std::integral_constant<int, 40>(), &S45::a40); f(std::integral_constant<int, 41>(), &S45::a41); f(std::integral_constant<int, 42>(), &S45::a42); f(std::integral_constant<int, 43>(), &S45::a43); f(std::integral_constant<int, 44>(), &S45::a44); } };
struct S46 { f64 a0; u16 a1; f32 a2; i8 a3; u32 a4; i16 a5; u8 a6; u64 a7; f64 a8; u16 a9; f32 a10; i8 a11; u32 a12; i16 a13; u8 a14; u64 a15; f64 a16; u16 a17; f32 a18; i8 a19; u32 a20; i16 a21; u8 a22; u64 a23; f64 a24; u16 a25; f32 a26; i8 a27; u32 a28; i16 a29; u8 a30; u64 a31; f64 a32; u16 a33; f32 a34; i8 a35; u32 a36; i16 a37; u8 a38; u64 a39; f64 a40; u16 a41; f32 a42; i8 a43; u32 a44; i16 a45; static constexpr int n = 46;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S46::a0); f(std::integral_constant<int, 1>(), &S46::a1); f(std::integral_constant<int, 2>(), &S46::a2); f(std::integral_constant<int, 3>(), &S46::a3); f(std::integral_constant<int, 4>(), &S46::a4); f(std::integral_constant<int, 5>(), &S46::a5); f(std::integral_constant<int, 6>(), &S46::a6); f(std::integral_constant<int, 7>(), &S46::a7); f(std::integral_constant<int, 8>(), &S46::a8); f(std::integral_constant<int, 9>(), &S46::a9); f(std::integral_constant<int, 10>(), &S46::a10); f(std::integral_constant<int, 11>(), &S46::a11); f(std::integral_constant<int, 12>(), &S46::a12); f(std::integral_constant<int, 13>(), &S46::a13); f(std::integral_constant<int, 14>(), &S46::a14); f(std::integral_constant<int, 15>(), &S46::a15); f(std::integral_constant<int, 16>(), &S46::a16); f(std::integral_constant<int, 17>(), &S46::a17); f(std::integral_constant<int, 18>(), &S46::a18); f(std::integral_constant<int, 19>(), &S46::a19); f(std::integral_constant<int, 20>(), &S46::a20); f(std::integral_constant<int, 21>(), &S46::a21); f(std::integral_constant<int, 22>(), &S46::a22); f(std::integral_constant<int, 23>(), &S46::a23); f(std::integral_constant<int, 24>(), &S46::a24); f(std::integral_constant<int, 25>(), &S46::a25); f(std::integral_constant<int, 26>(), &S46::a26); f(std::integral_constant<int, 27>(), &S46::a27); f(std::integral_constant<int, 28>(), &S46::a28); f(std::integral_constant<int, 29>(), &S46::a29); f(std::integral_constant<int, 30>(), &S46::a30); f(std::integral_constant<int, 31>(), &S46::a31); f(std::integral_constant<int, 32>(), &S46::a32); f(std::integral_constant<int, 33>(), &S46::a33); f(std::integral_constant<int, 34>(), &S46::a34); f(std::integral_constant<int, 35>(), &S46::a35); f(std::integral_constant<int, 36>(), &S46::a36); f(std::integral_constant<int, 37>(), &S46::a37); f(std::integral_constant<int, 38>(), &S46::a38); f(std::integral_constant<int, 39>(), &S46::a39); f(std::integral_constant<int, 40>(), &S46::a40); f(std::integral_constant<int, 41>(), &S46::a41); f(std::integral_constant<int, 42>(), &S46::a42); f(std::integral_constant<int, 43>(), &S46::a43); f(std::integral_constant<int, 44>(), &S46::a44); f(std::integral_constant<int, 45>(), &S46::a45); } };
struct S47 { i8 a0; u32 a1; i16 a2; u8 a3; u64 a4; f64 a5; u16 a6; f32 a7; i8 a8; u32 a9; i16 a10; u8 a11; u64 a12; f64 a13; u16 a14; f32 a15; i8 a16; u32 a17; i16 a18; u8 a19; u64 a20; f64 a21; u16 a22; f32 a23; i8 a24; u32 a25; i16 a26; u8 a27; u64 a28; f64 a29; u16 a30; f32 a31; i8 a32; u32 a33; i16 a34; u8 a35; u64 a36; f64 a37; u16 a38; f32 a39; i8 a40; u32 a41; i16 a42; u8 a43; u64 a44; f64 a45; u16 a46; static constexpr int n = 47;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S47::a0); f(std::integral_constant<int, 1>(), &S47::a1); f(std::integral_constant<int, 2>(), &S47::a2); f(std::integral_constant<int, 3>(), &S47::a3); f(std::integral_constant<int, 4>(), &S47::a4); f(std::integral_constant<int, 5>(), &S47::a5); f(std::integral_constant<int, 6>(), &S47::a6); f(std::integral_constant<int, 7>(), &S47::a7); f(std::integral_constant<int, 8>(), &S47::a8); f(std::integral_constant<int, 9>(), &S47::a9); f(std::integral_constant<int, 10>(), &S47::a10); f(std::integral_constant<int, 11>(), &S47::a11); f(std::integral_constant<int, 12>(), &S47::a12); f(std::integral_constant<int, 13>(), &S47::a13); f(std::integral_constant<int, 14>(), &S47::a14); f(std::integral_constant<int, 15>(), &S47::a15); f(std::integral_constant<int, 16>(), &S47::a16); f(std::integral_constant<int, 17>(), &S47::a17); f(std::integral_constant<int, 18>(), &S47::a18); f(std::integral_constant<int, 19>(), &S47::a19); f(std::integral_constant<int, 20>(), &S47::a20); f(std::integral_constant<int, 21>(), &S47::a21); f(std::integral_constant<int, 22>(), &S47::a22); f(std::integral_constant<int, 23>(), &S47::a23); f(std::integral_constant<int, 24>(), &S47::a24); f(std::integral_constant<int, 25>(), &S47::a25); f(std::integral_constant<int, 26>(), &S47::a26); f(std::integral_constant<int, 27>(), &S47::a27); f(std::integral_constant<int, 28>(), &S47::a28); f(std::integral_constant<int, 29>(), &S47::a29); f(std::integral_constant<int, 30>(), &S47::a30); f(std::integral_constant<int, 31>(), &S47::a31); f(std::integral_constant<int, 32>(), &S47::a32); f(std::integral_constant<int, 33>(), &S47::a33); f(std::integral_constant<int, 34>(), &S47::a34); f(std::integral_constant<int, 35>(), &S47::a35); f(std::integral_constant<int, 36>(), &S47::a36); f(std::integral_constant<int, 37>(), &S47::a37); f(std::integral_constant<int, 38>(), &S47::a38); f(std::integral_constant<int, 39>(), &S47::a39); f(std::integral_constant<int, 40>(), &S47::a40); f(std::integral_constant<int, 41>(), &S47::a41); f(std::integral_constant<int, 42>(), &S47::a42); f(std::integral_constant<int, 43>(), &S47::a43); f(std::integral_constant<int, 44>(), &S47::a44); f(std::integral_constant<int, 45>(), &S47::a45); f(std::integral_constant<int, 46>(), &S47::a46); } };
struct S48 { u8 a0; u64 a1; f64 a2; u16 a3; f32 a4; i8 a5; u32 a6; i16 a7; u8 a8; u64 a9; f64 a10; u16 a11; f32 a12; i8 a13; u32 a14; i16 a15; u8 a16; u64 a17; f64 a18; u16 a19; f32 a20; i8 a21; u32 a22; i16 a23; u8 a24; u64 a25; f64 a26; u16 a27; f32 a28; i8 a29; u32 a30; i16 a31; u8 a32; u64 a33; f64 a34; u16 a35; f32 a36; i8 a37; u32 a38; i16 a39; u8 a40; u64 a41; f64 a42; u16 a43; f32 a44; i8 a45; u32 a46; i16 a47; static constexpr int n = 48;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S48::a0); f(std::integral_constant<int, 1>(), &S48::a1); f(std::integral_constant<int, 2>(), &S48::a2); f(std::integral_constant<int, 3>(), &S48::a3); f(std::integral_constant<int, 4>(), &S48::a4); f(std::integral_constant<int, 5>(), &S48::a5); f(std::integral_constant<int, 6>(), &S48::a6); f(std::integral_constant<int, 7>(), &S48::a7); f(std::integral_constant<int, 8>(), &S48::a8); f(std::integral_constant<int, 9>(), &S48::a9); f(std::integral_constant<int, 10>(), &S48::a10); f(std::integral_constant<int, 11>(), &S48::a11); f(std::integral_constant<int, 12>(), &S48::a12); f(std::integral_constant<int, 13>(), &S48::a13); f(std::integral_constant<int, 14>(), &S48::a14); f(std::integral_constant<int, 15>(), &S48::a15); f(std::integral_constant<int, 16>(), &S48::a16); f(std::integral_constant<int, 17>(), &S48::a17); f(std::integral_constant<int, 18>(), &S48::a18); f(std::integral_constant<int, 19>(), &S48::a19); f(std::integral_constant<int, 20>(), &S48::a20); f(std::integral_constant<int, 21>(), &S48::a21); f(std::integral_constant<int, 22>(), &S48::a22); f(std::integral_constant<int, 23>(), &S48::a23); f(std::integral_constant<int, 24>(), &S48::a24); f(std::integral_constant<int, 25>(), &S48::a25); f(std::integral_constant<int, 26>(), &S48::a26); f(std::integral_constant<int, 27>(), &S48::a27); f(std::integral_constant<int, 28>(), &S48::a28); f(std::integral_constant<int, 29>(), &S48::a29); f(std::integral_constant<int, 30>(), &S48::a30); f(std::integral_constant<int, 31>(), &S48::a31); f(std::integral_constant<int, 32>(), &S48::a32); f(std::integral_constant<int, 33>(), &S48::a33); f(std::integral_constant<int, 34>(), &S48::a34); f(std::integral_constant<int, 35>(), &S48::a35); f(std::integral_constant<int, 36>(), &S48::a36); f(std::integral_constant<int, 37>(), &S48::a37); f(std::integral_constant<int, 38>(), &S48::a38); f(std::integral_constant<int, 39>(), &S48::a39); f(std::integral_constant<int, 40>(), &S48::a40); f(std::integral_constant<int, 41>(), &S48::a41); f(std::integral_constant<int, 42>(), &S48::a42); f(std::integral_constant<int, 43>(), &S48::a43); f(std::integral_constant<int, 44>(), &S48::a44); f(std::integral_constant<int, 45>(), &S48::a45); f(std::integral_constant<int, 46>(), &S48::a46); f(std::integral_constant<int, 47>(), &S48::a47); } };
struct S49 { u16 a0; f32 a1; i8 a2; u32 a3; i16 a4; u8 a5; u64 a6; f64 a7; u16 a8; f32 a9; i8 a10; u32 a11; i16 a12; u8 a13; u64 a14; f64 a15; u16 a16; f32 a17; i8 a18; u32 a19; i16 a20; u8 a21; u64 a22; f64 a23; u16 a24; f32 a25; i8 a26; u32 a27; i16 a28; u8 a29; u64 a30; f64 a31; u16 a32; f32 a33; i8 a34; u32 a35; i16 a36; u8 a37; u64 a38; f64 a39; u16 a40; f32 a41; i8 a42; u32 a43; i16 a44; u8 a45; u64 a46; f64 a47; u16 a48; static constexpr int n = 49;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S49::a0); f(std::integral_constant<int, 1>(), &S49::a1); f(std::integral_constant<int, 2>(), &S49::a2); f(std::integral_constant<int, 3>(), &S49::a3); f(std::integral_constant<int, 4>(), &S49::a4); f(std::integral_constant<int, 5>(), &S49::a5); f(std::integral_constant<int, 6>(), &S49::a6); f(std::integral_constant<int, 7>(), &S49::a7); f(std::integral_constant<int, 8>(), &S49::a8); f(std::integral_constant<int, 9>(), &S49::a9); f(std::integral_constant<int, 10>(), &S49::a10); f(std::integral_constant<int, 11>(), &S49::a11); f(std::integral_constant<int, 12>(), &S49::a12); f(std::integral_constant<int, 13>(), &S49::a13); f(std::integral_constant<int, 14>(), &S49::a14); f(std::integral_constant<int, 15>(), &S49::a15); f(std::integral_constant<int, 16>(), &S49::a16); f(std::integral_constant<int, 17>(), &S49::a17); f(std::integral_constant<int, 18>(), &S49::a18); f(std::integral_constant<int, 19>(), &S49::a19); f(std::integral_constant<int, 20>(), &S49::a20); f(std::integral_constant<int, 21>(), &S49::a21); f(std::integral_constant<int, 22>(), &S49::a22); f(std::integral_constant<int, 23>(), &S49::a23); f(std::integral_constant<int, 24>(), &S49::a24); f(std::integral_constant<int, 25>(), &S49::a25); f(std::integral_constant<int, 26>(), &S49::a26); f(std::integral_constant<int, 27>(), &S49::a27); f(std::integral_constant<int, 28>(), &S49::a28); f(std::integral_constant<int, 29>(), &S49::a29); f(std::integral_constant<int, 30>(), &S49::a30); f(std::integral_constant<int, 31>(), &S49::a31); f(std::integral_constant<int, 32>(), &S49::a32); f(std::integral_constant<int, 33>(), &S49::a33); f(std::integral_constant<int, 34>(), &S49::a34); f(std::integral_constant<int, 35>(), &S49::a35); f(std::integral_constant<int, 36>(), &S49::a36); f(std::integral_constant<int, 37>(), &S49::a37); f(std::integral_constant<int, 38>(), &S49::a38); f(std::integral_constant<int, 39>(), &S49::a39); f(std::integral_constant<int, 40>(), &S49::a40); f(std::integral_constant<int, 41>(), &S49::a41); f(std::integral_constant<int, 42>(), &S49::a42); f(std::integral_constant<int, 43>(), &S49::a43); f(std::integral_constant<int, 44>(), &S49::a44); f(std::integral_constant<int, 45>(), &S49::a45); f(std::integral_constant<int, 46>(), &S49::a46); f(std::integral_constant<int, 47>(), &S49::a47); f(std::integral_constant<int, 48>(), &S49::a48); } };
struct S50 { u32 a0; i16 a1; u8 a2; u64 a3; f64 a4; u16 a5; f32 a6; i8 a7; u32 a8; i16 a9; u8 a10; u64 a11; f64 a12; u16 a13; f32 a14; i8 a15; u32 a16; i16 a17; u8 a18; u64 a19; f64 a20; u16 a21; f32 a22; i8 a23; u32 a24; i16 a25; u8 a26; u64 a27; f64 a28; u16 a29; f32 a30; i8 a31; u32 a32; i16 a33; u8 a34; u64 a35; f64 a36; u16 a37; f32 a38; i8 a39; u32 a40; i16 a41; u8 a42; u64 a43; f64 a44; u16 a45; f32 a46; i8 a47; u32 a48; i16 a49; static constexpr int n = 50;
  template <class F> static void each(F f) { f(std::integral_constant<int, 0>(), &S50::a0); f(std::integral_constant<int, 1>(), &S50::a1); f(std::integral_constant<int, 2>(), &S50::a2); f(std::integral_constant<int, 3>(), &S50::a3); f(std::integral_constant<int, 4>(), &S50::a4); f(std::integral_constant<int, 5>(), &S50::a5); f(std::integral_constant<int, 6>(), &S50::a6); f(std::integral_constant<int, 7>(), &S50::a7); f(std::integral_constant<int, 8>(), &S50::a8); f(std::integral_constant<int, 9>(), &S50::a9); f(std::integral_constant<int, 10>(), &S50::a10); f(std::integral_constant<int, 11>(), &S50::a11); f(std::integral_constant<int, 12>(), &S50::a12); f(std::integral_constant<int, 13>(), &S50::a13); f(std::integral_constant<int, 14>(), &S50::a14); f(std::integral_constant<int, 15>(), &S50::a15); f(std::integral_constant<int, 16>(), &S50::a16); f(std::integral_constant<int, 17>(), &S50::a17); f(std::integral_constant<int, 18>(), &S50::a18); f(std::integral_constant<int, 19>(), &S50::a19); f(std::integral_constant<int, 20>(), &S50::a20); f(std::integral_constant<int, 21>(), &S50::a21); f(std::integral_constant<int, 22>(), &S50::a22); f(std::integral_constant<int, 23>(), &S50::a23); f(std::integral_constant<int, 24>(), &S50::a24); f(std::integral_constant<int, 25>(), &S50::a25); f(std::integral_constant<int, 26>(), &S50::a26); f(std::integral_constant<int, 27>(), &S50::a27); f(std::integral_constant<int, 28>(), &S50::a28); f(std::integral_constant<int, 29>(), &S50::a29); f(std::integral_constant<int, 30>(), &S50::a30); f(std::integral_constant<int, 31>(), &S50::a31); f(std::integral_constant<int, 32>(), &S50::a32); f(std::integral_constant<int, 33>(), &S50::a33); f(std::integral_constant<int, 34>(), &S50::a34); f(std::integral_constant<int, 35>(), &S50::a35); f(std::integral_constant<int, 36>(), &S50::a36); f(std::integral_constant<int, 37>(), &S50::a37); f(std::integral_constant<int, 38>(), &S50::a38); f(std::integral_constant<int, 39>(), &S50::a39); f(std::integral_constant<int, 40>(), &S50::a40); f(std::integral_constant<int, 41>(), &S50::a41); f(std::integral_constant<int, 42>(), &S50::a42); f(std::integral_constant<int, 43>(), &S50::a43); f(std::integral_constant<int, 44>(), &S50::a44); f(std::integral_constant<int, 45>(), &S50::a45); f(std::integral_constant<int, 46>(), &S50::a46); f(std::integral_constant<int, 47>(), &S50::a47); f(std::integral_constant<int, 48>(), &S50::a48); f(std::integral_constant<int, 49>(), &S50::a49); } };
