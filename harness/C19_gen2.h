// generated by tools/gen19.py
namespace c19 {
template<class A, class B> struct T20 { A m0; B m1; B m2; A m3; B m4; A m5; B m6; A m7; A m8; B m9; A m10; A m11; B m12; B m13; A m14; A m15; A m16; B m17; B m18; B m19; double spare = 7;
 A g0() const { return m0; } void s0(const A& x) { m0 = x; } B g1() const { return m1; } void s1(const B& x) { m1 = x; } B g2() const { return m2; } void s2(const B& x) { m2 = x; } A g3() const { return m3; } void s3(const A& x) { m3 = x; } B g4() const { return m4; } void s4(const B& x) { m4 = x; } A g5() const { return m5; } void s5(const A& x) { m5 = x; } B g6() const { return m6; } void s6(const B& x) { m6 = x; } A g7() const { return m7; } void s7(const A& x) { m7 = x; } A g8() const { return m8; } void s8(const A& x) { m8 = x; } B g9() const { return m9; } void s9(const B& x) { m9 = x; } A g10() const { return m10; } void s10(const A& x) { m10 = x; } A g11() const { return m11; } void s11(const A& x) { m11 = x; } B g12() const { return m12; } void s12(const B& x) { m12 = x; } B g13() const { return m13; } void s13(const B& x) { m13 = x; } A g14() const { return m14; } void s14(const A& x) { m14 = x; } A g15() const { return m15; } void s15(const A& x) { m15 = x; } A g16() const { return m16; } void s16(const A& x) { m16 = x; } B g17() const { return m17; } void s17(const B& x) { m17 = x; } B g18() const { return m18; } void s18(const B& x) { m18 = x; } B g19() const { return m19; } void s19(const B& x) { m19 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); case 7: return double(m7); case 8: return double(m8); case 9: return double(m9); case 10: return double(m10); case 11: return double(m11); case 12: return double(m12); case 13: return double(m13); case 14: return double(m14); case 15: return double(m15); case 16: return double(m16); case 17: return double(m17); case 18: return double(m18); case 19: return double(m19); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (A)(d); break; case 1: m1 = (B)(d); break; case 2: m2 = (B)(d); break; case 3: m3 = (A)(d); break; case 4: m4 = (B)(d); break; case 5: m5 = (A)(d); break; case 6: m6 = (B)(d); break; case 7: m7 = (A)(d); break; case 8: m8 = (A)(d); break; case 9: m9 = (B)(d); break; case 10: m10 = (A)(d); break; case 11: m11 = (A)(d); break; case 12: m12 = (B)(d); break; case 13: m13 = (B)(d); break; case 14: m14 = (A)(d); break; case 15: m15 = (A)(d); break; case 16: m16 = (A)(d); break; case 17: m17 = (B)(d); break; case 18: m18 = (B)(d); break; case 19: m19 = (B)(d); break; default: spare = d; } } };
}
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((c19::T20<A, B>), (class A, class B), m14, m15, m2, m12, m19, m13, m16, m9, m4, m18, m10, m11, m17, m1, m6, m8, m3, m0, m5, m7);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((c19::T20<A, B>), (class A, class B), "name 0", m5, "name 1", m4, "x, y 2", m3, "name 3", m14, "x, y 4", m10, "a 5", m13, "x, y 6", m7, "name 7", m17, "name 8", m6, "x, y 9", m9, "a 10", m11, "x, y 11", m16, "name 12", m2, "( 13", m12, "( 14", m18, "x, y 15", m1, "x, y 16", m19, "x, y 17", m8, "name 18", m0, " 19", m15);
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((c19::T20<A, B>), (class A, class B), "c0", (&c19::T20<A, B>::m9), "c7", (std::make_pair(&c19::T20<A, B>::g3, &c19::T20<A, B>::s3)), "c14", (&c19::T20<A, B>::m13), "c1", (&c19::T20<A, B>::m7), "c8", (&c19::T20<A, B>::m1), "c15", (&c19::T20<A, B>::m15), "c2", (std::make_pair(&c19::T20<A, B>::g0, &c19::T20<A, B>::s0)), "c9", (std::make_pair(&c19::T20<A, B>::g19, &c19::T20<A, B>::s19)), "c16", (&c19::T20<A, B>::m6), "c3", (&c19::T20<A, B>::m10), "c10", (std::make_pair(&c19::T20<A, B>::g12, &c19::T20<A, B>::s12)), "c17", (std::make_pair(&c19::T20<A, B>::g14, &c19::T20<A, B>::s14)), "c4", (&c19::T20<A, B>::m17), "c11", (&c19::T20<A, B>::m5), "c18", (std::make_pair(&c19::T20<A, B>::g8, &c19::T20<A, B>::s8)), "c5", (std::make_pair(&c19::T20<A, B>::g11, &c19::T20<A, B>::s11)), "c12", (&c19::T20<A, B>::m18), "c19", (&c19::T20<A, B>::m2), "c6", (&c19::T20<A, B>::m16), "c13", (&c19::T20<A, B>::m4));
static void classes1(vh::Case& c) { switch (c.index % 3) {
 case 0: { const int p[] = {14, 15, 2, 12, 19, 13, 16, 9, 4, 18, 10, 11, 17, 1, 6, 8, 3, 0, 5, 7}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m14", "m15", "m2", "m12", "m19", "m13", "m16", "m9", "m4", "m18", "m10", "m11", "m17", "m1", "m6", "m8", "m3", "m0", "m5", "m7"}; All<DefaultTraits, c19::T20<float, long>>::run(c, "DefaultTraits T20<float, long>", p, d, nm, 20); } break;
 case 1: { const int p[] = {5, 4, 3, 14, 10, 13, 7, 17, 6, 9, 11, 16, 2, 12, 18, 1, 19, 8, 0, 15}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"name 0", "name 1", "x, y 2", "name 3", "x, y 4", "a 5", "x, y 6", "name 7", "name 8", "x, y 9", "a 10", "x, y 11", "name 12", "( 13", "( 14", "x, y 15", "x, y 16", "x, y 17", "name 18", " 19"}; All<DefaultIOTraits, c19::T20<float, long>>::run(c, "DefaultIOTraits T20<float, long>", p, d, nm, 20); } break;
 case 2: { const int p[] = {9, 3, 13, 7, 1, 15, 0, 19, 6, 10, 12, 14, 17, 5, 8, 11, 18, 2, 16, 4}; const bool d[] = {1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 1, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8", "c15", "c2", "c9", "c16", "c3", "c10", "c17", "c4", "c11", "c18", "c5", "c12", "c19", "c6", "c13"}; All<DefaultArithmeticTraits, c19::T20<float, long>>::run(c, "DefaultArithmeticTraits T20<float, long>", p, d, nm, 20); } break;
} }
