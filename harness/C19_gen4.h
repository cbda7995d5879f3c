// generated by tools/gen19.py
namespace c19 {
template<class A, class B> struct T12 { B m0; B m1; A m2; A m3; B m4; A m5; A m6; A m7; B m8; A m9; B m10; A m11; double spare = 7;
 B g0() const { return m0; } void s0(const B& x) { m0 = x; } B g1() const { return m1; } void s1(const B& x) { m1 = x; } A g2() const { return m2; } void s2(const A& x) { m2 = x; } A g3() const { return m3; } void s3(const A& x) { m3 = x; } B g4() const { return m4; } void s4(const B& x) { m4 = x; } A g5() const { return m5; } void s5(const A& x) { m5 = x; } A g6() const { return m6; } void s6(const A& x) { m6 = x; } A g7() const { return m7; } void s7(const A& x) { m7 = x; } B g8() const { return m8; } void s8(const B& x) { m8 = x; } A g9() const { return m9; } void s9(const A& x) { m9 = x; } B g10() const { return m10; } void s10(const B& x) { m10 = x; } A g11() const { return m11; } void s11(const A& x) { m11 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); case 7: return double(m7); case 8: return double(m8); case 9: return double(m9); case 10: return double(m10); case 11: return double(m11); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (B)(d); break; case 1: m1 = (B)(d); break; case 2: m2 = (A)(d); break; case 3: m3 = (A)(d); break; case 4: m4 = (B)(d); break; case 5: m5 = (A)(d); break; case 6: m6 = (A)(d); break; case 7: m7 = (A)(d); break; case 8: m8 = (B)(d); break; case 9: m9 = (A)(d); break; case 10: m10 = (B)(d); break; case 11: m11 = (A)(d); break; default: spare = d; } } };
struct S7 { float m0; double m1; int m2; short m3; unsigned m4; unsigned m5; double m6; double spare = 7;
 float g0() const { return m0; } void s0(const float& x) { m0 = x; } double g1() const { return m1; } void s1(const double& x) { m1 = x; } int g2() const { return m2; } void s2(const int& x) { m2 = x; } short g3() const { return m3; } void s3(const short& x) { m3 = x; } unsigned g4() const { return m4; } void s4(const unsigned& x) { m4 = x; } unsigned g5() const { return m5; } void s5(const unsigned& x) { m5 = x; } double g6() const { return m6; } void s6(const double& x) { m6 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (float)(d); break; case 1: m1 = (double)(d); break; case 2: m2 = (int)(d); break; case 3: m3 = (short)(d); break; case 4: m4 = (unsigned)(d); break; case 5: m5 = (unsigned)(d); break; case 6: m6 = (double)(d); break; default: spare = d; } } };
struct S4 { long long m0; int m1; double m2; double m3; double spare = 7;
 long long g0() const { return m0; } void s0(const long long& x) { m0 = x; } int g1() const { return m1; } void s1(const int& x) { m1 = x; } double g2() const { return m2; } void s2(const double& x) { m2 = x; } double g3() const { return m3; } void s3(const double& x) { m3 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (long long)(d); break; case 1: m1 = (int)(d); break; case 2: m2 = (double)(d); break; case 3: m3 = (double)(d); break; default: spare = d; } } };
template<class A, class B> struct T4 { A m0; A m1; A m2; B m3; double spare = 7;
 A g0() const { return m0; } void s0(const A& x) { m0 = x; } A g1() const { return m1; } void s1(const A& x) { m1 = x; } A g2() const { return m2; } void s2(const A& x) { m2 = x; } B g3() const { return m3; } void s3(const B& x) { m3 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (A)(d); break; case 1: m1 = (A)(d); break; case 2: m2 = (A)(d); break; case 3: m3 = (B)(d); break; default: spare = d; } } };
template<class A, class B> struct T3 { B m0; A m1; B m2; double spare = 7;
 B g0() const { return m0; } void s0(const B& x) { m0 = x; } A g1() const { return m1; } void s1(const A& x) { m1 = x; } B g2() const { return m2; } void s2(const B& x) { m2 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (B)(d); break; case 1: m1 = (A)(d); break; case 2: m2 = (B)(d); break; default: spare = d; } } };
template<class A, class B> struct T2 { A m0; B m1; double spare = 7;
 A g0() const { return m0; } void s0(const A& x) { m0 = x; } B g1() const { return m1; } void s1(const B& x) { m1 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (A)(d); break; case 1: m1 = (B)(d); break; default: spare = d; } } };
struct S1 { unsigned char m0; double spare = 7;
 unsigned char g0() const { return m0; } void s0(const unsigned char& x) { m0 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (unsigned char)(d); break; default: spare = d; } } };
}
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((c19::T12<A, B>), (class A, class B), "name 0", m0, "( 1", m1, "a 2", m2, "( 3", m3, " 4", m4, "name 5", m5, " 6", m6, " 7", m7, "( 8", m8, "x, y 9", m9, "( 10", m10, "( 11", m11);
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((c19::T12<A, B>), (class A, class B), "c0", (&c19::T12<A, B>::m11), "c7", (&c19::T12<A, B>::m1), "c14", (&c19::T12<A, B>::m3), "c1", (&c19::T12<A, B>::m8), "c8", (&c19::T12<A, B>::m9), "c15", (std::make_pair(&c19::T12<A, B>::g2, &c19::T12<A, B>::s2)), "c2", (std::make_pair(&c19::T12<A, B>::g7, &c19::T12<A, B>::s7)), "c9", (&c19::T12<A, B>::m5), "c16", (&c19::T12<A, B>::m0), "c3", (&c19::T12<A, B>::m6), "c10", (&c19::T12<A, B>::m4), "c17", (&c19::T12<A, B>::m10));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((c19::T12<A, B>), (class A, class B), m4, m0, m2, m7, m3, m6, m5, m10, m11, m9, m1, m8);
MAKE_NAMED_ATTRIBUTE_TRAIT(c19::S7, "a 0", m0, "name 1", m1, "( 2", m2, "( 3", m3, "name 4", m4, "a 5", m5, "name 6", m6);
MAKE_CUSTOM_TRAIT_IO(c19::S7, "c0", (std::make_pair(&c19::S7::g0, &c19::S7::s0)), "c7", (&c19::S7::m6), "c14", (&c19::S7::m3), "c1", (&c19::S7::m5), "c8", (&c19::S7::m2));
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(c19::S7, m2, m3, m1, m6, m5, m4);
MAKE_NAMED_ATTRIBUTE_TRAIT(c19::S4, "x, y 0", m0, "x, y 1", m1, "( 2", m2, "a 3", m3);
MAKE_CUSTOM_TRAIT_IO(c19::S4, "c0", (std::make_pair(&c19::S4::g3, &c19::S4::s3)), "c7", (std::make_pair(&c19::S4::g1, &c19::S4::s1)), "c14", (&c19::S4::m2), "c1", (&c19::S4::m0));
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(c19::S4, m1, m3, m2, m0);
MAKE_CUSTOM_TEMPLATE_TRAIT((c19::T4<A, B>), (class A, class B), "c0", (std::make_pair(&c19::T4<A, B>::g0, &c19::T4<A, B>::s0)), "c7", (std::make_pair(&c19::T4<A, B>::g1, &c19::T4<A, B>::s1)), "c14", (&c19::T4<A, B>::m2), "c1", (std::make_pair(&c19::T4<A, B>::g3, &c19::T4<A, B>::s3)));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((c19::T4<A, B>), (class A, class B), m0, m1);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((c19::T4<A, B>), (class A, class B), "name 0", m2, " 1", m1, "name 2", m0, " 3", m3);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((c19::T3<A, B>), (class A, class B), "( 0", m0, "x, y 1", m1, "name 2", m2);
MAKE_CUSTOM_TEMPLATE_TRAIT_IO((c19::T3<A, B>), (class A, class B), "c0", (&c19::T3<A, B>::m2), "c7", (std::make_pair(&c19::T3<A, B>::g1, &c19::T3<A, B>::s1)), "c14", (std::make_pair(&c19::T3<A, B>::g0, &c19::T3<A, B>::s0)));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((c19::T3<A, B>), (class A, class B), m0, m2, m1);
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((c19::T2<A, B>), (class A, class B), m0, m1);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((c19::T2<A, B>), (class A, class B), "( 0", m0, "name 1", m1);
MAKE_CUSTOM_TEMPLATE_TRAIT_ARITHMETIC((c19::T2<A, B>), (class A, class B), "c0", (std::make_pair(&c19::T2<A, B>::g0, &c19::T2<A, B>::s0)), "c7", (&c19::T2<A, B>::m1));
MAKE_NAMED_ATTRIBUTE_TRAIT(c19::S1, "x, y 0", m0);
MAKE_CUSTOM_TRAIT_IO(c19::S1, "c0", (&c19::S1::m0));
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(c19::S1, m0);
static void classes3(vh::Case& c) { switch (c.index % 21) {
 case 0: { const int p[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"name 0", "( 1", "a 2", "( 3", " 4", "name 5", " 6", " 7", "( 8", "x, y 9", "( 10", "( 11"}; All<DefaultTraits, c19::T12<float, long>>::run(c, "DefaultTraits T12<float, long>", p, d, nm, 12); } break;
 case 1: { const int p[] = {11, 1, 3, 8, 9, 2, 7, 5, 0, 6, 4, 10}; const bool d[] = {1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8", "c15", "c2", "c9", "c16", "c3", "c10", "c17"}; All<DefaultIOTraits, c19::T12<float, long>>::run(c, "DefaultIOTraits T12<float, long>", p, d, nm, 12); } break;
 case 2: { const int p[] = {4, 0, 2, 7, 3, 6, 5, 10, 11, 9, 1, 8}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m4", "m0", "m2", "m7", "m3", "m6", "m5", "m10", "m11", "m9", "m1", "m8"}; All<DefaultArithmeticTraits, c19::T12<float, long>>::run(c, "DefaultArithmeticTraits T12<float, long>", p, d, nm, 12); } break;
 case 3: { const int p[] = {0, 1, 2, 3, 4, 5, 6}; const bool d[] = {1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"a 0", "name 1", "( 2", "( 3", "name 4", "a 5", "name 6"}; All<DefaultTraits, c19::S7>::run(c, "DefaultTraits S7", p, d, nm, 7); } break;
 case 4: { const int p[] = {0, 6, 3, 5, 2}; const bool d[] = {0, 1, 1, 1, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8"}; All<DefaultIOTraits, c19::S7>::run(c, "DefaultIOTraits S7", p, d, nm, 7); } break;
 case 5: { const int p[] = {2, 3, 1, 6, 5, 4}; const bool d[] = {1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m2", "m3", "m1", "m6", "m5", "m4"}; All<DefaultArithmeticTraits, c19::S7>::run(c, "DefaultArithmeticTraits S7", p, d, nm, 7); } break;
 case 6: { const int p[] = {0, 1, 2, 3}; const bool d[] = {1, 1, 1, 1}; const char* const nm[] = {"x, y 0", "x, y 1", "( 2", "a 3"}; All<DefaultTraits, c19::S4>::run(c, "DefaultTraits S4", p, d, nm, 4); } break;
 case 7: { const int p[] = {3, 1, 2, 0}; const bool d[] = {0, 0, 1, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1"}; All<DefaultIOTraits, c19::S4>::run(c, "DefaultIOTraits S4", p, d, nm, 4); } break;
 case 8: { const int p[] = {1, 3, 2, 0}; const bool d[] = {1, 1, 1, 1}; const char* const nm[] = {"m1", "m3", "m2", "m0"}; All<DefaultArithmeticTraits, c19::S4>::run(c, "DefaultArithmeticTraits S4", p, d, nm, 4); } break;
 case 9: { const int p[] = {0, 1, 2, 3}; const bool d[] = {0, 0, 1, 0}; const char* const nm[] = {"c0", "c7", "c14", "c1"}; All<DefaultTraits, c19::T4<float, long>>::run(c, "DefaultTraits T4<float, long>", p, d, nm, 4); } break;
 case 10: { const int p[] = {0, 1}; const bool d[] = {1, 1}; const char* const nm[] = {"m0", "m1"}; All<DefaultIOTraits, c19::T4<float, long>>::run(c, "DefaultIOTraits T4<float, long>", p, d, nm, 4); } break;
 case 11: { const int p[] = {2, 1, 0, 3}; const bool d[] = {1, 1, 1, 1}; const char* const nm[] = {"name 0", " 1", "name 2", " 3"}; All<DefaultArithmeticTraits, c19::T4<float, long>>::run(c, "DefaultArithmeticTraits T4<float, long>", p, d, nm, 4); } break;
 case 12: { const int p[] = {0, 1, 2}; const bool d[] = {1, 1, 1}; const char* const nm[] = {"( 0", "x, y 1", "name 2"}; All<DefaultTraits, c19::T3<float, long>>::run(c, "DefaultTraits T3<float, long>", p, d, nm, 3); } break;
 case 13: { const int p[] = {2, 1, 0}; const bool d[] = {1, 0, 0}; const char* const nm[] = {"c0", "c7", "c14"}; All<DefaultIOTraits, c19::T3<float, long>>::run(c, "DefaultIOTraits T3<float, long>", p, d, nm, 3); } break;
 case 14: { const int p[] = {0, 2, 1}; const bool d[] = {1, 1, 1}; const char* const nm[] = {"m0", "m2", "m1"}; All<DefaultArithmeticTraits, c19::T3<float, long>>::run(c, "DefaultArithmeticTraits T3<float, long>", p, d, nm, 3); } break;
 case 15: { const int p[] = {0, 1}; const bool d[] = {1, 1}; const char* const nm[] = {"m0", "m1"}; All<DefaultTraits, c19::T2<float, long>>::run(c, "DefaultTraits T2<float, long>", p, d, nm, 2); } break;
 case 16: { const int p[] = {0, 1}; const bool d[] = {1, 1}; const char* const nm[] = {"( 0", "name 1"}; All<DefaultIOTraits, c19::T2<float, long>>::run(c, "DefaultIOTraits T2<float, long>", p, d, nm, 2); } break;
 case 17: { const int p[] = {0, 1}; const bool d[] = {0, 1}; const char* const nm[] = {"c0", "c7"}; All<DefaultArithmeticTraits, c19::T2<float, long>>::run(c, "DefaultArithmeticTraits T2<float, long>", p, d, nm, 2); } break;
 case 18: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"x, y 0"}; All<DefaultTraits, c19::S1>::run(c, "DefaultTraits S1", p, d, nm, 1); } break;
 case 19: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"c0"}; All<DefaultIOTraits, c19::S1>::run(c, "DefaultIOTraits S1", p, d, nm, 1); } break;
 case 20: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"m0"}; All<DefaultArithmeticTraits, c19::S1>::run(c, "DefaultArithmeticTraits S1", p, d, nm, 1); } break;
} }
