// generated by tools/gen19.py
namespace c19 {
struct S12 { unsigned m0; float m1; float m2; float m3; int m4; unsigned m5; double m6; double m7; long long m8; long m9; unsigned m10; int m11; double spare = 7;
 unsigned g0() const { return m0; } void s0(const unsigned& x) { m0 = x; } float g1() const { return m1; } void s1(const float& x) { m1 = x; } float g2() const { return m2; } void s2(const float& x) { m2 = x; } float g3() const { return m3; } void s3(const float& x) { m3 = x; } int g4() const { return m4; } void s4(const int& x) { m4 = x; } unsigned g5() const { return m5; } void s5(const unsigned& x) { m5 = x; } double g6() const { return m6; } void s6(const double& x) { m6 = x; } double g7() const { return m7; } void s7(const double& x) { m7 = x; } long long g8() const { return m8; } void s8(const long long& x) { m8 = x; } long g9() const { return m9; } void s9(const long& x) { m9 = x; } unsigned g10() const { return m10; } void s10(const unsigned& x) { m10 = x; } int g11() const { return m11; } void s11(const int& x) { m11 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); case 7: return double(m7); case 8: return double(m8); case 9: return double(m9); case 10: return double(m10); case 11: return double(m11); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (unsigned)(d); break; case 1: m1 = (float)(d); break; case 2: m2 = (float)(d); break; case 3: m3 = (float)(d); break; case 4: m4 = (int)(d); break; case 5: m5 = (unsigned)(d); break; case 6: m6 = (double)(d); break; case 7: m7 = (double)(d); break; case 8: m8 = (long long)(d); break; case 9: m9 = (long)(d); break; case 10: m10 = (unsigned)(d); break; case 11: m11 = (int)(d); break; default: spare = d; } } };
template<class A, class B> struct T7 { B m0; A m1; B m2; B m3; B m4; B m5; B m6; double spare = 7;
 B g0() const { return m0; } void s0(const B& x) { m0 = x; } A g1() const { return m1; } void s1(const A& x) { m1 = x; } B g2() const { return m2; } void s2(const B& x) { m2 = x; } B g3() const { return m3; } void s3(const B& x) { m3 = x; } B g4() const { return m4; } void s4(const B& x) { m4 = x; } B g5() const { return m5; } void s5(const B& x) { m5 = x; } B g6() const { return m6; } void s6(const B& x) { m6 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (B)(d); break; case 1: m1 = (A)(d); break; case 2: m2 = (B)(d); break; case 3: m3 = (B)(d); break; case 4: m4 = (B)(d); break; case 5: m5 = (B)(d); break; case 6: m6 = (B)(d); break; default: spare = d; } } };
struct S3 { double m0; short m1; unsigned m2; double spare = 7;
 double g0() const { return m0; } void s0(const double& x) { m0 = x; } short g1() const { return m1; } void s1(const short& x) { m1 = x; } unsigned g2() const { return m2; } void s2(const unsigned& x) { m2 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (double)(d); break; case 1: m1 = (short)(d); break; case 2: m2 = (unsigned)(d); break; default: spare = d; } } };
template<class A, class B> struct T1 { A m0; double spare = 7;
 A g0() const { return m0; } void s0(const A& x) { m0 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (A)(d); break; default: spare = d; } } };
struct S2 { double m0; unsigned m1; double spare = 7;
 double g0() const { return m0; } void s0(const double& x) { m0 = x; } unsigned g1() const { return m1; } void s1(const unsigned& x) { m1 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (double)(d); break; case 1: m1 = (unsigned)(d); break; default: spare = d; } } };
}
MAKE_ATTRIBUTE_TRAIT(c19::S12, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(c19::S12, "a 0", m3, "name 1", m4, "x, y 2", m11, "name 3", m2, "name 4", m10, "a 5", m8, "x, y 6", m6, "( 7", m9, " 8", m5, "a 9", m1);
MAKE_CUSTOM_TRAIT_ARITHMETIC(c19::S12, "c0", (&c19::S12::m3), "c7", (&c19::S12::m4), "c14", (std::make_pair(&c19::S12::g5, &c19::S12::s5)), "c1", (std::make_pair(&c19::S12::g0, &c19::S12::s0)), "c8", (&c19::S12::m7), "c15", (std::make_pair(&c19::S12::g2, &c19::S12::s2)), "c2", (&c19::S12::m10), "c9", (std::make_pair(&c19::S12::g6, &c19::S12::s6)), "c16", (&c19::S12::m9), "c3", (&c19::S12::m1), "c10", (&c19::S12::m11), "c17", (&c19::S12::m8));
MAKE_CUSTOM_TEMPLATE_TRAIT((c19::T7<A, B>), (class A, class B), "c0", (&c19::T7<A, B>::m0), "c7", (&c19::T7<A, B>::m1), "c14", (&c19::T7<A, B>::m2), "c1", (&c19::T7<A, B>::m3), "c8", (&c19::T7<A, B>::m4), "c15", (std::make_pair(&c19::T7<A, B>::g5, &c19::T7<A, B>::s5)), "c2", (&c19::T7<A, B>::m6));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((c19::T7<A, B>), (class A, class B), m1, m3, m4, m2, m6, m5, m0);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((c19::T7<A, B>), (class A, class B), " 0", m6, " 1", m1, "( 2", m4, " 3", m3, "( 4", m0);
MAKE_ATTRIBUTE_TRAIT(c19::S3, m0, m1, m2);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(c19::S3, "a 0", m1, "x, y 1", m0, "( 2", m2);
MAKE_CUSTOM_TRAIT_ARITHMETIC(c19::S3, "c0", (std::make_pair(&c19::S3::g0, &c19::S3::s0)));
MAKE_CUSTOM_TEMPLATE_TRAIT((c19::T1<A, B>), (class A, class B), "c0", (&c19::T1<A, B>::m0));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((c19::T1<A, B>), (class A, class B), m0);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((c19::T1<A, B>), (class A, class B), "name 0", m0);
MAKE_CUSTOM_TRAIT(c19::S2, "c0", (&c19::S2::m0), "c7", (std::make_pair(&c19::S2::g1, &c19::S2::s1)));
MAKE_ATTRIBUTE_TRAIT_IO(c19::S2, m0, m1);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(c19::S2, " 0", m1, "a 1", m0);
static void classes2(vh::Case& c) { switch (c.index % 15) {
 case 0: { const int p[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11"}; All<DefaultTraits, c19::S12>::run(c, "DefaultTraits S12", p, d, nm, 12); } break;
 case 1: { const int p[] = {3, 4, 11, 2, 10, 8, 6, 9, 5, 1}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"a 0", "name 1", "x, y 2", "name 3", "name 4", "a 5", "x, y 6", "( 7", " 8", "a 9"}; All<DefaultIOTraits, c19::S12>::run(c, "DefaultIOTraits S12", p, d, nm, 12); } break;
 case 2: { const int p[] = {3, 4, 5, 0, 7, 2, 10, 6, 9, 1, 11, 8}; const bool d[] = {1, 1, 0, 0, 1, 0, 1, 0, 1, 1, 1, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8", "c15", "c2", "c9", "c16", "c3", "c10", "c17"}; All<DefaultArithmeticTraits, c19::S12>::run(c, "DefaultArithmeticTraits S12", p, d, nm, 12); } break;
 case 3: { const int p[] = {0, 1, 2, 3, 4, 5, 6}; const bool d[] = {1, 1, 1, 1, 1, 0, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8", "c15", "c2"}; All<DefaultTraits, c19::T7<float, long>>::run(c, "DefaultTraits T7<float, long>", p, d, nm, 7); } break;
 case 4: { const int p[] = {1, 3, 4, 2, 6, 5, 0}; const bool d[] = {1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m1", "m3", "m4", "m2", "m6", "m5", "m0"}; All<DefaultIOTraits, c19::T7<float, long>>::run(c, "DefaultIOTraits T7<float, long>", p, d, nm, 7); } break;
 case 5: { const int p[] = {6, 1, 4, 3, 0}; const bool d[] = {1, 1, 1, 1, 1}; const char* const nm[] = {" 0", " 1", "( 2", " 3", "( 4"}; All<DefaultArithmeticTraits, c19::T7<float, long>>::run(c, "DefaultArithmeticTraits T7<float, long>", p, d, nm, 7); } break;
 case 6: { const int p[] = {0, 1, 2}; const bool d[] = {1, 1, 1}; const char* const nm[] = {"m0", "m1", "m2"}; All<DefaultTraits, c19::S3>::run(c, "DefaultTraits S3", p, d, nm, 3); } break;
 case 7: { const int p[] = {1, 0, 2}; const bool d[] = {1, 1, 1}; const char* const nm[] = {"a 0", "x, y 1", "( 2"}; All<DefaultIOTraits, c19::S3>::run(c, "DefaultIOTraits S3", p, d, nm, 3); } break;
 case 8: { const int p[] = {0}; const bool d[] = {0}; const char* const nm[] = {"c0"}; All<DefaultArithmeticTraits, c19::S3>::run(c, "DefaultArithmeticTraits S3", p, d, nm, 3); } break;
 case 9: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"c0"}; All<DefaultTraits, c19::T1<float, long>>::run(c, "DefaultTraits T1<float, long>", p, d, nm, 1); } break;
 case 10: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"m0"}; All<DefaultIOTraits, c19::T1<float, long>>::run(c, "DefaultIOTraits T1<float, long>", p, d, nm, 1); } break;
 case 11: { const int p[] = {0}; const bool d[] = {1}; const char* const nm[] = {"name 0"}; All<DefaultArithmeticTraits, c19::T1<float, long>>::run(c, "DefaultArithmeticTraits T1<float, long>", p, d, nm, 1); } break;
 case 12: { const int p[] = {0, 1}; const bool d[] = {1, 0}; const char* const nm[] = {"c0", "c7"}; All<DefaultTraits, c19::S2>::run(c, "DefaultTraits S2", p, d, nm, 2); } break;
 case 13: { const int p[] = {0, 1}; const bool d[] = {1, 1}; const char* const nm[] = {"m0", "m1"}; All<DefaultIOTraits, c19::S2>::run(c, "DefaultIOTraits S2", p, d, nm, 2); } break;
 case 14: { const int p[] = {1, 0}; const bool d[] = {1, 1}; const char* const nm[] = {" 0", "a 1"}; All<DefaultArithmeticTraits, c19::S2>::run(c, "DefaultArithmeticTraits S2", p, d, nm, 2); } break;
} }
