// generated by tools/gen19.py
namespace c19 {
struct S20 { short m0; float m1; double m2; short m3; unsigned char m4; float m5; long long m6; double m7; long m8; float m9; long long m10; long m11; long long m12; long long m13; short m14; int m15; long m16; double m17; short m18; float m19; double spare = 7;
 short g0() const { return m0; } void s0(const short& x) { m0 = x; } float g1() const { return m1; } void s1(const float& x) { m1 = x; } double g2() const { return m2; } void s2(const double& x) { m2 = x; } short g3() const { return m3; } void s3(const short& x) { m3 = x; } unsigned char g4() const { return m4; } void s4(const unsigned char& x) { m4 = x; } float g5() const { return m5; } void s5(const float& x) { m5 = x; } long long g6() const { return m6; } void s6(const long long& x) { m6 = x; } double g7() const { return m7; } void s7(const double& x) { m7 = x; } long g8() const { return m8; } void s8(const long& x) { m8 = x; } float g9() const { return m9; } void s9(const float& x) { m9 = x; } long long g10() const { return m10; } void s10(const long long& x) { m10 = x; } long g11() const { return m11; } void s11(const long& x) { m11 = x; } long long g12() const { return m12; } void s12(const long long& x) { m12 = x; } long long g13() const { return m13; } void s13(const long long& x) { m13 = x; } short g14() const { return m14; } void s14(const short& x) { m14 = x; } int g15() const { return m15; } void s15(const int& x) { m15 = x; } long g16() const { return m16; } void s16(const long& x) { m16 = x; } double g17() const { return m17; } void s17(const double& x) { m17 = x; } short g18() const { return m18; } void s18(const short& x) { m18 = x; } float g19() const { return m19; } void s19(const float& x) { m19 = x; }
 double at(int i) const { switch (i) { case 0: return double(m0); case 1: return double(m1); case 2: return double(m2); case 3: return double(m3); case 4: return double(m4); case 5: return double(m5); case 6: return double(m6); case 7: return double(m7); case 8: return double(m8); case 9: return double(m9); case 10: return double(m10); case 11: return double(m11); case 12: return double(m12); case 13: return double(m13); case 14: return double(m14); case 15: return double(m15); case 16: return double(m16); case 17: return double(m17); case 18: return double(m18); case 19: return double(m19); default: return spare; } }
 void put(int i, double d) { switch (i) { case 0: m0 = (short)(d); break; case 1: m1 = (float)(d); break; case 2: m2 = (double)(d); break; case 3: m3 = (short)(d); break; case 4: m4 = (unsigned char)(d); break; case 5: m5 = (float)(d); break; case 6: m6 = (long long)(d); break; case 7: m7 = (double)(d); break; case 8: m8 = (long)(d); break; case 9: m9 = (float)(d); break; case 10: m10 = (long long)(d); break; case 11: m11 = (long)(d); break; case 12: m12 = (long long)(d); break; case 13: m13 = (long long)(d); break; case 14: m14 = (short)(d); break; case 15: m15 = (int)(d); break; case 16: m16 = (long)(d); break; case 17: m17 = (double)(d); break; case 18: m18 = (short)(d); break; case 19: m19 = (float)(d); break; default: spare = d; } } };
}
MAKE_CUSTOM_TRAIT(c19::S20, "c0", (&c19::S20::m15), "c7", (std::make_pair(&c19::S20::g12, &c19::S20::s12)), "c14", (&c19::S20::m14), "c1", (&c19::S20::m0), "c8", (&c19::S20::m6), "c15", (std::make_pair(&c19::S20::g8, &c19::S20::s8)), "c2", (std::make_pair(&c19::S20::g9, &c19::S20::s9)), "c9", (std::make_pair(&c19::S20::g11, &c19::S20::s11)), "c16", (std::make_pair(&c19::S20::g10, &c19::S20::s10)), "c3", (std::make_pair(&c19::S20::g7, &c19::S20::s7)), "c10", (std::make_pair(&c19::S20::g18, &c19::S20::s18)), "c17", (std::make_pair(&c19::S20::g1, &c19::S20::s1)), "c4", (&c19::S20::m5), "c11", (&c19::S20::m19), "c18", (&c19::S20::m16), "c5", (&c19::S20::m4), "c12", (&c19::S20::m13), "c19", (&c19::S20::m2), "c6", (std::make_pair(&c19::S20::g3, &c19::S20::s3)), "c13", (&c19::S20::m17));
MAKE_ATTRIBUTE_TRAIT_IO(c19::S20, m18, m7, m9, m12, m15, m13, m2, m10, m19, m0, m17, m8, m14, m6, m4, m1, m11, m5, m3, m16);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(c19::S20, "x, y 0", m14, "( 1", m4, "( 2", m2, "name 3", m7, " 4", m3, "a 5", m15, "a 6", m17, " 7", m12, "x, y 8", m13, "x, y 9", m10, "x, y 10", m6, "a 11", m1, "name 12", m18, "a 13", m0, " 14", m5, "x, y 15", m16, "a 16", m11, "name 17", m8, " 18", m9, "name 19", m19);
static void classes0(vh::Case& c) { switch (c.index % 3) {
 case 0: { const int p[] = {15, 12, 14, 0, 6, 8, 9, 11, 10, 7, 18, 1, 5, 19, 16, 4, 13, 2, 3, 17}; const bool d[] = {1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 1}; const char* const nm[] = {"c0", "c7", "c14", "c1", "c8", "c15", "c2", "c9", "c16", "c3", "c10", "c17", "c4", "c11", "c18", "c5", "c12", "c19", "c6", "c13"}; All<DefaultTraits, c19::S20>::run(c, "DefaultTraits S20", p, d, nm, 20); } break;
 case 1: { const int p[] = {18, 7, 9, 12, 15, 13, 2, 10, 19, 0, 17, 8, 14, 6, 4, 1, 11, 5, 3, 16}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"m18", "m7", "m9", "m12", "m15", "m13", "m2", "m10", "m19", "m0", "m17", "m8", "m14", "m6", "m4", "m1", "m11", "m5", "m3", "m16"}; All<DefaultIOTraits, c19::S20>::run(c, "DefaultIOTraits S20", p, d, nm, 20); } break;
 case 2: { const int p[] = {14, 4, 2, 7, 3, 15, 17, 12, 13, 10, 6, 1, 18, 0, 5, 16, 11, 8, 9, 19}; const bool d[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; const char* const nm[] = {"x, y 0", "( 1", "( 2", "name 3", " 4", "a 5", "a 6", " 7", "x, y 8", "x, y 9", "x, y 10", "a 11", "name 12", "a 13", " 14", "x, y 15", "a 16", "name 17", " 18", "name 19"}; All<DefaultArithmeticTraits, c19::S20>::run(c, "DefaultArithmeticTraits S20", p, d, nm, 20); } break;
} }
