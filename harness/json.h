// Strict JSON parser and structural comparison of parsed data with the recorded C++ values.
#ifndef VJSON_H
#define VJSON_H
#include "C29.h"
namespace js {
struct J { enum K { nul, boolean, number, text, array, object } k = nul; bool b = false; std::string s; std::vector<J> a; std::vector<std::string> keys; };
struct Parser {
    const std::string& t; size_t p, end; bool trailingComma; // trailing commas of arrays are allowed in JavaScript
    [[noreturn]] void bad(const std::string& m) { throw std::runtime_error(m + " at " + std::to_string(p) + ": ..." + t.substr(p > 30 ? p - 30 : 0, 70) + "..."); }
    void ws() { while (p < end && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    char peek() { ws(); if (p >= end) bad("unexpected end"); return t[p]; }
    void need(char c) { if (peek() != c) bad(std::string("expected ") + c); p++; }
    std::string str() {
        need('"'); std::string r;
        for (;;) {
            if (p >= end) bad("unterminated text");
            unsigned char c = (unsigned char)t[p++];
            if (c == '"') return r;
            if (c < 0x20) bad("raw control character in a text");
            if (c != '\\') { r += char(c); continue; }
            if (p >= end) bad("unterminated escape");
            switch (t[p++]) {
            case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
            case 'u': { if (p + 4 > end) bad("short \\u"); unsigned v = 0; for (int i = 0; i < 4; i++) { char h = t[p++]; v = v * 16 + (h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : (bad("bad \\u"), 0)); } if (v > 0x7f) bad("unexpected \\u beyond ASCII"); r += char(v); break; }
            default: bad("unknown escape"); }
        }
    }
    J value() {
        J j; char c = peek();
        if (c == '"') { j.k = J::text; j.s = str(); }
        else if (c == '{') { j.k = J::object; p++; if (peek() == '}') { p++; return j; } for (;;) { ws(); j.keys.push_back(str()); need(':'); j.a.push_back(value()); if (peek() == ',') { p++; continue; } need('}'); break; } }
        else if (c == '[') { j.k = J::array; p++; if (peek() == ']') { p++; return j; } for (;;) { j.a.push_back(value()); if (peek() == ',') { p++; if (trailingComma && peek() == ']') { p++; break; } continue; } need(']'); break; } }
        else if (word("true")) { j.k = J::boolean; j.b = true; } else if (word("false")) { j.k = J::boolean; } else if (word("null")) {}
        else { size_t q = p; if (p < end && t[p] == '-') p++; size_t d = p; while (p < end && isdigit((unsigned char)t[p])) p++; if (d == p) bad("unexpected token"); if (t[d] == '0' && p - d > 1) bad("leading zero"); if (p < end && t[p] == '.') { size_t f = ++p; while (p < end && isdigit((unsigned char)t[p])) p++; if (f == p) bad("no digit after the point"); } if (p < end && (t[p] == 'e' || t[p] == 'E')) { p++; if (p < end && (t[p] == '+' || t[p] == '-')) p++; size_t f = p; while (p < end && isdigit((unsigned char)t[p])) p++; if (f == p) bad("no exponent"); } j.k = J::number; j.s = t.substr(q, p - q); }
        return j;
    }
    bool word(const char* w) { size_t n = strlen(w); if (p + n <= end && t.compare(p, n, w) == 0 && (p + n == end || !isalnum((unsigned char)t[p + n]))) { p += n; return true; } return false; }
    J document() { J j = value(); ws(); if (p != end) bad("text after the document"); return j; }
};
inline J parse(const std::string& t) { Parser p{t, 0, t.size(), false}; return p.document(); }
// ---- comparison with values
template<class T, class = void> struct Q;
template<class T> bool eq(const J& j, const T& t) { return Q<T>::eq(j, t); }
template<class T> bool fin(const T& t) { return Q<T>::fin(t); }
template<class T> struct Q<T, std::enable_if_t<std::is_arithmetic<T>::value>> { static bool eq(const J& j, T v) { return j.k == J::number && j.s == ve::num(v, ve::Fmt{6}); } static bool fin(T v) { return std::isfinite((long double)v); } };
#define QT(T, cond) static bool eq(const J& j, const T& v) { return cond; } static bool fin(const T&) { return true; }
template<> struct Q<bool> { QT(bool, j.k == J::boolean && j.b == v) };
template<> struct Q<char> { QT(char, j.k == J::text && j.s == std::string(1, v)) };
template<> struct Q<ve::E> { QT(ve::E, j.k == J::number && j.s == vh::str(int(v))) };
template<> struct Q<std::string> { QT(std::string, j.k == J::text && j.s == v) };
typedef const char* CP;
template<> struct Q<CP> { QT(CP, v ? j.k == J::text && j.s == v : j.k == J::nul) };
template<size_t N> struct Q<char[N]> { typedef char A[N]; QT(A, j.k == J::text && j.s == std::string(v, strnlen(v, N))) };
template<class C> bool seqEq(const J& j, const C& v) { if (j.k != J::array) return false; size_t i = 0; for (const auto& x : v) { if (i >= j.a.size() || !eq(j.a[i], x)) return false; i++; } return i == j.a.size(); }
template<class C> bool seqFin(const C& v) { for (const auto& x : v) if (!fin(x)) return false; return true; }
#define QS(sig, ...) template<sig> struct Q<__VA_ARGS__> { static bool eq(const J& j, const __VA_ARGS__& v) { return seqEq(j, v); } static bool fin(const __VA_ARGS__& v) { return seqFin(v); } };
QS(class T, std::vector<T>) QS(class T, std::list<T>) QS(class T, std::deque<T>) QS(class T, std::set<T>) QS(class T, std::unordered_set<T>) QS(class T, std::valarray<T>) QS(class K COMMA class T, std::map<K, T>) QS(class K COMMA class T, std::unordered_map<K, T>) QS(class T COMMA size_t N, std::array<T, N>)
template<unsigned N, class R> struct Q<Vertex<N, R>> { static std::vector<R> w(const Vertex<N, R>& v) { std::vector<R> r; for (unsigned i = 0; i < N; i++) r.push_back(v[i]); return r; } static bool eq(const J& j, const Vertex<N, R>& v) { return js::eq(j, w(v)); } static bool fin(const Vertex<N, R>& v) { return js::fin(w(v)); } };
template<class A, class B> struct Q<std::pair<A, B>> { static bool eq(const J& j, const std::pair<A, B>& v) { return j.k == J::object && j.keys.size() == 1 && j.keys[0] == v.first && js::eq(j.a[0], v.second); } static bool fin(const std::pair<A, B>& v) { return js::fin(v.second); } };
template<class Tup, size_t I, size_t N> struct QTp { static bool eq(const J& j, const Tup& t) { return js::eq(j.a[I], std::get<I>(t)) && QTp<Tup, I + 1, N>::eq(j, t); } static bool fin(const Tup& t) { return js::fin(std::get<I>(t)) && QTp<Tup, I + 1, N>::fin(t); } };
template<class Tup, size_t N> struct QTp<Tup, N, N> { static bool eq(const J&, const Tup&) { return true; } static bool fin(const Tup&) { return true; } };
template<class... T> struct Q<std::tuple<T...>> { typedef std::tuple<T...> U; static bool eq(const J& j, const U& t) { return j.k == J::array && j.a.size() == sizeof...(T) && QTp<U, 0, sizeof...(T)>::eq(j, t); } static bool fin(const U& t) { return QTp<U, 0, sizeof...(T)>::fin(t); } };
// classes: every member as name and value
struct Ob { const J& j; size_t i = 0; bool ok = true; template<class T> Ob& m(const char* n, const T& v) { if (i >= j.a.size() || j.keys[i] != n || !eq(j.a[i], v)) ok = false; i++; return *this; } bool done() const { return ok && j.k == J::object && i == j.a.size(); } };
struct Fi { bool ok = true; template<class T> Fi& m(const char*, const T& v) { ok = ok && fin(v); return *this; } };
#define QC(T, calls) template<> struct Q<T> { static bool eq(const J& j, const T& o) { if (j.k != J::object) return false; Ob b{j}; b calls; return b.done(); } static bool fin(const T& o) { Fi b; b calls; return b.ok; } };
#define MM(n) .m(#n, o.n)
QC(ve::D, MM(a) MM(i)) QC(ve::One, .m("the \"only\" \\ one", o.s)) QC(ve::Nest, MM(d) MM(v) MM(s) MM(m) MM(t) MM(f) MM(c)) QC(ve::GS, .m("val", o.v) MM(k)) QC(ve::Weird, .m("", o.a).m("tab\tnew\nline", o.b).m("\x01\xc3\xa1", o.c)) QC(ve::Split, MM(io))
QC(ve::Tm<int>, MM(t) MM(v)) QC(ve::Tm<std::string>, MM(t) MM(v)) QC(ve::Tm<ve::Tm<int>>, MM(t) MM(v)) QC(ve::Many, MM(m0) MM(m1) MM(m2) MM(m3) MM(m4) MM(m5) MM(m6) MM(m7) MM(m8) MM(m9) MM(m10) MM(m11))
// a random value that JSON can represent
template<class T> T rnd(vh::Rng& r) { for (;;) { T v{}; ve::g(r, v); if (fin(v)) return v; } }
template<class T> struct Arr { T a; Arr(vh::Rng& r) { ve::g(r, a); } };
inline std::string name(vh::Rng& r) { std::string s; do ve::g(r, s); while (s.find('\0') != s.npos); if (r.chance(0.15)) s += "</script><!--"; if (r.chance(0.1)) s = "f(\"a\\n\", '\\'', x<y)"; return s; }
inline std::string file(vh::Rng& r) { std::string s; if (r.chance(0.3)) s = r.chance(0.5) ? "C:\\dir\\new\\t.cpp" : "\\\\srv\\x\"y\"\\f.h"; else if (r.chance(0.3)) s = "/home/u/src/file.cpp"; else do ve::g(r, s); while (s.find('\0') != s.npos); return s; }
inline bool slurp(const std::string& f, std::string& s) { std::ifstream i(f.c_str(), std::ios::binary); if (!i) return false; std::ostringstream o; o << i.rdbuf(); s = o.str(); return true; }
struct Rec { bool full; long group, line; std::string file, name; std::function<bool(const J&)> same; std::string text; };
template<class T> Rec rec(long group, long line, const std::string& file, const std::string& n, const T& v) { return Rec{true, group, line, file, n, [v](const J& j) { return eq(j, v); }, ve::m(v, ve::Fmt{6})}; }
} // namespace js
#endif
