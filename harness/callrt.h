#ifndef CALLRT_H
#define CALLRT_H
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <stdexcept>
#if __cplusplus >= 201103L
#include <functional>
#endif
struct Obj; struct B1; struct B2;
using std::string;
using std::vector;
typedef vector<int> vec;
template <class T> struct Cv { static T mk(int n) { return T(n); } static int un(T x) { return int(x); } };
template <> struct Cv<bool> { static bool mk(int n) { return n % 2 != 0; } static int un(bool x) { return x; } };
template <> struct Cv<char> { static char mk(int n) { return char(n % 128); } static int un(char x) { return x; } };
template <> struct Cv<double> { static double mk(int n) { return n; } static int un(double x) { return int(x); } };
template <> struct Cv<string> {
  static string mk(int n) { std::ostringstream o; o << "s" << n << string(n % 7 * 5, 'x'); return o.str(); }
  static int un(const string& s) { int n = s.size() > 1 ? atoi(s.c_str() + 1) : -1; return n >= 0 && s == mk(n) ? n : -999; }
};
template <> struct Cv<vec> {
  static vec mk(int n) { vec v(1, n); for (int i = 0; i < n % 5; i++) v.push_back(n + i); return v; }
  static int un(const vec& v) { return !v.empty() && v == mk(v[0]) ? v[0] : -999; }
};
template <> struct Cv<P> { static P mk(int n) { return P(n); } static int un(const P& p) { return p.b == -p.a ? p.a : -999; } };
template <> struct Cv<E> { static E mk(int n) { return E(n % 3); } static int un(E e) { return e; } };
// any type of argument
struct Val {
  int n;
  Val(int n = 0): n(n) {}
  operator int() const { return n; }
  operator short() const { return Cv<short>::mk(n); }
  operator long() const { return n; }
  operator char() const { return Cv<char>::mk(n); }
  operator bool() const { return Cv<bool>::mk(n); }
  operator double() const { return n; }
  operator float() const { return n; }
  operator string() const { return Cv<string>::mk(n); }
  operator vec() const { return Cv<vec>::mk(n); }
  operator P() const { return Cv<P>::mk(n); }
  operator E() const { return Cv<E>::mk(n); }
};
struct Call { int f, o; vector<int> a; };
extern vector<Call> calls;
inline void called(int f, int o, const int* a, int n) { Call c; c.f = f; c.o = o; c.a.assign(a, a + n); calls.push_back(c); }
inline int weigh(const int* a, int n) { int s = 0; for (int i = 0; i < n; i++) s += (i + 1) * a[i]; return s; }
template <class T> struct Nm;
#define NM(T) template <> struct Nm<T> { static const char* s() { return #T; } };
NM(void) NM(int) NM(short) NM(long) NM(char) NM(bool) NM(double) NM(float) NM(string) NM(vec) NM(P) NM(E) NM(B1) NM(B2) NM(Obj)
template <class T> struct Nm<T&> { static string s() { return string(Nm<T>::s()) + "&"; } };
template <class T> struct Nm<const T> { static string s() { return string("const ") + Nm<T>::s(); } };
inline string list(const vector<int>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
// the value returned: of type R, or nothing, or (on a reference) where it is
template <class R> struct Got { static string s(const R& r, const void*) { std::ostringstream o; o << "[" << Cv<R>::un(r) << "]"; return o.str(); } };
template <class R> struct Got<const R&> { static string s(const R& r, const void* at) { std::ostringstream o; o << "[" << Cv<R>::un(r) << "," << (&r == at) << "]"; return o.str(); } };
template <class R> struct Got<R&> { static string s(R& r, const void* at) { std::ostringstream o; o << "[" << Cv<R>::un(r) << "," << (&r == at) << "]"; return o.str(); } };
#endif
