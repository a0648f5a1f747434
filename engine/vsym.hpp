// vsym.hpp -- verification-condition generator by instantiation of the real templates.
//
// The real /repo headers are compiled unmodified with the scalar type replaced by vsym::real
// (symbolic build) or left as double (concrete build, used to replay counterexamples).
// A contract harness is:   inputs -> requires_() -> call of the real function -> ensures_*().
//
// C++98 on purpose: the library under verification is C++98 and is compiled as such.
#ifndef VSYM_HPP
#define VSYM_HPP

#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cassert>
#include <climits>
#include <limits>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <stack>
#include <queue>
#include <algorithm>
#include <functional>
#include <iterator>
#include <utility>
#include <numeric>
#include <stdexcept>
#include <exception>
#include <typeinfo>
#include <new>

namespace vsym
{
  typedef double builtin_double;

  struct cut_path {};           // thrown to abandon the current path (precondition false / infeasible)

  // ---- contract registry ------------------------------------------------------------------
  typedef void (*contract_fn)();
  struct registrar { registrar(char const * name, char const * functions, contract_fn fn); };

#ifndef VSYM_CONCRETE
  // ============================ symbolic build ===============================================
  struct sbool;

  // nodes: see vsym.cpp
  int mk_const_int(long v);
  int mk_const_double(builtin_double v);
  int mk_bin(int op, int a, int b);          // '+','-','*','/'
  int mk_neg(int a);
  int mk_fun(char const * f, int a);
  int mk_fun2(char const * f, int a, int b);
  int mk_cmp(int op, int a, int b);          // '<' , '=' (<=: 'l')
  int mk_not(int a);
  int mk_and(int a, int b);
  int mk_or(int a, int b);
  int mk_boolconst(bool b);
  bool decide(int cond);                     // fork
  bool decided_true(int cond);               // true iff the condition is already fixed true on this path (no fork)
  int mk_input(char const * name);
  std::string show(int id);

  struct sbool
  {
    int id;
    sbool() : id(mk_boolconst(false)) {}
    sbool(bool b) : id(mk_boolconst(b)) {}
    struct raw {}; sbool(raw, int i) : id(i) {}
    operator bool() const { return decide(id); }
  };
  inline sbool mkb(int i) { return sbool(sbool::raw(), i); }
  // non-forking connectives for contract formulas
  inline sbool And(sbool a, sbool b) { return mkb(mk_and(a.id, b.id)); }
  inline sbool And(sbool a, sbool b, sbool c) { return And(a, And(b, c)); }
  inline sbool And(sbool a, sbool b, sbool c, sbool d) { return And(And(a,b), And(c, d)); }
  inline sbool Or(sbool a, sbool b)  { return mkb(mk_or(a.id, b.id)); }
  inline sbool Or(sbool a, sbool b, sbool c)  { return Or(a, Or(b,c)); }
  inline sbool Not(sbool a)          { return mkb(mk_not(a.id)); }
  inline sbool Implies(sbool a, sbool b) { return Or(Not(a), b); }
  inline sbool Iff(sbool a, sbool b) { return And(Implies(a,b), Implies(b,a)); }

  struct real
  {
    int id;
    real() : id(mk_const_int(0)) {}
    real(int v) : id(mk_const_int(v)) {}
    real(unsigned v) : id(mk_const_int((long)v)) {}
    real(long v) : id(mk_const_int(v)) {}
    real(unsigned long v) : id(mk_const_int((long)v)) {}
    real(builtin_double v) : id(mk_const_double(v)) {}
    real(float v) : id(mk_const_double(v)) {}
    struct raw {}; real(raw, int i) : id(i) {}
    real & operator+=(real const & o) { id = mk_bin('+', id, o.id); return *this; }
    real & operator-=(real const & o) { id = mk_bin('-', id, o.id); return *this; }
    real & operator*=(real const & o) { id = mk_bin('*', id, o.id); return *this; }
    real & operator/=(real const & o) { id = mk_bin('/', id, o.id); return *this; }
    real operator-() const;
    real operator+() const { return *this; }
    real & operator++() { id = mk_bin('+', id, mk_const_int(1)); return *this; }
    real & operator--() { id = mk_bin('-', id, mk_const_int(1)); return *this; }
  };
  inline real mkr(int i) { return real(real::raw(), i); }
  inline real real::operator-() const { return mkr(mk_neg(id)); }
  inline real operator+(real const & a, real const & b) { return mkr(mk_bin('+', a.id, b.id)); }
  inline real operator-(real const & a, real const & b) { return mkr(mk_bin('-', a.id, b.id)); }
  inline real operator*(real const & a, real const & b) { return mkr(mk_bin('*', a.id, b.id)); }
  inline real operator/(real const & a, real const & b) { return mkr(mk_bin('/', a.id, b.id)); }
  inline sbool operator<(real const & a, real const & b)  { return mkb(mk_cmp('<', a.id, b.id)); }
  inline sbool operator>(real const & a, real const & b)  { return mkb(mk_cmp('<', b.id, a.id)); }
  inline sbool operator<=(real const & a, real const & b) { return mkb(mk_not(mk_cmp('<', b.id, a.id))); }
  inline sbool operator>=(real const & a, real const & b) { return mkb(mk_not(mk_cmp('<', a.id, b.id))); }
  inline sbool operator==(real const & a, real const & b) { return mkb(mk_cmp('=', a.id, b.id)); }
  inline sbool operator!=(real const & a, real const & b) { return mkb(mk_not(mk_cmp('=', a.id, b.id))); }

  real abs(real const & x);
  inline real fabs(real const & x) { return abs(x); }
  inline real sqrt(real const & x)  { return mkr(mk_fun("sqrt", x.id)); }
  inline real sin(real const & x)   { return mkr(mk_fun("sin", x.id)); }
  inline real cos(real const & x)   { return mkr(mk_fun("cos", x.id)); }
  inline real acos(real const & x)  { return mkr(mk_fun("acos", x.id)); }
  inline real atan2(real const & y, real const & x) { return mkr(mk_fun2("atan2", y.id, x.id)); }
  inline real pow2(real const & x) { return x*x; }
  real pow(real const & x, int n);
  inline std::ostream & operator<<(std::ostream & os, real const & r) { return os << "<sym" << r.id << ">"; }
  inline std::istream & operator>>(std::istream & is, real &) { return is; }

  // ---- contract primitives -----------------------------------------------------------------
  real input(char const * name);
  void requires_(sbool b);                        // assumption; path is cut if infeasible
  void lemma_(char const * name, sbool b);        // obligation, then available as a fact
  void ensures(char const * name, sbool b);
  void ensures_eq(char const * name, real const & a, real const & b);
  void ensures_le(char const * name, real const & a, real const & b);
  void cover(char const * name);                  // reachability marker: must be reached on some feasible path
  inline bool symbolic() { return true; }
  // abstract: replaces a term by a fresh variable constrained only by facts stated afterwards (proof hint)
  real generalize(char const * name, real const & t);
#else
  // ============================ concrete build (replay) =======================================
  typedef double real;
  typedef bool sbool;
  inline bool And(bool a, bool b) { return a && b; }
  inline bool And(bool a, bool b, bool c) { return a && b && c; }
  inline bool And(bool a, bool b, bool c, bool d) { return a && b && c && d; }
  inline bool Or(bool a, bool b) { return a || b; }
  inline bool Or(bool a, bool b, bool c) { return a || b || c; }
  inline bool Not(bool a) { return !a; }
  inline bool Implies(bool a, bool b) { return !a || b; }
  inline bool Iff(bool a, bool b) { return a == b; }
  inline real generalize(char const *, real t) { return t; }
  using std::abs; using std::fabs; using std::sqrt; using std::sin; using std::cos; using std::acos; using std::atan2;
  real input(char const * name);
  void requires_(bool b);
  void lemma_(char const * name, bool b);
  void ensures(char const * name, bool b);
  void ensures_eq(char const * name, real a, real b);
  void ensures_le(char const * name, real a, real b);
  void cover(char const * name);
  inline bool symbolic() { return false; }
#endif

#ifndef VSYM_CONCRETE
  // while on: every division by a non-constant term generates the obligation "no_division_by_zero"
  void check_division(bool on);
#else
  inline void check_division(bool) {}
#endif
  // finite nondeterministic choice 0..n-1: exhaustively enumerated in the symbolic build (complete for finite domains)
  int choose(char const * name, int n);
  // integer/boolean obligations on concrete state (decided directly)
  void ensures_true(char const * name, bool b);
  void note_failure_context(std::string const & s);
}

#define CONTRACT(NAME, FUNCTIONS) \
  static void contract_##NAME(); \
  static ::vsym::registrar reg_##NAME(#NAME, FUNCTIONS, &contract_##NAME); \
  static void contract_##NAME()

#ifndef VSYM_CONCRETE
namespace std
{
  inline vsym::real abs(vsym::real const & x) { return vsym::abs(x); }
  inline vsym::real fabs(vsym::real const & x) { return vsym::abs(x); }
  inline vsym::real sqrt(vsym::real const & x) { return vsym::sqrt(x); }
  inline vsym::real sin(vsym::real const & x) { return vsym::sin(x); }
  inline vsym::real cos(vsym::real const & x) { return vsym::cos(x); }
  inline vsym::real acos(vsym::real const & x) { return vsym::acos(x); }
  inline vsym::real atan2(vsym::real const & y, vsym::real const & x) { return vsym::atan2(y, x); }
  inline vsym::real pow(vsym::real const & x, int n) { return vsym::pow(x, n); }
  template<> struct numeric_limits<vsym::real>
  {
    static const bool is_specialized = true;
    static const bool is_signed = true;
    static const bool is_integer = false;
    static const bool is_exact = false;
    static vsym::real epsilon() { return vsym::real((vsym::builtin_double)2.220446049250313080847263336181640625e-16); }
    static vsym::real max() { return vsym::real((vsym::builtin_double)1.7976931348623157e308); }
    static vsym::real min() { return vsym::real((vsym::builtin_double)2.2250738585072014e-308); }
  };
}
#define double vsym::real
#endif

#endif
