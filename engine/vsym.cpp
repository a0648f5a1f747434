// vsym.cpp -- engine of the symbolic build: term DAG, rational-function normal forms, path exploration,
// obligation discharge (normal forms, sign facts, z3 in-process, SMT-LIB export for the portfolio).
#include <gmpxx.h>
#include <z3++.h>
#include <map>
#include <unordered_map>
#include <vector>
#include <string>
#include <memory>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <random>
#include <csignal>
#include <unistd.h>
#include <stdexcept>

namespace vsym
{
  typedef double builtin_double;
  struct cut_path {};
  typedef void (*contract_fn)();
  struct registrar { registrar(char const * name, char const * functions, contract_fn fn); };
  struct sbool { int id; sbool() {} };
  struct real { int id; real() {} };
  static sbool B(int i) { sbool b; b.id = i; return b; }
  static real R(int i) { real r; r.id = i; return r; }

  // ------------------------------------------------------------------ nodes
  enum Kind { K_CONST, K_VAR, K_ADD, K_MUL, K_DIV, K_NEG, K_FUN, K_LT, K_EQ, K_NOT, K_AND, K_OR, K_BOOL };
  struct Node { Kind k; int a, b; mpq_class q; std::string s; };
  static std::vector<Node> N;
  static std::map<std::string, int> hashcons;

  static int intern(Kind k, int a, int b, mpq_class const & q, std::string const & s)
  {
    std::string key = std::to_string((int)k) + ":" + std::to_string(a) + ":" + std::to_string(b) + ":" + (k == K_CONST ? q.get_str() : std::string()) + ":" + s;
    auto it = hashcons.find(key);
    if (it != hashcons.end()) return it->second;
    Node n; n.k = k; n.a = a; n.b = b; n.q = q; n.s = s;
    N.push_back(n);
    int id = (int)N.size() - 1;
    hashcons[key] = id;
    return id;
  }
  static int mk_q(mpq_class const & q) { return intern(K_CONST, -1, -1, q, ""); }
  int mk_const_int(long v) { return mk_q(mpq_class(v)); }

  // simplest rational that rounds to v (so that folded constants such as 1.0/3.0 mean 1/3)
  static mpq_class simplest_between(mpq_class lo, mpq_class hi)  // 0 < lo <= hi
  {
    mpz_class fl = lo.get_num() / lo.get_den();
    if (mpq_class(fl) == lo) return mpq_class(fl);
    if (fl + 1 <= hi) return mpq_class(fl + 1);
    mpq_class r = simplest_between(1 / (hi - fl), 1 / (lo - fl));
    return fl + 1 / r;
  }
  int mk_const_double(builtin_double v)
  {
    if (v == 0) return mk_const_int(0);
    if (std::isnan(v) || std::isinf(v)) { fprintf(stderr, "vsym: nan/inf literal\n"); return mk_const_int(0); }
    bool neg = v < 0; if (neg) v = -v;
    mpq_class ex(v);
    if (ex.get_den() == 1) return mk_q(neg ? mpq_class(-ex) : ex);
    mpq_class up(std::nextafter(v, INFINITY)), dn(std::nextafter(v, 0.0));
    mpq_class lo = (ex + dn) / 2, hi = (ex + up) / 2;
    mpq_class m = lo + (hi - lo) / 1024, M = hi - (hi - lo) / 1024;
    mpq_class r = simplest_between(m, M);
    r.canonicalize();
    return mk_q(neg ? mpq_class(-r) : r);
  }
  static bool isc(int a) { return N[a].k == K_CONST; }
  int mk_neg(int a)
  {
    if (isc(a)) return mk_q(-N[a].q);
    if (N[a].k == K_NEG) return N[a].a;
    return intern(K_NEG, a, -1, 0, "");
  }
  static bool div_check = false, in_div_check = false;
  static void division_obligation(int b);
  void check_division(bool on) { div_check = on; }
  int mk_bin(int op, int a, int b)
  {
    switch (op)
    {
      case '+':
        if (isc(a) && isc(b)) return mk_q(N[a].q + N[b].q);
        if (isc(a) && N[a].q == 0) return b;
        if (isc(b) && N[b].q == 0) return a;
        return intern(K_ADD, a, b, 0, "");
      case '-':
        if (isc(a) && isc(b)) return mk_q(N[a].q - N[b].q);
        if (isc(b) && N[b].q == 0) return a;
        if (a == b) return mk_const_int(0);
        return intern(K_ADD, a, mk_neg(b), 0, "");
      case '*':
        if (isc(a) && isc(b)) return mk_q(N[a].q * N[b].q);
        if ((isc(a) && N[a].q == 0) || (isc(b) && N[b].q == 0)) return mk_const_int(0);
        if (isc(a) && N[a].q == 1) return b;
        if (isc(b) && N[b].q == 1) return a;
        return intern(K_MUL, a, b, 0, "");
      case '/':
        if (isc(b) && N[b].q != 0)
        {
          if (isc(a)) return mk_q(N[a].q / N[b].q);
          if (N[b].q == 1) return a;
          return mk_bin('*', a, mk_q(1 / N[b].q));
        }
        if (div_check && !in_div_check) { in_div_check = true; division_obligation(b); in_div_check = false; }
        if (isc(a) && N[a].q == 0 && !isc(b)) return a;
        return intern(K_DIV, a, b, 0, "");
    }
    abort();
  }
  int mk_boolconst(bool b) { return intern(K_BOOL, b ? 1 : 0, -1, 0, ""); }
  static bool isbc(int a, bool v) { return N[a].k == K_BOOL && N[a].a == (v ? 1 : 0); }
  int mk_not(int a)
  {
    if (N[a].k == K_BOOL) return mk_boolconst(!N[a].a);
    if (N[a].k == K_NOT) return N[a].a;
    return intern(K_NOT, a, -1, 0, "");
  }
  int mk_and(int a, int b)
  {
    if (isbc(a, false) || isbc(b, false)) return mk_boolconst(false);
    if (isbc(a, true)) return b;
    if (isbc(b, true)) return a;
    if (a == b) return a;
    return intern(K_AND, a, b, 0, "");
  }
  int mk_or(int a, int b) { return mk_not(mk_and(mk_not(a), mk_not(b))); }

  // ------------------------------------------------------------------ polynomials / rational normal forms
  typedef std::vector<std::pair<int,int> > Mono;   // (atom node, exponent), sorted
  typedef std::map<Mono, mpq_class> Poly;
  struct Rat { Poly n, d; bool ok; };
  static const size_t POLY_LIMIT = 60000;
  struct too_big {};

  static Poly pconst(mpq_class const & q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
  static Poly patom(int a) { Poly p; Mono m; m.push_back(std::make_pair(a, 1)); p[m] = 1; return p; }
  static Poly padd(Poly const & a, Poly const & b)
  {
    Poly r = a;
    for (auto const & t : b) { auto it = r.find(t.first); if (it == r.end()) r.insert(t); else { it->second += t.second; if (it->second == 0) r.erase(it); } }
    return r;
  }
  static Poly pscale(Poly const & a, mpq_class const & q) { Poly r; if (q == 0) return r; for (auto const & t : a) r[t.first] = t.second * q; return r; }
  static Mono mmul(Mono const & a, Mono const & b)
  {
    Mono r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size())
    {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { r.push_back(std::make_pair(a[i].first, a[i].second + b[j].second)); ++i; ++j; }
    }
    return r;
  }
  static Rat const & nf(int id);
  static bool is_polyconst(Poly const & p, mpq_class & q)
  {
    if (p.empty()) { q = 0; return true; }
    if (p.size() == 1 && p.begin()->first.empty()) { q = p.begin()->second; return true; }
    return false;
  }
  static Poly pmul(Poly const & a, Poly const & b);
  // reduce sqrt atoms with exponent >= 2 and cos^2 atoms; sqrt args are polynomials by construction of nf
  static Poly preduce(Poly const & p)
  {
    Poly r; bool again = false;
    for (auto const & t : p)
    {
      int hit = -1;
      for (size_t i = 0; i < t.first.size(); ++i)
      {
        Node const & n = N[t.first[i].first];
        if (n.k == K_FUN && t.first[i].second >= 2 && (n.s == "sqrtp" || n.s == "cos")) { hit = (int)i; break; }
      }
      if (hit < 0) { auto it = r.find(t.first); if (it == r.end()) r.insert(t); else { it->second += t.second; if (it->second == 0) r.erase(it); } continue; }
      again = true;
      Mono m = t.first; int at = m[hit].first; int e = m[hit].second;
      Node const n = N[at];
      Poly sub;
      if (n.s == "sqrtp") sub = nf(n.a).n;
      else
      {
        int sn = intern(K_FUN, n.a, -1, 0, "sin");
        sub = padd(pconst(1), pscale(pmul(patom(sn), patom(sn)), -1));
      }
      if (e - 2 == 0) m.erase(m.begin() + hit); else m[hit].second = e - 2;
      Poly rest; rest[m] = t.second;
      r = padd(r, pmul(rest, sub));
    }
    if (again) return preduce(r);
    return r;
  }
  static Poly pmul(Poly const & a, Poly const & b)
  {
    if (a.size() * b.size() > 4000000) throw too_big();
    Poly r; bool needred = false;
    for (auto const & x : a) for (auto const & y : b)
    {
      Mono m = mmul(x.first, y.first);
      for (auto & f : m) if (f.second >= 2 && N[f.first].k == K_FUN) needred = true;
      mpq_class c = x.second * y.second;
      auto it = r.find(m);
      if (it == r.end()) { r[m] = c; if (r.size() > POLY_LIMIT) throw too_big(); }
      else { it->second += c; if (it->second == 0) r.erase(it); }
    }
    return needred ? preduce(r) : r;
  }
  static bool even_positive(Poly const & p)   // syntactically a sum of squares-like terms (>= 0)
  {
    for (auto const & t : p)
    {
      if (t.second < 0) return false;
      for (auto const & f : t.first)
        if (f.second % 2 && !(N[f.first].k == K_FUN && N[f.first].s == "sqrtp")) return false;
    }
    return true;
  }
  static mpq_class content(Poly const & p)
  {
    mpz_class g = 0, l = 1;
    for (auto const & t : p) { mpz_class nn = abs(t.second.get_num()); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), nn.get_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den().get_mpz_t()); }
    mpq_class q(g, l); q.canonicalize(); return q;
  }
  static bool perfect_square(mpq_class const & q, mpq_class & r)
  {
    if (q < 0) return false;
    mpz_class n = sqrt(q.get_num()), d = sqrt(q.get_den());
    if (n * n != q.get_num() || d * d != q.get_den()) return false;
    r = mpq_class(n, d); return true;
  }
  static int poly_node(Poly const & p)
  {
    int acc = mk_const_int(0);
    for (auto const & t : p)
    {
      int m = mk_q(t.second);
      for (auto const & f : t.first) for (int i = 0; i < f.second; ++i) m = mk_bin('*', m, f.first);
      acc = mk_bin('+', acc, m);
    }
    return acc;
  }
  static std::unordered_map<int, std::shared_ptr<Rat> > nfcache;
  // exact division of polynomials if possible (single-divisor multivariate division)
  static bool pdivides(Poly const & a, Poly const & b, Poly & q)
  {
    if (b.empty()) return false;
    mpq_class c;
    if (is_polyconst(b, c)) { q = pscale(a, 1 / c); return true; }
    for (auto const & t : a) for (auto const & f : t.first) if (N[f.first].k == K_FUN) return false;
    for (auto const & t : b) for (auto const & f : t.first) if (N[f.first].k == K_FUN) return false;
    if (a.size() > 3000) return false;
    // graded reverse: use map order = lexicographic on (atom,exp) vectors; not a monomial order in general, so use explicit one
    auto deg = [](Mono const & m, int at) { for (auto const & f : m) if (f.first == at) return f.second; return 0; };
    std::set<int> atoms;
    for (auto const & t : a) for (auto const & f : t.first) atoms.insert(f.first);
    for (auto const & t : b) for (auto const & f : t.first) atoms.insert(f.first);
    std::vector<int> av(atoms.begin(), atoms.end());
    auto less = [&](Mono const & x, Mono const & y) { for (int at : av) { int dx = deg(x, at), dy = deg(y, at); if (dx != dy) return dx < dy; } return false; };
    auto lead = [&](Poly const & p) { auto best = p.begin(); for (auto it = p.begin(); it != p.end(); ++it) if (less(best->first, it->first)) best = it; return best; };
    auto lb = lead(b);
    Poly r = a; Poly quo; int steps = 0;
    while (!r.empty())
    {
      if (++steps > 4000) return false;
      auto lr = lead(r);
      Mono m;
      for (int at : av) { int d = deg(lr->first, at) - deg(lb->first, at); if (d < 0) return false; if (d > 0) m.push_back(std::make_pair(at, d)); }
      std::sort(m.begin(), m.end());
      mpq_class cc = lr->second / lb->second;
      Poly t; t[m] = cc;
      quo = padd(quo, t);
      r = padd(r, pscale(pmul(t, b), -1));
    }
    q = quo; return true;
  }
  static Rat mkrat(Poly n, Poly d)
  {
    Rat r; r.ok = true;
    mpq_class c;
    if (is_polyconst(d, c) && c != 0) { r.n = pscale(n, 1 / c); r.d = pconst(1); return r; }
    if (n.empty()) { r.n = n; r.d = pconst(1); return r; }
    // common monomial factor
    Mono g; bool first = true;
    auto meet = [&](Poly const & p)
    {
      for (auto const & t : p)
      {
        if (first) { g = t.first; first = false; continue; }
        Mono h;
        for (auto const & f : g) for (auto const & e : t.first) if (e.first == f.first) h.push_back(std::make_pair(f.first, std::min(f.second, e.second)));
        g = h;
        if (g.empty()) return;
      }
    };
    meet(n); if (!g.empty()) meet(d);
    if (!g.empty())
    {
      auto strip = [&](Poly const & p) { Poly o; for (auto const & t : p) { Mono m; for (auto const & f : t.first) { int e = f.second; for (auto const & h : g) if (h.first == f.first) e -= h.second; if (e > 0) m.push_back(std::make_pair(f.first, e)); } o[m] = t.second; } return o; };
      n = strip(n); d = strip(d);
    }
    Poly q;
    if (pdivides(n, d, q)) { r.n = q; r.d = pconst(1); return r; }
    r.n = n; r.d = d;
    if (is_polyconst(d, c) && c != 0) { r.n = pscale(n, 1 / c); r.d = pconst(1); }
    return r;
  }
  static Rat radd(Rat const & a, Rat const & b)
  {
    if (a.d == b.d) return mkrat(padd(a.n, b.n), a.d);
    return mkrat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d));
  }
  static Rat rmul(Rat const & a, Rat const & b) { return mkrat(pmul(a.n, b.n), pmul(a.d, b.d)); }
  static std::set<int> opaque;     // nodes treated as atoms (definitional abstraction), see nf_zero_abstract
  static Rat const & nf(int id)
  {
    auto it = nfcache.find(id);
    if (it != nfcache.end()) return *it->second;
    std::shared_ptr<Rat> r(new Rat);
    Node const n = N[id];
    if (opaque.count(id)) { r->n = patom(id); r->d = pconst(1); r->ok = true; nfcache[id] = r; return *r; }
    switch (n.k)
    {
      case K_CONST: r->n = pconst(n.q); r->d = pconst(1); break;
      case K_VAR:   r->n = patom(id); r->d = pconst(1); break;
      case K_ADD:   *r = radd(nf(n.a), nf(n.b)); break;
      case K_NEG:   { Rat const & x = nf(n.a); r->n = pscale(x.n, -1); r->d = x.d; break; }
      case K_MUL:   *r = rmul(nf(n.a), nf(n.b)); break;
      case K_DIV:   { Rat const & x = nf(n.a); Rat const & y = nf(n.b); if (y.n.empty()) { r->n = patom(id); r->d = pconst(1); } else *r = mkrat(pmul(x.n, y.d), pmul(x.d, y.n)); break; }
      case K_FUN:
        if (n.s == "sqrt")
        {
          Rat const & x = nf(n.a);
          mpq_class one; bool dconst = is_polyconst(x.d, one);
          auto sq = [&](Poly const & p) -> Rat     // sqrt of a polynomial known/assumed >= 0
          {
            Rat o; o.d = pconst(1);
            if (p.empty()) { o.n = p; return o; }
            mpq_class c = content(p), rt;
            mpq_class cst;
            if (is_polyconst(p, cst) && perfect_square(cst, rt)) { o.n = pconst(rt); return o; }
            Poly prim = p; mpq_class f = 1;
            if (perfect_square(c, rt)) { prim = pscale(p, 1 / c); f = rt; }
            int pn = poly_node(prim);
            int at = intern(K_FUN, pn, -1, 0, "sqrtp");
            nf(pn);
            o.n = pscale(patom(at), f);
            return o;
          };
          if (dconst) *r = sq(x.n);
          else if (even_positive(x.n) && even_positive(x.d)) { Rat a = sq(x.n), b = sq(x.d); *r = mkrat(a.n, b.n); }
          else { r->n = patom(id); r->d = pconst(1); }
        }
        else { r->n = patom(id); r->d = pconst(1); }
        break;
      default: abort();
    }
    r->ok = true;
    nfcache[id] = r;
    return *r;
  }
  static bool nf_zero(int id) { try { return nf(id).n.empty(); } catch (too_big &) { return false; } }

  // Second attempt for equalities with nested roots: sub-terms that are squared below a root are kept as atoms
  // (they are substituted back at the end), which is sound: an identity in the atoms is an identity after substitution.
  static void collect_opaque(std::vector<int> const & roots, std::set<int> & op)
  {
    std::set<int> seen;
    std::function<void(int,bool)> walk = [&](int x, bool under)
    {
      int key = x * 2 + (under ? 1 : 0);
      if (!seen.insert(key).second) return;
      Node const n = N[x];
      if (n.k == K_MUL && n.a == n.b && under && (N[n.a].k == K_ADD || N[n.a].k == K_MUL || N[n.a].k == K_NEG)) op.insert(n.a);
      bool u = under || (n.k == K_FUN && (n.s == "sqrt" || n.s == "sqrtp"));
      if (n.k != K_CONST && n.k != K_VAR && n.k != K_BOOL) { if (n.a >= 0) walk(n.a, u); if (n.b >= 0) walk(n.b, u); }
    };
    for (int r : roots) walk(r, false);
  }
  static bool nf_zero_abstract(int id)
  {
    std::set<int> op;
    collect_opaque(std::vector<int>(1, id), op);
    if (op.empty()) return false;
    std::unordered_map<int, std::shared_ptr<Rat> > saved; saved.swap(nfcache);
    bool res = false; int back = -1;
    try { opaque = op; Rat r = nf(id); if (r.n.empty()) res = true; else if (r.n.size() < 200) back = poly_node(r.n); }
    catch (too_big &) {}
    opaque.clear(); saved.swap(nfcache);
    if (!res && back >= 0) res = nf_zero(back);
    return res;
  }
  static int canonical_inverse(std::string const & f, int a, int b);
  int mk_fun(char const * f, int a)
  {
    std::string s(f);
    if (isc(a))
    {
      mpq_class r;
      if (s == "sqrt" && N[a].q >= 0 && perfect_square(N[a].q, r)) return mk_q(r);
      if (s == "cos" && N[a].q == 0) return mk_const_int(1);
      if (s == "sin" && N[a].q == 0) return mk_const_int(0);
    }
    // contract of the libm inverse pairs (trusted): cos(acos z) = z, sin(acos z) = sqrt(1-z^2),
    // cos(atan2(y,x)) = x/r, sin(atan2(y,x)) = y/r  with r = sqrt(x^2+y^2) > 0
    if ((s == "cos" || s == "sin") && N[a].k != K_FUN && N[a].k != K_VAR && N[a].k != K_CONST)
    {
      // argument that simplifies to +-(inverse trigonometric term): reduce to that term
      try
      {
        Rat const & r = nf(a); mpq_class c;
        if (is_polyconst(r.d, c) && r.n.size() == 1 && r.n.begin()->first.size() == 1 && r.n.begin()->first[0].second == 1
            && (r.n.begin()->second / c == 1 || r.n.begin()->second / c == -1))
        {
          bool neg = r.n.begin()->second / c == -1; int at = r.n.begin()->first[0].first;
          if (N[at].k == K_FUN) { int v = mk_fun(f, at); return neg && s == "sin" ? mk_neg(v) : v; }
        }
      }
      catch (too_big &) {}
    }
    if ((s == "cos" || s == "sin") && N[a].k == K_FUN)
    {
      if (N[a].s == "acos")
      {
        int z = N[a].a;
        if (s == "cos") return z;
        return mk_fun("sqrt", mk_bin('-', mk_const_int(1), mk_bin('*', z, z)));
      }
      if (N[a].s == "atan2")
      {
        int y = N[a].a, x = N[a].b;
        int rr = mk_fun("sqrt", mk_bin('+', mk_bin('*', x, x), mk_bin('*', y, y)));
        return mk_bin('/', s == "cos" ? x : y, rr);
      }
    }
    if (s == "acos") return canonical_inverse(s, a, -1);
    return intern(K_FUN, a, -1, 0, s);
  }
  // congruence: inverse trigonometric terms with provably equal arguments share one node
  static std::vector<int> & inv_terms() { static std::vector<int> v; return v; }
  static bool nf_equal(int a, int b) { if (a == b) return true; try { return nf_zero(mk_bin('-', a, b)); } catch (too_big &) { return false; } }
  static int canonical_inverse(std::string const & f, int a, int b)
  {
    for (int t : inv_terms()) if (N[t].s == f && nf_equal(N[t].a, a) && (b < 0 || nf_equal(N[t].b, b))) return t;
    int t = intern(K_FUN, a, b, 0, f); inv_terms().push_back(t); return t;
  }
  int mk_fun2(char const * f, int a, int b) { return canonical_inverse(f, a, b); }

  // ------------------------------------------------------------------ contract state
  static std::string cur_contract;
  struct Sample { std::vector<double> memo; std::vector<char> have; std::map<int,double> vars; };
  static std::vector<Sample> samples;
  static const int KS = 96;
  static std::map<std::string, std::vector<double> > var_samples;
  static std::vector<char> alive;
  static unsigned seed_base = 1;

  static double hash01(std::string const & s, int k, int salt)
  {
    unsigned long long h = 1469598103934665603ULL + seed_base * 7919ULL;
    auto mix = [&](unsigned long long v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; };
    for (char c : s) mix((unsigned char)c);
    mix(k + 1000); mix(salt + 77);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return (double)(h % 1000003ULL) / 1000003.0;
  }
  static double sample_value(std::string const & name, int k)
  {
    int mode = k % 4;
    double u = hash01(name, k, mode);
    if (mode == 0) return std::floor(u * 7) - 3;
    if (mode == 1) return (std::floor(u * 41) - 20) / 4.0;
    if (mode == 2) return u * 4 - 2;
    return std::floor(u * 3) + hash01(name, k, 9) * 0.5;
  }
  static double eval(int id, int k)
  {
    Sample & S = samples[k];
    if ((int)S.memo.size() < (int)N.size()) { S.memo.resize(N.size() + 1024, 0); S.have.resize(N.size() + 1024, 0); }
    if (S.have[id]) return S.memo[id];
    Node const n = N[id];
    double v = 0;
    switch (n.k)
    {
      case K_CONST: v = n.q.get_d(); break;
      case K_VAR: { auto it = S.vars.find(id); v = it != S.vars.end() ? it->second : sample_value(n.s, k); S.vars[id] = v; break; }
      case K_ADD: v = eval(n.a, k) + eval(n.b, k); break;
      case K_NEG: v = -eval(n.a, k); break;
      case K_MUL: v = eval(n.a, k) * eval(n.b, k); break;
      case K_DIV: v = eval(n.a, k) / eval(n.b, k); break;
      case K_FUN:
      {
        double x = eval(n.a, k);
        if (n.s == "sqrt" || n.s == "sqrtp") v = std::sqrt(x);
        else if (n.s == "sin") v = std::sin(x);
        else if (n.s == "cos") v = std::cos(x);
        else if (n.s == "acos") v = std::acos(x);
        else if (n.s == "atan2") v = std::atan2(x, eval(n.b, k));
        else abort();
        break;
      }
      default: abort();
    }
    if ((int)S.memo.size() < (int)N.size()) { S.memo.resize(N.size() + 1024, 0); S.have.resize(N.size() + 1024, 0); }
    S.memo[id] = v; S.have[id] = 1;
    return v;
  }
  // 1 true, 0 false, -1 too close to call
  static int evalb(int id, int k)
  {
    Node const n = N[id];
    switch (n.k)
    {
      case K_BOOL: return n.a;
      case K_NOT: { int v = evalb(n.a, k); return v < 0 ? v : !v; }
      case K_AND: { int x = evalb(n.a, k), y = evalb(n.b, k); if (x == 0 || y == 0) return 0; if (x < 0 || y < 0) return -1; return 1; }
      case K_LT: case K_EQ:
      {
        double x = eval(n.a, k), y = eval(n.b, k);
        if (std::isnan(x) || std::isnan(y) || std::isinf(x) || std::isinf(y)) return -1;
        double tol = 1e-9 * (1 + std::fabs(x) + std::fabs(y));
        if (std::fabs(x - y) < tol)
        {
          if (x == y && std::fabs(x) < 1e6 && std::floor(x * 64) == x * 64) return n.k == K_EQ ? 1 : 0;
          return -1;
        }
        if (n.k == K_EQ) return 0;
        return x < y ? 1 : 0;
      }
      default: abort();
    }
  }

  // ------------------------------------------------------------------ facts on the current path
  static std::vector<int> facts;                     // boolean nodes assumed true
  static std::set<int> factset;
  // sign facts per canonical polynomial: bitmask 1:neg 2:zero 4:pos
  static std::map<Poly, int> signs;

  static bool canon_sign(int a, int b, Poly & p, bool & flip)   // sign of (a-b) as sign of primitive polynomial p (flip if negated)
  {
    try
    {
      Rat const & r = nf(mk_bin('-', a, b));
      Poly q;
      mpq_class c;
      if (is_polyconst(r.d, c)) q = r.n;
      else if (even_positive(r.d)) q = r.n;          // denominators assumed non-zero, hence positive
      else
      {
        // sign of denominator known?
        Poly d = pscale(r.d, 1 / content(r.d)); bool fl = false;
        if (d.begin()->second < 0) { d = pscale(d, -1); fl = true; }
        auto it = signs.find(d);
        if (it == signs.end() || (it->second & 3 && it->second & 4) || it->second == 2) return false;
        bool neg = (it->second & 4) == 0;
        q = r.n;
        if (neg != fl) q = pscale(q, -1);
      }
      if (q.empty()) { p = q; flip = false; return true; }
      p = pscale(q, 1 / content(q));
      flip = false;
      if (p.begin()->second < 0) { p = pscale(p, -1); flip = true; }
      return true;
    }
    catch (too_big &) { return false; }
  }
  static int known_sign(Poly const & p)  // mask of possible signs
  {
    if (p.empty()) return 2;
    mpq_class c;
    if (is_polyconst(p, c)) return c > 0 ? 4 : (c < 0 ? 1 : 2);
    int m = 7;
    if (even_positive(p)) { m &= 6; if (p.count(Mono())) m &= 4; }
    if (even_positive(pscale(p, -1))) { m &= 3; if (p.count(Mono())) m &= 1; }
    auto it = signs.find(p);
    if (it != signs.end()) m &= it->second;
    return m;
  }
  // -1 unknown, 0 false, 1 true
  static int implied(int cond)
  {
    if (factset.count(cond)) return 1;
    if (factset.count(mk_not(cond))) return 0;
    Node const n = N[cond];
    switch (n.k)
    {
      case K_BOOL: return n.a;
      case K_NOT: { int v = implied(n.a); return v < 0 ? v : !v; }
      case K_AND: { int x = implied(n.a), y = implied(n.b); if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; return -1; }
      case K_LT: case K_EQ:
      {
        Poly p; bool flip;
        if (!canon_sign(n.a, n.b, p, flip)) return -1;
        int m = known_sign(p);
        if (flip) m = ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2);
        int want = n.k == K_LT ? 1 : 2;
        if ((m & ~want) == 0) return 1;
        if ((m & want) == 0) return 0;
        return -1;
      }
      default: abort();
    }
  }
  static void add_fact(int cond)
  {
    if (isbc(cond, true)) return;
    Node const n = N[cond];
    if (n.k == K_AND) { add_fact(n.a); add_fact(n.b); return; }
    if (factset.count(cond)) return;
    facts.push_back(cond); factset.insert(cond);
    bool neg = false; Node c = n; 
    if (n.k == K_NOT) { neg = true; c = N[n.a]; }
    if (c.k == K_LT || c.k == K_EQ)
    {
      Poly p; bool flip;
      if (canon_sign(c.a, c.b, p, flip) && !p.empty())
      {
        int m = c.k == K_LT ? 1 : 2;
        if (neg) m = 7 & ~m;
        if (flip) m = ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2);
        auto it = signs.find(p);
        if (it == signs.end()) signs[p] = m; else it->second &= m;
      }
    }
    for (int k = 0; k < (int)samples.size(); ++k) if (alive[k] && evalb(cond, k) != 1) alive[k] = 0;
  }

  // ------------------------------------------------------------------ z3
  static z3::context * zc = 0;
  struct Trans
  {
    std::map<int, int> memo; std::vector<z3::expr> ex; std::vector<z3::expr> ax; std::set<int> vars;
    std::set<int> trig;
    z3::expr poly(Poly const & p)
    {
      z3::context & c = *zc;
      z3::expr acc = c.real_val(0); bool first = true;
      for (auto const & t : p)
      {
        z3::expr m = c.real_val(t.second.get_str().c_str()); bool one = (t.second == 1) && !t.first.empty(); bool have = !one;
        for (auto const & f : t.first) { z3::expr a = tr(f.first); for (int i = 0; i < f.second; ++i) { if (!have) { m = a; have = true; } else m = m * a; } }
        if (first) { acc = m; first = false; } else acc = acc + m;
      }
      return acc;
    }
    z3::expr tr(int id)
    {
      auto it = memo.find(id);
      if (it != memo.end()) return ex[it->second];
      z3::context & c = *zc; Node const n = N[id];
      z3::expr e(c);
      if (opaque.count(id)) { e = c.real_const(("o!" + std::to_string(id)).c_str()); ex.push_back(e); memo[id] = (int)ex.size() - 1; return e; }
      switch (n.k)
      {
        case K_CONST: e = c.real_val(n.q.get_str().c_str()); break;
        case K_VAR: e = c.real_const(n.s.c_str()); vars.insert(id); break;
        case K_ADD: e = tr(n.a) + tr(n.b); break;
        case K_NEG: e = -tr(n.a); break;
        case K_MUL: e = tr(n.a) * tr(n.b); break;
        case K_DIV:
        {
          e = c.real_const(("q!" + std::to_string(id)).c_str());
          z3::expr d = tr(n.b);
          ax.push_back(z3::implies(d != 0, e * d == tr(n.a)));
          break;
        }
        case K_FUN:
        {
          e = c.real_const(("f!" + n.s + "!" + std::to_string(id)).c_str());
          if (n.s == "sqrt" || n.s == "sqrtp")
          {
            z3::expr x = tr(n.a);
            bool nn = false; try { mpq_class q; Rat const & r = nf(n.a); nn = is_polyconst(r.d, q) && even_positive(r.n); } catch (too_big &) {}
            ax.push_back(e >= 0);
            if (nn) ax.push_back(e * e == x); else ax.push_back(z3::implies(x >= 0, e * e == x));
          }
          else if (n.s == "atan2")
          {
            z3::expr y = tr(n.a), x = tr(n.b);
            ax.push_back(z3::implies(y > 0, e > 0)); ax.push_back(z3::implies(y < 0, e < 0)); ax.push_back(z3::implies(y == 0 && x >= 0, e == 0));
          }
          else if (n.s == "acos") ax.push_back(e >= 0);
          else if (n.s == "sin" || n.s == "cos")
          {
            if (!trig.count(n.a))
            {
              trig.insert(n.a);
              z3::expr s = tr(intern(K_FUN, n.a, -1, 0, "sin")), co = tr(intern(K_FUN, n.a, -1, 0, "cos"));
              ax.push_back(s * s + co * co == 1);
            }
          }
          break;
        }
        case K_LT: case K_EQ:
        {
          bool done = false;
          try
          {
            Rat const & r = nf(mk_bin('-', n.a, n.b)); mpq_class q;
            if (is_polyconst(r.d, q)) { z3::expr p = poly(r.n); e = n.k == K_LT ? p < 0 : p == 0; done = true; }
            else if (r.n.size() < 400 && r.d.size() < 400)
            {
              z3::expr p = poly(r.n), d = poly(r.d);
              if (even_positive(r.d)) e = n.k == K_LT ? p < 0 : p == 0;
              else e = n.k == K_LT ? ((d > 0 && p < 0) || (d < 0 && p > 0)) : p == 0;
              done = true;
            }
          }
          catch (too_big &) {}
          if (!done) e = n.k == K_LT ? tr(n.a) < tr(n.b) : tr(n.a) == tr(n.b);
          break;
        }
        case K_NOT: e = !tr(n.a); break;
        case K_AND: e = tr(n.a) && tr(n.b); break;
        case K_OR: e = tr(n.a) || tr(n.b); break;
        case K_BOOL: e = c.bool_val(n.a != 0); break;
      }
      ex.push_back(e); memo[id] = (int)ex.size() - 1;
      return e;
    }
  };
  static int feas_timeout = 400, vc_timeout = 2000;
  static long z3_calls = 0; static double z3_time = 0;
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

  static void add_model_sample(z3::model m, Trans & T)
  {
    Sample S;
    for (int v : T.vars)
    {
      z3::expr e = m.eval(T.tr(v), true);
      std::string s = e.is_numeral() ? e.get_decimal_string(20) : (e.is_algebraic() ? e.get_decimal_string(20) : std::string("0"));
      if (!s.empty() && s[s.size() - 1] == '?') s.erase(s.size() - 1);
      double dv = atof(s.c_str());
      std::string ss = e.to_string();
      S.vars[v] = dv;
    }
    samples.push_back(S); alive.push_back(1);
    int k = (int)samples.size() - 1;
    for (int f : facts) if (evalb(f, k) != 1) { alive[k] = 0; break; }
  }

  // returns 1 sat, 0 unsat, -1 unknown
  static int solve1(std::vector<int> const & conds, int timeout_ms, std::map<std::string,std::string> * model, bool addsample, std::string * smt2);
  static int solve(std::vector<int> const & conds, int timeout_ms, std::map<std::string,std::string> * model, bool addsample, std::string * smt2)
  {
    std::set<int> op; std::vector<int> roots(facts); roots.insert(roots.end(), conds.begin(), conds.end());
    if (timeout_ms > 0) collect_opaque(roots, op);
    if (!op.empty())
    {
      // definitional abstraction first: unsat with the sub-terms left free implies unsat
      std::unordered_map<int, std::shared_ptr<Rat> > saved; saved.swap(nfcache); opaque = op;
      int r = solve1(conds, std::min(timeout_ms, 1500), 0, false, 0);
      opaque.clear(); saved.swap(nfcache);
      if (r == 0) return 0;
    }
    return solve1(conds, timeout_ms, model, addsample, smt2);
  }
  static int solve1(std::vector<int> const & conds, int timeout_ms, std::map<std::string,std::string> * model, bool addsample, std::string * smt2)
  {
    double t0 = now();
    Trans T; z3::context & c = *zc;
    z3::solver s(c, "QF_NRA");
    z3::params p(c); p.set("timeout", (unsigned)timeout_ms); s.set(p);
    int res = -1;
    try
    {
      for (int f : facts) s.add(T.tr(f));
      for (int f : conds) s.add(T.tr(f));
      for (size_t i = 0; i < T.ax.size(); ++i) s.add(T.ax[i]);
      if (smt2) *smt2 = s.to_smt2();
      if (timeout_ms > 0)
      {
        ++z3_calls;
        z3::check_result r = s.check();
        if (r == z3::sat) res = 1; else if (r == z3::unsat) res = 0;
        if (res == 1 && (model || addsample))
        {
          z3::model m = s.get_model();
          if (model)
            for (int v : T.vars)
            {
              z3::expr e = m.eval(T.tr(v), true);
              std::string str = e.is_algebraic() ? e.get_decimal_string(20) : e.to_string();
              if (e.is_numeral() && !e.is_algebraic()) str = e.get_decimal_string(30);
              if (!str.empty() && str[str.size()-1] == '?') str.erase(str.size() - 1);
              (*model)[N[v].s] = str;
            }
          if (addsample) add_model_sample(m, T);
        }
      }
    }
    catch (z3::exception &) { res = -1; }
    z3_time += now() - t0;
    return res;
  }

  // ------------------------------------------------------------------ exploration
  struct Decision { int n; int taken; std::vector<int> todo; };
  static std::vector<Decision> trail; static size_t depth = 0;
  static std::vector<std::pair<std::string,int> > choices;
  static long n_paths = 0, n_cut = 0, max_paths = 20000; static double time_limit = 600, t_start = 0;
  static bool incomplete = false; static std::string incomplete_why;
  struct ObStat { long total = 0; long by_nf = 0, by_fact = 0, by_direct = 0, by_z3 = 0, exported = 0, failed = 0; double t = 0; };
  static std::map<std::string, ObStat> obs; static std::vector<std::string> ob_order;
  static std::map<std::string, long> covers;
  struct Fail { std::string ob; std::string kind; std::map<std::string,std::string> model; std::vector<std::pair<std::string,int> > choices; std::string smt2file; std::string note; };
  static std::vector<Fail> fails; static std::vector<std::pair<std::string,std::string> > exported;
  static std::map<std::string, long> fails_per_ob;
  static std::string outdir = "."; static std::map<std::string, int> exported_hash;
  static std::string failure_context;

  static int branch(std::vector<int> const & options)    // pick an option index according to trail
  {
    if (depth < trail.size()) return trail[depth++].taken;
    Decision d; d.n = (int)options.size(); d.taken = options[0];
    d.todo.assign(options.begin() + 1, options.end());
    trail.push_back(d); ++depth;
    return d.taken;
  }
  bool decide(int cond)
  {
    Node const n = N[cond];
    if (n.k == K_BOOL) return n.a != 0;
    if (n.k == K_NOT) return !decide(n.a);
    if (n.k == K_AND) return decide(n.a) && decide(n.b);
    int im = implied(cond);
    if (im >= 0) return im == 1;
    if (now() - t_start > time_limit) { incomplete = true; incomplete_why = "time limit"; throw cut_path(); }
    std::vector<int> opt;
    if (depth >= trail.size())
    {
      bool ft = false, ff = false;
      for (int k = 0; k < (int)samples.size(); ++k) if (alive[k]) { int v = evalb(cond, k); if (v == 1) ft = true; if (v == 0) ff = true; if (ft && ff) break; }
      if (!ft) { std::vector<int> q(1, cond); int r = solve(q, feas_timeout, 0, true, 0); ft = r != 0; }
      if (!ff) { std::vector<int> q(1, mk_not(cond)); int r = solve(q, feas_timeout, 0, true, 0); ff = r != 0; }
      if (!ft && !ff) { throw cut_path(); }
      if (ft) opt.push_back(1);
      if (ff) opt.push_back(0);
    }
    bool v = branch(opt) == 1;
    add_fact(v ? cond : mk_not(cond));
    return v;
  }
  bool decided_true(int cond) { return implied(cond) == 1; }
  static std::vector<int> * fixed_choices_p = 0;
  int choose(char const * name, int n)
  {
    std::vector<int> o;
    if (fixed_choices_p)
    {
      size_t i = choices.size(); int v = i < fixed_choices_p->size() ? (*fixed_choices_p)[i] : 0; if (v >= n) v = n - 1;
      choices.push_back(std::make_pair(std::string(name), v)); return v;
    } for (int i = 0; i < n; ++i) o.push_back(i);
    int v = branch(o);
    choices.push_back(std::make_pair(std::string(name), v));
    return v;
  }

  int mk_input(char const * name) { return intern(K_VAR, -1, -1, 0, name); }
  static std::map<std::string, mpq_class> fixed; static bool fixing = false; static std::vector<int> fixed_choices;
  real input(char const * name)
  {
    if (fixing) { auto it = fixed.find(name); return R(it == fixed.end() ? mk_const_int(0) : mk_q(it->second)); }
    return R(mk_input(name));
  }
  struct assert_violation : std::runtime_error { assert_violation(std::string const & s) : std::runtime_error(s) {} };
  void assert_failed(char const * e, char const * f, int l)
  { throw assert_violation(std::string("library assertion failed: ") + e + " at " + f + ":" + std::to_string(l)); }
  real abs_(int x)
  {
    int c = intern(K_LT, x, mk_const_int(0), 0, "");
    if (isc(x)) return R(mk_q(::abs(N[x].q)));
    return decide(c) ? R(mk_neg(x)) : R(x);
  }
  int mk_cmp(int op, int a, int b)
  {
    if (isc(a) && isc(b)) return mk_boolconst(op == '<' ? N[a].q < N[b].q : N[a].q == N[b].q);
    if (a == b) return mk_boolconst(op == '=');
    return intern(op == '<' ? K_LT : K_EQ, a, b, 0, "");
  }
  real abs(real const & x) { return abs_(x.id); }
  real pow(real const & x, int n) { int r = mk_const_int(1); for (int i = 0; i < (n < 0 ? -n : n); ++i) r = mk_bin('*', r, x.id); if (n < 0) r = mk_bin('/', mk_const_int(1), r); return R(r); }
  std::string show(int id)
  {
    Node const n = N[id];
    switch (n.k)
    {
      case K_CONST: return n.q.get_str();
      case K_VAR: return n.s;
      case K_ADD: return "(" + show(n.a) + " + " + show(n.b) + ")";
      case K_NEG: return "-" + show(n.a);
      case K_MUL: return show(n.a) + "*" + show(n.b);
      case K_DIV: return "(" + show(n.a) + ")/(" + show(n.b) + ")";
      case K_FUN: return n.s + "(" + show(n.a) + (n.b >= 0 ? "," + show(n.b) : "") + ")";
      case K_LT: return show(n.a) + " < " + show(n.b);
      case K_EQ: return show(n.a) + " = " + show(n.b);
      case K_NOT: return "!(" + show(n.a) + ")";
      case K_AND: return "(" + show(n.a) + " && " + show(n.b) + ")";
      case K_BOOL: return n.a ? "true" : "false";
      default: return "?";
    }
  }

  void requires_(sbool b)
  {
    int im = implied(b.id);
    if (im == 1) return;
    if (im == 0) { ++n_cut; throw cut_path(); }
    add_fact(b.id);
  }
  void note_failure_context(std::string const & s) { failure_context = s; }
  static ObStat & ob(std::string const & name)
  {
    auto it = obs.find(name);
    if (it == obs.end()) { ob_order.push_back(name); return obs[name]; }
    return it->second;
  }
  static void record_fail(std::string const & name, std::string const & kind, std::map<std::string,std::string> const & m, std::string const & file)
  {
    ob(name).failed++;
    if (fails_per_ob[name]++ >= 12) return;
    Fail f; f.ob = name; f.kind = kind; f.model = m; f.choices = choices; f.smt2file = file; f.note = failure_context;
    fails.push_back(f);
  }
  static std::map<std::string,std::string> sample_model(int k)
  {
    std::map<std::string,std::string> m;
    for (auto const & v : samples[k].vars) { char buf[64]; snprintf(buf, sizeof buf, "%.17g", v.second); m[N[v.first].s] = buf; }
    return m;
  }
  static int some_alive() { for (int k = 0; k < (int)samples.size(); ++k) if (alive[k]) return k; return -1; }

  static void export_vc(std::string const & name, std::string const & smt)
  {
    int id = (int)exported_hash.size(); exported_hash[smt] = id;
    std::string fn = outdir + "/" + cur_contract + "." + std::to_string(id) + ".smt2";
    std::ofstream f(fn.c_str()); f << "(set-logic QF_NRA)\n" << smt; f.close();
    ob(name).exported++;
    exported.push_back(std::make_pair(name, fn));
    // keep the choices with the export so that a model can be replayed
    std::ofstream fc((fn + ".choices").c_str());
    for (auto const & c : choices) fc << c.first << "=" << c.second << "\n";
  }
  static void prove(std::string const & name, int goal)
  {
    Node const g = N[goal];
    if (g.k == K_AND) { prove(name, g.a); prove(name, g.b); return; }
    ObStat & o = ob(name);
    double t0 = now();
    o.total++;
    if (isbc(goal, true)) { o.by_direct++; return; }
    if (g.k == K_EQ && nf_zero(mk_bin('-', g.a, g.b))) { o.by_nf++; o.t += now() - t0; return; }
    if (g.k == K_EQ && nf_zero_abstract(mk_bin('-', g.a, g.b))) { o.by_nf++; o.t += now() - t0; return; }
    if (implied(goal) == 1) { o.by_fact++; o.t += now() - t0; return; }
    for (int k = 0; k < (int)samples.size(); ++k)
      if (alive[k] && evalb(goal, k) == 0) { record_fail(name, "counterexample-sample", sample_model(k), ""); o.t += now() - t0; return; }
    std::map<std::string,std::string> m; std::string smt;
    std::vector<int> q(1, mk_not(goal));
    int r = fails_per_ob[name] > 4 ? -1 : solve(q, vc_timeout, &m, false, &smt);
    if (smt.empty()) solve(q, 0, 0, false, &smt);
    if (r == 0) { o.by_z3++; o.t += now() - t0; return; }
    if (r == 1) { record_fail(name, "counterexample-z3", m, ""); o.t += now() - t0; return; }
    if (exported_hash.count(smt)) { o.total--; o.t += now() - t0; return; }
    export_vc(name, smt);
    o.t += now() - t0;
  }
  static void division_obligation(int b)
  {
    int z = mk_cmp('=', b, mk_const_int(0));
    prove("no_division_by_zero", mk_not(z));
    add_fact(mk_not(z));
  }
  void ensures(char const * name, sbool b) { in_div_check = true; prove(name, b.id); in_div_check = false; }
  void ensures_eq(char const * name, real const & a, real const & b) { prove(name, mk_cmp('=', a.id, b.id)); }
  void ensures_le(char const * name, real const & a, real const & b) { prove(name, mk_not(mk_cmp('<', b.id, a.id))); }
  void lemma_(char const * name, sbool b) { prove(name, b.id); add_fact(b.id); }
  void cover(char const * name) { covers[name]++; }
  static void path_fail(char const * name);
  void ensures_true(char const * name, bool b)
  {
    ObStat & o = ob(name); o.total++;
    if (b) { o.by_direct++; return; }
    path_fail(name);
  }
  static void path_fail(char const * name)
  {
    ObStat & o = ob(name);
    std::map<std::string,std::string> m; int k = some_alive();
    if (k >= 0) m = sample_model(k);
    else
    {
      std::vector<int> q; int r = solve(q, 5000, &m, true, 0);
      if (r == 0) { o.by_z3++; return; }      // path infeasible after all
      if (r < 0)
      {
        // feasibility of the path itself is the open question: leave it to the solver portfolio
        std::string smt; solve(q, 0, 0, false, &smt);
        if (exported_hash.count(smt)) { o.total--; return; }
        export_vc(name, smt); return;
      }
    }
    record_fail(name, "counterexample-path", m, "");
  }
  real generalize(char const * name, real const & t) { (void)t; return R(mk_input(name)); }

  // ------------------------------------------------------------------ driver
  struct Reg { std::string name, fns; contract_fn fn; };
  static std::vector<Reg> & regs() { static std::vector<Reg> r; return r; }
  registrar::registrar(char const * name, char const * functions, contract_fn fn) { Reg r; r.name = name; r.fns = functions; r.fn = fn; regs().push_back(r); }

  static std::string js(std::string const & s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }

  static std::string crash_file;
  static void on_signal(int sig)
  {
    // best effort: say where the real code crashed; the concrete build has to confirm it
    FILE * f = fopen((outdir + "/crash." + cur_contract + ".txt").c_str(), "w");
    if (f)
    {
      fprintf(f, "signal %d\n", sig);
      int k = some_alive();
      if (k >= 0) for (auto const & v : samples[k].vars) fprintf(f, "var %s %.17g\n", N[v.first].s.c_str(), v.second);
      for (auto const & c : choices) fprintf(f, "choice %d\n", c.second);
      fclose(f);
    }
    _exit(42);
  }
  static void run_contract(Reg const & r, std::ostream & out)
  {
    inv_terms().clear(); N.clear(); hashcons.clear(); nfcache.clear(); samples.clear(); obs.clear(); ob_order.clear(); covers.clear(); fails.clear(); exported.clear(); fails_per_ob.clear(); exported_hash.clear();
    trail.clear(); n_paths = n_cut = 0; incomplete = false; incomplete_why = ""; z3_calls = 0; z3_time = 0;
    delete zc; zc = new z3::context();
    cur_contract = r.name; t_start = now();
    for (int k = 0; k < KS; ++k) samples.push_back(Sample());
    std::string error;
    while (true)
    {
      facts.clear(); factset.clear(); signs.clear(); depth = 0; div_check = false; in_div_check = false; choices.clear(); failure_context.clear();
      if (samples.size() > 400) samples.resize(400);
      alive.assign(samples.size(), 1);
      try { r.fn(); ++n_paths; }
      catch (cut_path &) { ++n_cut; }
      catch (assert_violation & e) { ob("no_assert_failure").total++; failure_context = e.what(); path_fail("no_assert_failure"); ++n_paths; }
      catch (std::exception & e) { record_fail("no_exception", std::string("counterexample-path"), some_alive() >= 0 ? sample_model(some_alive()) : std::map<std::string,std::string>(), ""); error = e.what(); ++n_paths; }
      while (!trail.empty() && trail.back().todo.empty()) trail.pop_back();
      if (trail.empty()) break;
      trail.back().taken = trail.back().todo.front(); trail.back().todo.erase(trail.back().todo.begin());
      if (n_paths + n_cut > max_paths) { incomplete = true; incomplete_why = "path limit"; break; }
      if (now() - t_start > time_limit) { incomplete = true; incomplete_why = "time limit"; break; }
      long nf_ = 0; for (auto & x : fails_per_ob) nf_ += x.second;
      if (nf_ > 200) { incomplete = true; incomplete_why = "many failures"; break; }
    }
    out << "{\"contract\":" << js(r.name) << ",\"functions\":" << js(r.fns) << ",\"paths\":" << n_paths << ",\"cut\":" << n_cut
        << ",\"incomplete\":" << (incomplete ? js(incomplete_why) : "false") << ",\"z3_calls\":" << z3_calls << ",\"z3_time\":" << z3_time << ",\"time\":" << now() - t_start << ",\"exception\":" << js(error) << ",\"obligations\":[";
    bool first = true;
    for (auto const & nme : ob_order)
    {
      ObStat const & o = obs[nme];
      out << (first ? "" : ",") << "{\"name\":" << js(nme) << ",\"total\":" << o.total << ",\"nf\":" << o.by_nf << ",\"fact\":" << o.by_fact << ",\"direct\":" << o.by_direct << ",\"z3\":" << o.by_z3 << ",\"exported\":" << o.exported << ",\"failed\":" << o.failed << ",\"t\":" << o.t << "}";
      first = false;
    }
    out << "],\"covers\":{"; first = true;
    for (auto const & c : covers) { out << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
    out << "},\"exported\":["; first = true;
    for (auto const & e : exported) { out << (first ? "" : ",") << "[" << js(e.first) << "," << js(e.second) << "]"; first = false; }
    out << "],\"fails\":["; first = true;
    for (auto const & f : fails)
    {
      out << (first ? "" : ",") << "{\"ob\":" << js(f.ob) << ",\"kind\":" << js(f.kind) << ",\"note\":" << js(f.note) << ",\"model\":{";
      bool ff = true; for (auto const & m : f.model) { out << (ff ? "" : ",") << js(m.first) << ":" << js(m.second); ff = false; }
      out << "},\"choices\":["; ff = true; for (auto const & c : f.choices) { out << (ff ? "" : ",") << "[" << js(c.first) << "," << c.second << "]"; ff = false; }
      out << "]}"; first = false;
    }
    out << "]}\n"; out.flush();
  }
}

int main(int argc, char ** argv)
{
  std::string only, outf, fix;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--list") { for (auto const & r : vsym::regs()) std::cout << r.name << "\n"; return 0; }
    else if (a == "--contract") only = argv[++i];
    else if (a == "--out") vsym::outdir = argv[++i];
    else if (a == "--time") vsym::time_limit = atof(argv[++i]);
    else if (a == "--paths") vsym::max_paths = atol(argv[++i]);
    else if (a == "--vc-timeout") vsym::vc_timeout = atoi(argv[++i]);
    else if (a == "--fix") fix = argv[++i];
    else if (a == "--seed") vsym::seed_base = (unsigned)atoi(argv[++i]);
  }
  if (!fix.empty())
  {
    std::ifstream f(fix.c_str()); std::string w; vsym::fixing = true; vsym::fixed_choices_p = &vsym::fixed_choices;
    while (f >> w) { if (w == "var") { std::string n, v; f >> n >> v; vsym::fixed[n] = mpq_class(atof(v.c_str())); } else if (w == "choice") { int v; f >> v; vsym::fixed_choices.push_back(v); } }
    for (auto const & r : vsym::regs()) if (only.empty() || r.name == only) vsym::run_contract(r, std::cout);
    return 0;
  }
  signal(SIGSEGV, vsym::on_signal); signal(SIGABRT, vsym::on_signal); signal(SIGFPE, vsym::on_signal); signal(SIGBUS, vsym::on_signal);
  std::ofstream res((vsym::outdir + "/result." + (only.empty() ? "all" : only) + ".json").c_str());
  for (auto const & r : vsym::regs()) if (only.empty() || r.name == only) vsym::run_contract(r, res);
  return 0;
}
