// Ghost dense and associative containers: the accessors and fields of the library are instantiated over containers whose size, index and content are symbolic.
// An index becomes a std::size_t only as an opaque token; the size of the container never does, so that no comparison escapes the verifier
// (code that needs a real number there does not compile with these containers and is left to the bounded stand-in).
#ifndef VERIF_GHOST_CONTAINERS_HPP
#define VERIF_GHOST_CONTAINERS_HPP
#include "common.hpp"
#include <memory>
struct tokens
{
  static std::vector<real> & table() { static std::vector<real> t; return t; }
  static const std::size_t base = (std::size_t)1 << 40, step = (std::size_t)1 << 16;
  static std::size_t make(real const & r) { table().push_back(r); return base + (table().size() - 1) * step + step / 2; }
  static bool is(std::size_t t) { return t >= base && (t - base) / step < table().size(); }
  static real value(std::size_t t) { if (!is(t)) return real((long)t); std::size_t k = (t - base) / step; return table()[k] + real((long)(t - base - k * step) - (long)(step / 2)); }
};
struct gsize { real v; explicit gsize(real const & r) : v(r) {} };
struct gint
{
  real v; gint() : v(0) {} gint(real const & r) : v(r) {} gint(int i) : v(i) {} gint(gsize const & s) : v(s.v) {} gint(std::size_t t) : v(tokens::value(t)) {}
  operator std::size_t() const { return tokens::make(v); }
  gint operator+(gint const & o) const { return gint(v + o.v); } gint operator-(gint const & o) const { return gint(v - o.v); } gint & operator++() { v += 1; return *this; }
};
#define GCMP(OP) inline sbool operator OP(gint const & a, gint const & b) { return a.v OP b.v; } inline sbool operator OP(gsize const & a, gint const & b) { return a.v OP b.v; } inline sbool operator OP(gint const & a, gsize const & b) { return a.v OP b.v; } \
  inline sbool operator OP(gsize const & a, std::size_t b) { return a.v OP tokens::value(b); } inline sbool operator OP(std::size_t a, gsize const & b) { return tokens::value(a) OP b.v; } inline sbool operator OP(gsize const & a, gsize const & b) { return a.v OP b.v; }
GCMP(<) GCMP(<=) GCMP(>) GCMP(>=) GCMP(==) GCMP(!=)
inline gint operator+(gint const & a, int b) { return gint(a.v + real(b)); } inline gint operator+(int b, gint const & a) { return gint(a.v + real(b)); } inline gint operator-(gint const & a, int b) { return gint(a.v - real(b)); }
struct gid { typedef gint base_id_type; gint i; gid(gint const & x = gint()) : i(x) {} gint get() const { return i; } };
inline sbool operator==(gid const & a, gid const & b) { return a.i == b.i; }
struct gelement { typedef gid id_type; gid i; gelement(real const & r) : i(gint(r)) {} gid id() const { return i; } };
// content: finitely many named slots, everything else stays untouched
template <typename K> struct gslots
{
  mutable std::vector<std::pair<K, real *> > s; mutable int fresh; gslots() : fresh(0) {}
  ~gslots() { for (std::size_t i = 0; i < s.size(); ++i) delete s[i].second; }
  int find(K const & k) const { for (std::size_t i = 0; i < s.size(); ++i) if (s[i].first == k) return (int)i; return -1; }
  real & add(K const & k, real const & v) const { s.push_back(std::make_pair(k, new real(v))); return *s.back().second; }
 private: gslots(gslots const &); void operator=(gslots const &);
};
struct gdense
{
  typedef real value_type; typedef real & reference; typedef real const & const_reference; typedef real * pointer; typedef real const * const_pointer; typedef gsize size_type;
  gslots<gint> slots; real n, n0; int resizes; gdense(real const & n_) : n(n_), n0(n_), resizes(0) {}
  gsize size() const { return gsize(n); }
  bool empty() const { return n == real(0); }
  real & slot(gint const & i) const { int k = slots.find(i); if (k >= 0) return *slots.s[k].second; ++slots.fresh; return slots.add(i, i.v < n0 ? input(nm("content", slots.fresh).c_str()) : real(0)); }
  real & operator[](gint const & i) const { ensures("index_within_the_container", And(i.v >= real(0), i.v < n)); return slot(i); }
  real & operator[](std::size_t t) const { return (*this)[gint(t)]; }
  real & at(std::size_t t) const { gint i(t); if (Or(i.v < real(0), i.v >= n)) throw std::out_of_range("gdense::at"); return slot(i); }
  void resize(std::size_t t, real const & = real(0)) { n = tokens::value(t); ++resizes; if (n < n0) n0 = n; }
  void push_back(real const &) { n += 1; ++resizes; }
};
struct gmap_pair { typedef gid first_type; typedef real second_type; };
struct gmap
{
  typedef gmap_pair value_type; typedef gid key_type; typedef real mapped_type;
  struct entry { gid first; real second; };
  mutable std::vector<entry *> e; mutable std::vector<std::pair<gid, bool> > asked; mutable int fresh; int created;
  gmap() : fresh(0), created(0) {} ~gmap() { for (std::size_t i = 0; i < e.size(); ++i) delete e[i]; }
  struct const_iterator { entry const * p; const_iterator(entry const * q = 0) : p(q) {} entry const * operator->() const { return p; } entry const & operator*() const { return *p; } bool operator==(const_iterator const & o) const { return p == o.p; } bool operator!=(const_iterator const & o) const { return p != o.p; } };
  struct iterator { entry * p; iterator(entry * q = 0) : p(q) {} entry * operator->() const { return p; } entry & operator*() const { return *p; } bool operator==(iterator const & o) const { return p == o.p; } bool operator!=(iterator const & o) const { return p != o.p; } operator const_iterator() const { return const_iterator(p); } };
  // was the key present in the beginning? any answer is possible, once per key
  entry * lookup(gid const & k) const
  {
    for (std::size_t i = 0; i < e.size(); ++i) if (e[i]->first == k) return e[i];
    for (std::size_t i = 0; i < asked.size(); ++i) if (asked[i].first == k) return 0;
    bool there = choose(nm("present", ++fresh).c_str(), 2) == 1; asked.push_back(std::make_pair(k, there)); if (!there) return 0;
    entry * x = new entry; x->first = k; x->second = input(nm("content", fresh).c_str()); e.push_back(x); return x;
  }
  iterator find(gid const & k) { return iterator(lookup(k)); } const_iterator find(gid const & k) const { return const_iterator(lookup(k)); }
  iterator end() { return iterator(0); } const_iterator end() const { return const_iterator(0); }
  std::size_t count(gid const & k) const { return lookup(k) ? 1 : 0; }
  real & operator[](gid const & k) { entry * x = lookup(k); if (!x) { x = new entry; x->first = k; x->second = 0; e.push_back(x); ++created; } return x->second; }
 private: gmap(gmap const &); void operator=(gmap const &);
};
#endif
