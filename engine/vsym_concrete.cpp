#include <sys/time.h>
#include <sys/resource.h>
// vsym_concrete.cpp -- engine of the concrete build: the same harness over plain double, used to replay
// counterexamples of the symbolic build and as the (labelled) bounded stand-in.
#define VSYM_CONCRETE
#include "vsym.hpp"
#include <csignal>
#include <unistd.h>
#include <ctime>

namespace vsym
{
  struct Reg { std::string name, fns; contract_fn fn; };
  static std::vector<Reg> & regs() { static std::vector<Reg> r; return r; }
  registrar::registrar(char const * name, char const * functions, contract_fn fn) { Reg r; r.name = name; r.fns = functions; r.fn = fn; regs().push_back(r); }

  struct assert_violation : std::runtime_error { assert_violation(std::string const & s) : std::runtime_error(s) {} };
  void assert_failed(char const * e, char const * f, int l)
  { std::ostringstream os; os << "library assertion failed: " << e << " at " << f << ":" << l; throw assert_violation(os.str()); }

  static std::map<std::string, double> inputs;          // current assignment (replay) or generated
  static bool replaying = false;
  static std::map<std::string, std::vector<int> > choice_seq; // replay: choices in order
  static std::vector<std::pair<std::string,int> > trail_names;
  struct Dec { int n, taken; };
  static std::vector<Dec> trail; static size_t depth = 0; static bool rnd_choice = false;
  static unsigned long long rng = 88172645463325252ULL;
  static double u01() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (double)(rng >> 11) / 9007199254740992.0; }
  static std::vector<int> replay_choices; 
  static long n_inputs = 0;
  static double perturb = 0;
  static int draw_mode = 0;

  double input(char const * name)
  {
    ++n_inputs;
    std::map<std::string,double>::iterator it = inputs.find(name);
    if (it != inputs.end()) return it->second * (1 + perturb * (u01() - 0.5)) + perturb * (u01() - 0.5);
    double v;
    double u = u01();
    switch (draw_mode)
    {
      case 0: v = std::floor(u * 7) - 3; break;
      case 1: v = (std::floor(u * 41) - 20) / 4.0; break;
      case 2: v = u * 4 - 2; break;
      default: v = std::floor(u * 3) + u01() * 0.5;
    }
    if (replaying) v = 0;
    inputs[name] = v;
    return v;
  }
  int choose(char const * name, int n)
  {
    int v;
    if (replaying) { v = depth < replay_choices.size() ? replay_choices[depth] : 0; ++depth; if (v >= n) v = n - 1; }
    else if (depth < trail.size()) v = trail[depth++].taken;
    else { Dec d; d.n = n; d.taken = rnd_choice ? (int)(u01() * n) % n : 0; trail.push_back(d); ++depth; v = d.taken; }
    trail_names.push_back(std::make_pair(std::string(name), v));
    return v;
  }
  struct failure { std::string ob, what; bool discrete; };
  static std::vector<failure> fails; static std::string ctx;
  static std::map<std::string, long> counts; static std::map<std::string,long> covers;
  static void fail(std::string const & ob, std::string const & what, bool discrete) { failure f; f.ob = ob; f.what = what + (ctx.empty() ? std::string() : " [" + ctx + "]"); f.discrete = discrete; fails.push_back(f); }
  void requires_(bool b) { if (!b) throw cut_path(); }
  void ensures(char const * name, bool b) { counts[name]++; if (!b) fail(name, "formula is false", false); }
  void lemma_(char const * name, bool b) { ensures(name, b); }
  static double tol(double a, double b) { return 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
  void ensures_eq(char const * name, double a, double b)
  {
    counts[name]++;
    if (!(std::fabs(a - b) <= tol(a, b)) && !(a == b)) { std::ostringstream os; os << std::setprecision(17) << "lhs = " << a << ", rhs = " << b; fail(name, os.str(), false); }
  }
  void ensures_le(char const * name, double a, double b)
  {
    counts[name]++;
    if (!(a <= b + tol(a, b))) { std::ostringstream os; os << std::setprecision(17) << a << " <= " << b << " is false"; fail(name, os.str(), false); }
  }
  void ensures_true(char const * name, bool b) { counts[name]++; if (!b) fail(name, "is false", true); }
  void cover(char const * name) { covers[name]++; }
  void note_failure_context(std::string const & s) { ctx = s; }

  static bool run_once(Reg const & r)     // false: precondition cut
  {
    fails.clear(); depth = 0; trail_names.clear(); ctx.clear(); n_inputs = 0;
    struct itimerval tv; tv.it_interval.tv_sec = 0; tv.it_interval.tv_usec = 0; tv.it_value.tv_sec = 60; tv.it_value.tv_usec = 0; setitimer(ITIMER_VIRTUAL, &tv, 0);   // one execution of the real code gets 60 s of processor time
    try { r.fn(); }
    catch (cut_path &) { if (fails.empty()) return false; }
    catch (assert_violation & e) { fail("no_assert_failure", e.what(), true); }
    catch (std::exception & e) { fail("no_exception", e.what(), true); }
    catch (...) { fail("no_exception", "unknown exception", true); }
    return true;
  }
  static std::string js(std::string const & s) { std::string o = "\""; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
  static std::string dump()
  {
    std::ostringstream os; os << std::setprecision(17) << "\"model\":{";
    bool f = true;
    for (std::map<std::string,double>::iterator it = inputs.begin(); it != inputs.end(); ++it) { os << (f ? "" : ",") << js(it->first) << ":\"" << it->second << "\""; f = false; }
    os << "},\"choices\":["; f = true;
    for (size_t i = 0; i < trail_names.size(); ++i) { os << (f ? "" : ",") << "[" << js(trail_names[i].first) << "," << trail_names[i].second << "]"; f = false; }
    os << "]";
    return os.str();
  }
  static std::string cur;
  static void on_signal(int sig)
  {
    fprintf(stdout, "{\"contract\":%s,\"crash\":%d,%s}\n", js(cur).c_str(), sig, dump().c_str());
    fflush(stdout); _exit(42);
  }
}
using namespace vsym;
int main(int argc, char ** argv)
{
  std::string only, replay; long nsearch = 0; double tlim = 60; unsigned long long seed = 1; long maxleaf = 1000000000L; int per_leaf = 1; bool once = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--list") { for (size_t k = 0; k < regs().size(); ++k) std::cout << regs()[k].name << "\n"; return 0; }
    else if (a == "--contract") only = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--search") nsearch = atol(argv[++i]);
    else if (a == "--per-leaf") per_leaf = atoi(argv[++i]);
    else if (a == "--once") once = true;
    else if (a == "--time") tlim = atof(argv[++i]);
    else if (a == "--seed") seed = (unsigned long long)atol(argv[++i]);
  }
  (void)maxleaf;
  signal(SIGSEGV, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGBUS, on_signal); signal(SIGVTALRM, on_signal);
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)8 << 30; setrlimit(RLIMIT_AS, &rl); }   // unbounded growth of the real code ends in bad_alloc
  for (size_t k = 0; k < regs().size(); ++k)
  {
    Reg const & r = regs()[k];
    if (!only.empty() && r.name != only) continue;
    cur = r.name; rng = 88172645463325252ULL + seed * 1000003ULL; for (int i = 0; i < 20; ++i) u01();
    if (!replay.empty())
    {
      // file: lines "var NAME VALUE" / "choice V"
      std::ifstream f(replay.c_str()); std::string w; inputs.clear(); replay_choices.clear(); replaying = true;
      while (f >> w) { if (w == "var") { std::string n, v; f >> n >> v; inputs[n] = atof(v.c_str()); } else if (w == "choice") { int v; f >> v; replay_choices.push_back(v); } }
      bool ok = run_once(r);
      std::cout << "{\"contract\":" << js(r.name) << ",\"precondition\":" << (ok ? "true" : "false") << ",\"fails\":[";
      for (size_t i = 0; i < fails.size(); ++i) std::cout << (i ? "," : "") << "[" << js(fails[i].ob) << "," << js(fails[i].what) << "]";
      std::cout << "]," << dump() << "}\n";
      continue;
    }
    // search / exhaustive enumeration of choices
    clock_t t0 = clock(); long leaves = 0, runs = 0, cuts = 0, good = 0; std::string sample; bool complete = false; std::string hits; std::set<std::string> seen;
    trail.clear(); rnd_choice = false;
    counts.clear(); covers.clear();
    for (int phase = 0; phase < 2; ++phase)
    {
      if (phase == 1) { if (complete) break; rnd_choice = true; trail.clear(); }
      long cap = phase == 0 ? nsearch : nsearch / 2 + 1;
      for (long n = 0; n < cap; )
      {
        if ((double)(clock() - t0) / CLOCKS_PER_SEC > tlim * (phase == 0 ? 0.6 : 1.0)) break;
        size_t used = 0; bool anyinput = false;
        for (int q = 0; q < per_leaf; ++q)
        {
          inputs.clear(); draw_mode = (int)(runs % 4); perturb = 0;
          bool ok = run_once(r); ++runs; ++n; used = depth; if (!ok) ++cuts; else { if (phase == 0 && q == 0) { ++good; if (sample.empty() || (good & (good - 1)) == 0) sample = dump(); } } anyinput = n_inputs > 0;
          std::vector<failure> fs = fails; std::string d = dump();
          for (size_t i = 0; i < fs.size(); ++i)
          {
            if (seen.count(fs[i].ob)) continue;
            bool robust = true;
            if (anyinput)
            {
              std::vector<Dec> sv = trail; int again = 0, tried = 0;
              std::map<std::string,double> base = inputs;
              for (int p = 0; p < 6; ++p)
              {
                inputs = base; perturb = 1e-5; trail = sv; bool ok2 = run_once(r); perturb = 0;
                if (!ok2) continue;
                ++tried; for (size_t j = 0; j < fails.size(); ++j) if (fails[j].ob == fs[i].ob) { ++again; break; }
              }
              trail = sv; inputs = base;
              robust = tried > 0 && again == tried;
            }
            if (!hits.empty()) hits += ",";
            hits += "{\"ob\":" + js(fs[i].ob) + ",\"what\":" + js(fs[i].what) + ",\"robust\":" + (robust ? "true" : "false") + "," + d + "}";
            if (robust) seen.insert(fs[i].ob);
          }
          if (hits.size() > 200000) break;
          if (!anyinput) break;
        }
        if (hits.size() > 200000) break;
        ++leaves;
        if (phase == 0)
        {
          trail.resize(std::min(trail.size(), used));
          while (!trail.empty() && trail.back().taken + 1 >= trail.back().n) trail.pop_back();
          if (trail.empty()) { if (!anyinput || once) { complete = true; break; } }
          else trail.back().taken++;
          if (trail.empty() && n >= cap) { complete = true; break; }
          if (trail.empty()) { complete = true; if (n >= cap) break; }
        }
        else trail.clear();
      }
    }
    std::cout << "{\"contract\":" << js(r.name) << ",\"functions\":" << js(r.fns) << ",\"runs\":" << runs << ",\"leaves\":" << leaves << ",\"cuts\":" << cuts << ",\"nontrivial\":" << good << ",\"sample\":{" << sample << "}" << ",\"choices_exhausted\":" << (complete ? "true" : "false")
              << ",\"time\":" << (double)(clock() - t0) / CLOCKS_PER_SEC << ",\"counts\":{";
    bool f = true;
    for (std::map<std::string,long>::iterator it = counts.begin(); it != counts.end(); ++it) { std::cout << (f ? "" : ",") << js(it->first) << ":" << it->second; f = false; }
    std::cout << "},\"covers\":{"; f = true;
    for (std::map<std::string,long>::iterator it = covers.begin(); it != covers.end(); ++it) { std::cout << (f ? "" : ",") << js(it->first) << ":" << it->second; f = false; }
    std::cout << "},\"fails\":[" << hits << "]}\n"; std::cout.flush();
  }
  return 0;
}
