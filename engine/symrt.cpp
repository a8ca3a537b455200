// Symbolic runtime: NaN-boxed symbolic reals, path exploration by re-execution, SMT back end (z3 over a pipe).
#include "sym.h"
#include <gmpxx.h>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
using std::string; using std::vector; using std::pair;
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<80>> BF;

static double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- terms
typedef uint32_t AtomId; typedef uint32_t MonoId;
enum AKind { A_VAR, A_INV, A_SQRT, A_SIN, A_COS, A_FN, A_DEF };
struct Poly { vector<pair<MonoId, mpq_class>> t; };
typedef std::shared_ptr<const Poly> P;
struct IV { double lo, hi; };
struct Atom { AKind k; string name; P arg, arg2; IV iv; bool angle; mpq_class dlo, dhi; };
typedef vector<pair<AtomId, int>> Mono;

struct Store {
  vector<Atom> atoms;
  vector<Mono> monos; vector<char> red;
  std::map<Mono, MonoId> monoIx;
  vector<P> vals;
  std::map<vector<pair<MonoId, string>>, AtomId> dummy;
  std::unordered_map<string, AtomId> atomIx;
  Store() { monos.push_back({}); red.push_back(0); monoIx[{}] = 0; }
};
static Store& S() { static Store* s = new Store; return *s; }

static MonoId internMono(const Mono& m) {
  auto& s = S(); auto it = s.monoIx.find(m);
  if (it != s.monoIx.end()) return it->second;
  MonoId id = s.monos.size(); s.monos.push_back(m); s.monoIx[m] = id;
  char r = 0;
  for (auto& f : m) { AKind k = s.atoms[f.first].k; if ((k == A_SQRT || k == A_SIN) && (f.second >= 2 || f.second <= -1)) r = 1; }
  s.red.push_back(r);
  return id;
}
static std::unordered_map<uint64_t, MonoId>& mmCache() { static auto* c = new std::unordered_map<uint64_t, MonoId>; return *c; }
static MonoId mulMono(MonoId a, MonoId b) {
  if (a == 0) return b; if (b == 0) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = mmCache().find(key); if (it != mmCache().end()) return it->second;
  auto& s = S(); const Mono x = s.monos[a], y = s.monos[b]; Mono r; r.reserve(x.size() + y.size());
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); i++; j++; }
  }
  MonoId id = internMono(r); mmCache()[key] = id; return id;
}
static P mk(Poly&& p) { return std::make_shared<const Poly>(std::move(p)); }
static P pconst(const mpq_class& q) { Poly p; if (q != 0) p.t.push_back({0, q}); return mk(std::move(p)); }
static bool isConst(const P& p) { return p->t.empty() || (p->t.size() == 1 && p->t[0].first == 0); }
static mpq_class cval(const P& p) { return p->t.empty() ? mpq_class(0) : p->t[0].second; }
static P patom(AtomId a, int e = 1) { Poly p; p.t.push_back({internMono({{a, e}}), mpq_class(1)}); return mk(std::move(p)); }
static P padd(const P& a, const P& b, int sb = 1) {
  Poly r; size_t i = 0, j = 0; auto &x = a->t, &y = b->t; r.t.reserve(x.size() + y.size());
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.t.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) { r.t.push_back(y[j]); if (sb < 0) r.t.back().second = -r.t.back().second; j++; }
    else { mpq_class c = sb < 0 ? mpq_class(x[i].second - y[j].second) : mpq_class(x[i].second + y[j].second); if (c != 0) r.t.push_back({x[i].first, c}); i++; j++; }
  }
  return mk(std::move(r));
}
static P pscale(const P& a, const mpq_class& c) {
  if (c == 0) return pconst(0); Poly r; r.t = a->t; for (auto& x : r.t) x.second *= c; return mk(std::move(r));
}
static P pneg(const P& a) { return pscale(a, -1); }
static size_t g_maxTerms = 60000;
static P pmul(const P& a, const P& b);
static P reducePoly(std::unordered_map<MonoId, mpq_class>& acc) {
  auto& s = S();
  P extra = nullptr;
  Poly r;
  for (auto& kv : acc) {
    if (kv.second == 0) continue;
    if (!s.red[kv.first]) { r.t.push_back({kv.first, kv.second}); continue; }
    Mono m = s.monos[kv.first], keep; P f = pconst(kv.second);
    for (auto& x : m) {
      const Atom at = s.atoms[x.first];
      if (at.k == A_SQRT && (x.second >= 2)) { for (int i = 0; i < x.second / 2; i++) f = pmul(f, at.arg); if (x.second % 2) keep.push_back({x.first, 1}); }
      else if (at.k == A_SIN && x.second >= 2) {
        AtomId ca = s.atomIx["cos:" + at.name.substr(4)];
        P c2 = padd(pconst(1), patom(ca, 2), -1);
        for (int i = 0; i < x.second / 2; i++) f = pmul(f, c2); if (x.second % 2) keep.push_back({x.first, 1});
      } else keep.push_back(x);
    }
    Poly kp; kp.t.push_back({internMono(keep), mpq_class(1)});
    if (s.red[kp.t[0].first]) { fprintf(stderr, "symrt: irreducible monomial\n"); abort(); }
    f = pmul(f, mk(std::move(kp)));
    extra = extra ? padd(extra, f) : f;
  }
  std::sort(r.t.begin(), r.t.end(), [](auto& x, auto& y) { return x.first < y.first; });
  P rr = mk(std::move(r));
  return extra ? padd(rr, extra) : rr;
}
static P pmul(const P& a, const P& b) {
  if (a->t.empty() || b->t.empty()) return pconst(0);
  if (isConst(a)) return pscale(b, cval(a));
  if (isConst(b)) return pscale(a, cval(b));
  std::unordered_map<MonoId, mpq_class> acc; acc.reserve(a->t.size() * 2 + b->t.size() * 2);
  for (auto& x : a->t) for (auto& y : b->t) { mpq_class c = x.second * y.second; acc[mulMono(x.first, y.first)] += c; }
  return reducePoly(acc);
}
static string mpqs(const mpq_class& q) { return q.get_str(); }
static string pkey(const P& p) {
  string s; for (auto& x : p->t) { s += std::to_string(x.first); s += ':'; s += x.second.get_str(62); s += ';'; } return s;
}

// ---------------------------------------------------------------- handles
static const uint64_t TAG = 0x7FFD000000000000ull;
static inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool isH(double d) { return (bitsOf(d) & 0xFFFF000000000000ull) == TAG; }
static inline bool isPlainNaN(double d) { return d != d && !isH(d); }
static P valOf(double d) {
  if (isH(d)) return S().vals[bitsOf(d) & 0xFFFFFFFFull];
  return pconst(mpq_class(d));
}
static double mkVal(const P& p) {
  if (isConst(p)) {
    mpq_class c = cval(p); double d = c.get_d();
    if (std::isfinite(d) && mpq_class(d) == c) return d;
  }
  auto& s = S(); uint64_t id = s.vals.size(); s.vals.push_back(p);
  uint64_t u = TAG | id; double r; memcpy(&r, &u, 8); return r;
}

// ---------------------------------------------------------------- witness
struct WV { bool exact; mpq_class q; BF f; };
static BF q2bf(const mpq_class& q) {
  // scale to keep precision
  mpz_class n = q.get_num(), d = q.get_den();
  size_t bn = mpz_sizeinbase(n.get_mpz_t(), 2), bd = mpz_sizeinbase(d.get_mpz_t(), 2);
  if (bn < 1000 && bd < 1000) { BF a(n.get_str()), b(d.get_str()); return a / b; }
  long sh = (long)bd - (long)bn + 400; mpz_class t;
  if (sh > 0) t = (n << sh) / d; else t = (n >> (-sh)) / d;
  BF r(t.get_str()); return ldexp(r, (int)-sh);
}
static mpq_class bf2q(const BF& f, int bits = 90) {
  if (f == 0) return 0; int e; BF m = frexp(f, &e); BF s = ldexp(m, bits); s = floor(s);
  std::ostringstream o; o << std::fixed << std::setprecision(0) << s; mpz_class z(o.str());
  mpq_class q(z); if (e - bits > 0) q *= mpq_class(mpz_class(1) << (e - bits)); else q /= mpq_class(mpz_class(1) << (bits - e));
  return q;
}
static std::unordered_map<AtomId, mpq_class> g_wit;      // VAR atoms
static std::unordered_map<AtomId, WV> g_watom;           // cache
static bool g_badWit = false;
static WV evalPoly(const P& p);
static WV evalAtom(AtomId a) {
  auto it = g_watom.find(a); if (it != g_watom.end()) return it->second;
  const Atom at = S().atoms[a]; WV r; r.exact = true; r.f = 0;
  switch (at.k) {
  case A_VAR: r.q = g_wit[a]; r.f = q2bf(r.q); break;
  case A_INV: { WV d = evalPoly(at.arg); if (d.exact) { if (d.q == 0) { g_badWit = true; r.q = 0; } else r.q = 1 / d.q; r.f = q2bf(r.q); } else { r.exact = false; r.f = d.f == 0 ? BF(0) : BF(1 / d.f); } break; }
  case A_DEF: r = evalPoly(at.arg); break;
  case A_SQRT: {
    WV d = evalPoly(at.arg);
    if (d.exact && d.q >= 0) {
      mpz_class n = d.q.get_num(), m = d.q.get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(m.get_mpz_t())) { r.q = mpq_class(sqrt(n), sqrt(m)); r.f = q2bf(r.q); break; }
    }
    r.exact = false; BF x = d.exact ? q2bf(d.q) : d.f; r.f = x <= 0 ? BF(0) : sqrt(x); break; }
  case A_SIN: case A_COS: { WV d = evalPoly(at.arg); BF x = d.exact ? q2bf(d.q) : d.f; r.exact = false; r.f = at.k == A_SIN ? BF(sin(x)) : BF(cos(x)); break; }
  case A_FN: {
    r.exact = false; WV d = evalPoly(at.arg); BF x = d.exact ? q2bf(d.q) : d.f;
    string n = at.name.substr(0, at.name.find(':'));
    if (n == "acos") r.f = x > 1 ? BF(0) : x < -1 ? BF(acos(BF(-1))) : BF(acos(x));
    else if (n == "asin") r.f = x > 1 ? asin(BF(1)) : x < -1 ? asin(BF(-1)) : BF(asin(x));
    else if (n == "atan") r.f = atan(x);
    else if (n == "exp") r.f = exp(x);
    else if (n == "log") r.f = x > 0 ? BF(log(x)) : BF(0);
    else if (n == "atan2") { WV e = evalPoly(at.arg2); BF y = e.exact ? q2bf(e.q) : e.f; r.f = (x == 0 && y == 0) ? BF(0) : BF(atan2(x, y)); }
    else if (n == "pow") { WV e = evalPoly(at.arg2); BF y = e.exact ? q2bf(e.q) : e.f; r.f = x > 0 ? BF(pow(x, y)) : BF(0); }
    else r.f = 0;
    break; }
  }
  g_watom[a] = r; return r;
}
static WV evalPoly(const P& p) {
  WV r; r.exact = true; r.q = 0; r.f = 0; vector<pair<const Mono*, const mpq_class*>> ts; auto& s = S();
  for (auto& t : p->t) for (auto& f : s.monos[t.first]) if (!evalAtom(f.first).exact) r.exact = false;
  if (r.exact) {
    for (auto& t : p->t) { mpq_class m = t.second; const Mono mm = s.monos[t.first];
      for (auto& f : mm) { mpq_class q = evalAtom(f.first).q; int e = f.second; if (e < 0) { if (q == 0) { g_badWit = true; q = 0; } else q = 1 / q; e = -e; } for (int i = 0; i < e; i++) m *= q; } r.q += m; }
    r.f = q2bf(r.q);
  } else {
    for (auto& t : p->t) { BF m = q2bf(t.second); const Mono mm = s.monos[t.first];
      for (auto& f : mm) { WV w = evalAtom(f.first); BF v = w.exact ? q2bf(w.q) : w.f; int e = f.second; if (e < 0) { v = v == 0 ? BF(0) : BF(1 / v); e = -e; } for (int i = 0; i < e; i++) m *= v; } r.f += m; }
  }
  return r;
}

// ---------------------------------------------------------------- intervals (outward rounded by a relative slack)
static IV widen(double lo, double hi) {
  auto dn = [](double x) { return std::isinf(x) ? x : std::nextafter(x - std::fabs(x) * 1e-15, -INFINITY); };
  auto up = [](double x) { return std::isinf(x) ? x : std::nextafter(x + std::fabs(x) * 1e-15, INFINITY); };
  if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
  return {dn(lo), up(hi)};
}
static IV imul(IV a, IV b) {
  double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; double lo = INFINITY, hi = -INFINITY;
  for (double x : c) { if (std::isnan(x)) x = 0; lo = std::min(lo, x); hi = std::max(hi, x); }
  return widen(lo, hi);
}
static IV ipow(IV a, int e) {
  if (e < 0) { if (a.lo <= 0 && a.hi >= 0) return {-INFINITY, INFINITY}; IV b = widen(1 / a.hi, 1 / a.lo); return ipow(b, -e); }
  IV r = {1, 1}; for (int i = 0; i < e; i++) r = imul(r, a);
  if (e % 2 == 0 && r.lo < 0) { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); r = widen(0, std::pow(m, e)); if (r.lo < 0) r.lo = 0; }
  return r;
}
static IV ivPoly(const P& p) {
  auto& s = S(); double lo = 0, hi = 0;
  for (auto& t : p->t) { double c = t.second.get_d(); IV m = widen(c, c); for (auto& f : s.monos[t.first]) m = imul(m, ipow(s.atoms[f.first].iv, f.second));
    IV r = widen(lo + m.lo, hi + m.hi); lo = r.lo; hi = r.hi; }
  if (isConst(p)) { double c = cval(p).get_d(); return widen(c, c); }
  return {lo, hi};
}

// ---------------------------------------------------------------- path state
enum Rel { R_LT, R_LE, R_EQ, R_NE, R_GT, R_GE };
static int relMask(Rel r) { switch (r) { case R_LT: return 1; case R_LE: return 3; case R_EQ: return 2; case R_NE: return 5; case R_GT: return 4; default: return 6; } } // bits: - 0 +
struct Cons { P p; int mask; };
struct Dec { char kind; long v; int taken; };           // 'B' branch, 'I' integer split, 'C' choice
struct AltWit { vector<pair<string, string>> v; };
static vector<Dec> g_prefix; static size_t g_dpos = 0; static vector<Dec> g_trace;
static vector<Cons> g_pc; static std::unordered_map<string, int> g_known;
static vector<pair<string, string>> g_initWit;          // witness for the prefix
static vector<AtomId> g_vars; static std::map<string, AtomId> g_varIx;
static vector<pair<string, long>> g_choices;
static int g_out = -1;                                   // result pipe
static long n_dec, n_q, n_sat, n_unsat, n_unk, n_ob, n_obExact, n_obTol, n_obInc, n_obBool; static double t_solve;
static int g_timeoutMs = 4000; static double g_pathDeadline = 0;
static std::set<string> g_fns;

static void emit(const string& s) { string l = s + "\n"; size_t o = 0; while (o < l.size()) { ssize_t k = write(g_out, l.data() + o, l.size() - o); if (k <= 0) _exit(97); o += k; } }
static string esc(string s) { for (auto& c : s) if (c == '\n' || c == '\t') c = ' '; return s; }

// ---------------------------------------------------------------- solver
struct Solver {
  int in = -1, out = -1; pid_t pid = -1; string cmd;
  void start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); close(a[0]); close(a[1]); close(b[0]); close(b[1]); if (g_out >= 0) close(g_out);
      execlp("z3-new", "z3-new", "-in", "-memory:3000", (char*)0); execlp("z3", "z3", "-in", (char*)0); _exit(127); }
    close(a[0]); close(b[1]); in = a[1]; out = b[0];
  }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); close(in); close(out); pid = -1; } }
  bool send(const string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(in, s.data() + o, s.size() - o); if (k <= 0) return false; o += k; } return true; }
  // read until the sentinel line
  bool recv(string& r, double tmo) {
    r.clear(); double end = nowS() + tmo; char buf[65536];
    while (true) {
      size_t k = r.find("<<END>>"); if (k != string::npos) { r.resize(k); return true; }
      double left = end - nowS(); if (left <= 0) return false;
      struct pollfd pf = {out, POLLIN, 0}; int pr = poll(&pf, 1, (int)(left * 1000) + 1); if (pr <= 0) return false;
      ssize_t n = read(out, buf, sizeof buf); if (n <= 0) return false; r.append(buf, n);
    }
  }
};
static Solver g_solver; static bool g_solverBroken = false;

static string qlit(const mpq_class& q) {
  mpz_class n = q.get_num(), d = q.get_den(); bool neg = n < 0; if (neg) n = -n;
  string s = n.get_str() + ".0"; if (d != 1) s = "(/ " + s + " " + d.get_str() + ".0)"; return neg ? "(- " + s + ")" : s;
}
static string aname(AtomId a) {
  return "a" + std::to_string(a);
}
static string iname(AtomId a) { return "ia" + std::to_string(a); }   // 1/var for Laurent exponents
static string polyS(const P& p, std::set<AtomId>* atoms, std::set<AtomId>* invVars) {
  if (p->t.empty()) return "0.0";
  auto& s = S(); string r; if (p->t.size() > 1) r = "(+";
  for (auto& t : p->t) {
    if (p->t.size() > 1) r += ' ';
    const Mono& m = s.monos[t.first];
    if (m.empty()) { r += qlit(t.second); continue; }
    int nf = 0; string f; 
    for (auto& x : m) { if (atoms) atoms->insert(x.first); if (x.second < 0 && invVars) invVars->insert(x.first);
      for (int i = 0; i < std::abs(x.second); i++) { f += ' '; f += x.second > 0 ? aname(x.first) : iname(x.first); nf++; } }
    if (t.second != 1) { r += "(* " + qlit(t.second) + f + ")"; }
    else if (nf == 1) r += f.substr(1); else r += "(*" + f + ")";
  }
  if (p->t.size() > 1) r += ")";
  return r;
}
static string consS(const P& p, int mask, std::set<AtomId>* a, std::set<AtomId>* iv) {
  string e = polyS(p, a, iv);
  switch (mask) { case 1: return "(< " + e + " 0.0)"; case 3: return "(<= " + e + " 0.0)"; case 2: return "(= " + e + " 0.0)"; case 5: return "(not (= " + e + " 0.0))"; case 4: return "(> " + e + " 0.0)"; case 6: return "(>= " + e + " 0.0)"; case 0: return "false"; default: return "true"; }
}
static void polyAtoms(const P& p, std::set<AtomId>& out) { for (auto& t : p->t) for (auto& f : S().monos[t.first]) out.insert(f.first); }
// transitive closure of atom dependencies
static void closure(std::set<AtomId>& as) {
  vector<AtomId> w(as.begin(), as.end());
  while (!w.empty()) { AtomId a = w.back(); w.pop_back(); const Atom& at = S().atoms[a]; std::set<AtomId> n;
    if (at.k == A_SIN || at.k == A_COS) { // sin and cos of the same argument come together
      auto it = S().atomIx.find((at.k == A_SIN ? "cos:" : "sin:") + at.name.substr(4)); if (it != S().atomIx.end()) n.insert(it->second); }
    else { if (at.arg) polyAtoms(at.arg, n); if (at.arg2) polyAtoms(at.arg2, n); }
    for (AtomId x : n) if (as.insert(x).second) w.push_back(x); }
}
struct Q { vector<Cons> cs; vector<string> raw; std::set<AtomId> rawAtoms, rawInv; };
enum Res { UNSAT, SAT, UNK };
static string dlit(double d) { return qlit(mpq_class(d)); }
// ---------------------------------------------------------------- interval branch and bound
// Queries over one or two variables that involve square roots are hard for nlsat; for those a rigorous branch and bound with
// mean-value forms (value at the centre + interval gradient) tries to show that no point of the box satisfies every constraint.
// It only ever answers "unsatisfiable"; everything else goes to the solver.
static long n_icp = 0;
struct Icp {
  vector<AtomId> vars; vector<IV> box; vector<BF> c; double deadline; 
  struct AV { IV r; BF v; vector<IV> g; bool ok; }; std::unordered_map<AtomId, AV> memo;
  static IV iadd(IV a, IV b) { return widen(a.lo + b.lo, a.hi + b.hi); }
  static IV meet(IV a, IV b) { IV r = {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; if (r.lo > r.hi) return a; return r; }
  static IV tight(const BF& v) { double d = v.convert_to<double>(); IV w = widen(d, d); w.lo -= 1e-30; w.hi += 1e-30; return w; }
  static bool fin(IV a) { return std::isfinite(a.lo) && std::isfinite(a.hi); }
  AV atom(AtomId a) {
    auto it = memo.find(a); if (it != memo.end()) return it->second; const Atom at = S().atoms[a]; AV r; r.ok = true; r.g.assign(vars.size(), {0, 0}); r.v = 0; r.r = {-INFINITY, INFINITY};
    if (at.k == A_VAR) { for (size_t i = 0; i < vars.size(); i++) if (vars[i] == a) { r.r = box[i]; r.v = c[i]; r.g[i] = {1, 1}; } }
    else { AV x = poly(at.arg);
      if (at.k == A_DEF) r = x;
      else if (at.k == A_INV) { IV q = x.r; if (!x.ok || (q.lo <= 0 && q.hi >= 0) || x.v == 0) { r.ok = false; } else { r.r = widen(1 / q.hi, 1 / q.lo); r.v = 1 / x.v; IV d = imul(r.r, r.r); for (size_t i = 0; i < vars.size(); i++) { IV t = imul(x.g[i], d); r.g[i] = {-t.hi, -t.lo}; } } }
      else if (at.k == A_SQRT) { IV q = x.r; if (q.lo < 0) q.lo = 0; if (!x.ok || q.hi < 0 || x.v < 0) r.ok = false; else { r.r = widen(std::sqrt(q.lo), std::sqrt(q.hi)); if (r.r.lo < 0) r.r.lo = 0; r.v = sqrt(x.v); if (q.lo <= 0) for (auto& g : r.g) g = {-INFINITY, INFINITY}; else { IV d = widen(0.5 / r.r.hi, 0.5 / r.r.lo); for (size_t i = 0; i < vars.size(); i++) r.g[i] = imul(x.g[i], d); } } }
      else r.ok = false;
      if (r.ok && at.k != A_SQRT && at.k != A_DEF) r.r = meet(r.r, at.iv); }
    memo[a] = r; return r;
  }
  AV poly(const P& p) {
    AV r; r.ok = true; r.v = 0; r.r = {0, 0}; size_t n = vars.size(); r.g.assign(n, {0, 0}); auto& s = S();
    for (auto& t : p->t) {
      double cd = t.second.get_d(); IV m = widen(cd, cd); BF v = q2bf(t.second); const Mono mm = s.monos[t.first]; vector<AV> f; vector<IV> pw;
      for (auto& x : mm) { AV a = atom(x.first); if (!a.ok || (x.second < 0 && (a.v == 0 || (a.r.lo <= 0 && a.r.hi >= 0)))) { r.ok = false; return r; } f.push_back(a); pw.push_back(ipow(a.r, x.second)); m = imul(m, pw.back()); int e = std::abs(x.second); BF b = x.second < 0 ? BF(1 / a.v) : a.v; for (int i = 0; i < e; i++) v *= b; }
      r.r = iadd(r.r, m); r.v += v;
      for (size_t k = 0; k < n; k++) for (size_t i = 0; i < mm.size(); i++) { IV g = f[i].g[k]; if (g.lo == 0 && g.hi == 0) continue; IV d = imul(widen(cd * mm[i].second, cd * mm[i].second), g); d = imul(d, ipow(f[i].r, mm[i].second - 1)); for (size_t j = 0; j < mm.size(); j++) if (j != i) d = imul(d, pw[j]); r.g[k] = iadd(r.g[k], d); }
    }
    IV mv = tight(r.v); bool ok = true; for (size_t k = 0; k < n; k++) { if (!fin(r.g[k])) { ok = false; break; } double cc = c[k].convert_to<double>(); IV d = widen(box[k].lo - cc, box[k].hi - cc); d.lo -= 1e-300; d.hi += 1e-300; mv = iadd(mv, imul(r.g[k], d)); }
    if (ok && fin(mv)) r.r = meet(r.r, mv); return r;
  }
  // 1: some constraint fails on the whole box
  bool refuted(const vector<Cons>& cs) { memo.clear(); for (auto& k : cs) { AV a = poly(k.p); if (!a.ok) continue; int m = 7; if (a.r.lo > 0) m = 4; else if (a.r.hi < 0) m = 1; else { if (a.r.lo >= 0) m = 6; if (a.r.hi <= 0) m &= 3; } if (!(m & k.mask)) return true; } return false; }
};
static bool icpUnsat(const vector<Cons>& cs, const std::set<AtomId>& as, double maxT, const vector<pair<AtomId, mpq_class>>* fix) {
  Icp I; bool root = false; size_t terms = 0;
  for (AtomId a : as) { const Atom& at = S().atoms[a]; if (at.k == A_VAR) { if (at.angle) return false; I.vars.push_back(a); } else if (at.k == A_SQRT) { if (!isConst(at.arg)) root = true; } else if (at.k != A_INV && at.k != A_DEF) return false; if (at.arg) terms += at.arg->t.size(); }
  for (auto& k : cs) terms += k.p->t.size(); bool inv = false; for (AtomId a : as) if (S().atoms[a].k == A_INV) inv = true;
  if (!(root || (inv && I.vars.size() == 1)) || I.vars.empty() || I.vars.size() > 2 || terms > 4000) return false; if (!root) maxT = std::min(maxT, 0.3);
  vector<IV> b0; for (AtomId a : I.vars) { IV v = S().atoms[a].iv; if (fix) for (auto& f : *fix) if (f.first == a) v = widen(f.second.get_d(), f.second.get_d()); if (!Icp::fin(v)) return false; b0.push_back(v); }
  double end = nowS() + maxT; vector<vector<IV>> st{b0}; long cnt = 0;
  while (!st.empty()) {
    if (++cnt > 3000 || nowS() > end) return false;
    I.box = st.back(); st.pop_back(); I.c.clear(); for (auto& v : I.box) I.c.push_back(BF(0.5 * v.lo + 0.5 * v.hi));
    if (I.refuted(cs)) continue;
    size_t w = 0; double ww = -1; for (size_t i = 0; i < I.box.size(); i++) { double rel = (I.box[i].hi - I.box[i].lo) / (b0[i].hi - b0[i].lo + 1e-300); if (rel > ww) { ww = rel; w = i; } }
    if (ww < 1e-6) return false;
    double mid = 0.5 * I.box[w].lo + 0.5 * I.box[w].hi; auto l = I.box, h = I.box; l[w].hi = mid; h[w].lo = mid; st.push_back(l); st.push_back(h);
  }
  return true;
}
// Slice the path condition to the cone of influence of q, emit, solve.  model (may be null) receives var values.
static Res solve(const Q& q, vector<pair<string, string>>* model, int tmo, bool usePC = true, bool linearize = false, vector<pair<AtomId, mpq_class>>* fix = nullptr) {
  std::set<AtomId> as = q.rawAtoms; for (auto& c : q.cs) polyAtoms(c.p, as); closure(as);
  vector<const Cons*> sel; 
  if (usePC) {
    vector<std::set<AtomId>> ca(g_pc.size()); vector<char> in(g_pc.size(), 0);
    for (size_t i = 0; i < g_pc.size(); i++) { polyAtoms(g_pc[i].p, ca[i]); closure(ca[i]); }
    bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < g_pc.size(); i++) if (!in[i]) { bool hit = false; for (AtomId a : ca[i]) if (as.count(a)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; as.insert(ca[i].begin(), ca[i].end()); } } }
    for (size_t i = 0; i < g_pc.size(); i++) if (in[i]) sel.push_back(&g_pc[i]);
  }
  if (!linearize && q.raw.empty()) { vector<Cons> cs = q.cs; for (auto* c : sel) cs.push_back(*c); std::set<AtomId> all = as; closure(all); double t0 = nowS(); bool u = icpUnsat(cs, all, tmo / 2000.0, fix); t_solve += nowS() - t0; if (u) { n_q++; n_unsat++; n_icp++; emit("ICP"); return UNSAT; } }
  std::set<AtomId> iv = q.rawInv; std::set<AtomId> as2 = as; string body;
  bool nonlin = false;
  auto chk = [&](const P& p) { for (auto& t : p->t) { int d = 0; for (auto& f : S().monos[t.first]) d += std::abs(f.second); if (d > 1) nonlin = true; } };
  if (!linearize) {
    for (auto* c : sel) { body += "(assert " + consS(c->p, c->mask, &as2, &iv) + ")\n"; chk(c->p); }
    for (auto& c : q.cs) { body += "(assert " + consS(c.p, c.mask, &as2, &iv) + ")\n"; chk(c.p); }
    for (auto& r : q.raw) { body += "(assert " + r + ")\n"; nonlin = true; }
  }
  string decl;
  if (linearize) {
    // every monomial becomes an independent variable with its interval: a sound relaxation for unsat
    std::map<MonoId, string> mv; auto lin = [&](const P& p) { string r = "(+ 0.0"; for (auto& t : p->t) { if (t.first == 0) { r += " " + qlit(t.second); continue; }
        auto it = mv.find(t.first); if (it == mv.end()) { string nm = "m" + std::to_string(t.first); it = mv.insert({t.first, nm}).first; Poly one; one.t.push_back({t.first, mpq_class(1)}); IV i = ivPoly(mk(std::move(one)));
          decl += "(declare-fun " + nm + " () Real)\n"; if (std::isfinite(i.lo)) decl += "(assert (>= " + nm + " " + dlit(i.lo) + "))\n"; if (std::isfinite(i.hi)) decl += "(assert (<= " + nm + " " + dlit(i.hi) + "))\n"; }
        r += " (* " + qlit(t.second) + " " + it->second + ")"; } return r + ")"; };
    auto lc = [&](const P& p, int mask) { string e = lin(p); switch (mask) { case 1: return "(< " + e + " 0.0)"; case 3: return "(<= " + e + " 0.0)"; case 2: return "(= " + e + " 0.0)"; case 5: return "(not (= " + e + " 0.0))"; case 4: return "(> " + e + " 0.0)"; default: return "(>= " + e + " 0.0)"; } };
    for (auto* c : sel) if (c->mask != 5) body += "(assert " + lc(c->p, c->mask) + ")\n";   // a relaxation: disequalities add nothing
    for (auto& c : q.cs) body += "(assert " + lc(c.p, c.mask) + ")\n";
  } else {
    // definitional constraints of atoms
    std::set<AtomId> done; vector<AtomId> w(as2.begin(), as2.end());
    while (!w.empty()) {
      AtomId a = w.back(); w.pop_back(); if (!done.insert(a).second) continue; const Atom at = S().atoms[a];
      decl = "(declare-fun " + aname(a) + " () Real)\n" + decl;
      if (std::isfinite(at.iv.lo) && at.k != A_VAR) body += "(assert (>= " + aname(a) + " " + dlit(at.iv.lo) + "))\n";
      if (std::isfinite(at.iv.hi) && at.k != A_VAR) body += "(assert (<= " + aname(a) + " " + dlit(at.iv.hi) + "))\n";
      std::set<AtomId> n;
      switch (at.k) {
      case A_VAR: body += "(assert (>= " + aname(a) + " " + qlit(at.dlo) + "))\n(assert (<= " + aname(a) + " " + qlit(at.dhi) + "))\n"; break;
      case A_INV: body += "(assert (= (* " + aname(a) + " " + polyS(at.arg, &n, &iv) + ") 1.0))\n"; nonlin = true; break;
      case A_SQRT: body += "(assert (>= " + aname(a) + " 0.0))\n(assert (= (* " + aname(a) + " " + aname(a) + ") " + polyS(at.arg, &n, &iv) + "))\n"; nonlin = true; break;
      case A_DEF: body += "(assert (= " + aname(a) + " " + polyS(at.arg, &n, &iv) + "))\n"; chk(at.arg); break;
      case A_COS: { auto it = S().atomIx.find("sin:" + at.name.substr(4)); if (it != S().atomIx.end()) { n.insert(it->second); body += "(assert (= (+ (* " + aname(a) + " " + aname(a) + ") (* " + aname(it->second) + " " + aname(it->second) + ")) 1.0))\n"; nonlin = true; } break; }
      case A_SIN: { auto it = S().atomIx.find("cos:" + at.name.substr(4)); if (it != S().atomIx.end()) n.insert(it->second); break; }
      default: break;
      }
      for (AtomId x : n) if (!done.count(x)) w.push_back(x);
    }
    for (AtomId a : iv) { decl += "(declare-fun " + iname(a) + " () Real)\n"; body += "(assert (= (* " + aname(a) + " " + iname(a) + ") 1.0))\n"; nonlin = true; if (!done.count(a)) decl = "(declare-fun " + aname(a) + " () Real)\n" + decl; }
    if (fix) for (auto& f : *fix) if (done.count(f.first)) body += "(assert (= " + aname(f.first) + " " + qlit(f.second) + "))\n";
    as2 = done;
  }
  string txt = "(reset)\n(set-option :timeout " + std::to_string(tmo) + ")\n(set-logic " + (nonlin ? "QF_NRA" : "QF_LRA") + ")\n" + decl + body + "(check-sat)\n(echo \"<<END>>\")\n";
  if (getenv("SYM_DUMPQ")) { static int k = 0; string fn = string(getenv("SYM_DUMPQ")) + "/" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { fputs(txt.c_str(), f); fclose(f); } }
  n_q++; double t0 = nowS(); string r;
  if (g_solverBroken) { g_solver.start(); g_solverBroken = false; }
  bool ok = g_solver.send(txt) && g_solver.recv(r, tmo / 1000.0 + 3.0);
  t_solve += nowS() - t0;
  if (!ok) { g_solver.stop(); g_solver.start(); emit("SOLVERRESTART"); n_unk++; return UNK; }
  if (r.find("(error") != string::npos) { n_unk++; if (getenv("SYM_DEBUG")) fprintf(stderr, "solver error: %s\n", r.substr(0, 400).c_str()); return UNK; }
  if (r.find("unsat") != string::npos) { n_unsat++; return UNSAT; }
  if (r.find("unknown") != string::npos || r.find("timeout") != string::npos) { n_unk++; return UNK; }
  if (r.find("sat") == string::npos) { n_unk++; return UNK; }
  n_sat++;
  if (model) {
    model->clear(); string gv = "(get-value ("; vector<AtomId> vs; for (AtomId a : as2) if (S().atoms[a].k == A_VAR) { vs.push_back(a); gv += aname(a) + " "; }
    if (!vs.empty()) {
      gv += "))\n"; g_solver.send(gv + "(echo \"<<END>>\")\n"); string m; if (!g_solver.recv(m, 10)) { g_solver.stop(); g_solver.start(); emit("SOLVERRESTART"); return UNK; }
      if (m.find("root-obj") != string::npos) { g_solver.send("(set-option :pp.decimal true)(set-option :pp.decimal_precision 40)" + gv + "(set-option :pp.decimal false)(echo \"<<END>>\")\n"); if (!g_solver.recv(m, 10)) { g_solver.stop(); g_solver.start(); emit("SOLVERRESTART"); return UNK; } }
      // parse
      size_t i = 0; std::function<mpq_class()> num = [&]() -> mpq_class {
        while (i < m.size() && isspace(m[i])) i++;
        if (m[i] == '(') { i++; while (isspace(m[i])) i++; char op = m[i++]; mpq_class x = num(); while (isspace(m[i])) i++; if (m[i] != ')') { mpq_class y = num(); x = op == '/' ? (y == 0 ? mpq_class(0) : mpq_class(x / y)) : op == '-' ? mpq_class(x - y) : mpq_class(x + y); } else if (op == '-') x = -x; while (isspace(m[i])) i++; if (m[i] == ')') i++; return x; }
        string t; while (i < m.size() && (isdigit(m[i]) || m[i] == '.' || m[i] == '-' || m[i] == '?')) { if (m[i] != '?') t += m[i]; i++; }
        size_t dot = t.find('.'); if (dot == string::npos) return mpq_class(t.empty() ? "0" : t);
        string ip = t.substr(0, dot), fp = t.substr(dot + 1); mpz_class den = 1; for (size_t k = 0; k < fp.size(); k++) den *= 10; mpq_class v(mpz_class(ip + fp, 10), den); v.canonicalize(); return v; };
      for (size_t k = 0; k < vs.size(); k++) { string key = "(" + aname(vs[k]) + " "; size_t p = m.find(key); if (p == string::npos) continue; i = p + key.size(); mpq_class v = num(); model->push_back({S().atoms[vs[k]].name, v.get_str()}); }
    }
    // variables outside the cone keep the current witness
    std::set<string> have; for (auto& x : *model) have.insert(x.first);
    for (AtomId a : g_vars) if (!have.count(S().atoms[a].name)) model->push_back({S().atoms[a].name, g_wit[a].get_str()});
  }
  return SAT;
}

static void endPath(const char* why) {
  std::ostringstream o; o << "STAT\t" << n_dec << "\t" << n_q << "\t" << n_sat << "\t" << n_unsat << "\t" << n_unk << "\t" << t_solve << "\t" << n_ob << "\t" << n_obExact << "\t" << n_obTol << "\t" << n_obInc << "\t" << n_obBool; emit(o.str());
  string f = "FNS"; for (auto& x : g_fns) f += "\t" + x; emit(f);
  emit(string("END\t") + why); _exit(0);
}
static string witS(const vector<pair<string, string>>* m = nullptr) {
  string r; for (auto& c : g_choices) r += "\tc:" + c.first + "=" + std::to_string(c.second);
  if (m) { for (auto& x : *m) r += "\tr:" + x.first + "=" + x.second; }
  else for (AtomId a : g_vars) r += "\tr:" + S().atoms[a].name + "=" + g_wit[a].get_str();
  return r;
}
static string traceS(const vector<Dec>& d) { string r; for (auto& x : d) { r += x.kind; r += std::to_string(x.v); r += x.taken ? '+' : '-'; r += ','; } return r; }
static void pushAlt(const Dec& d, const vector<pair<string, string>>* m) {
  string r = "ALT\t" + traceS(g_trace) + d.kind + std::to_string(d.v) + (d.taken ? '+' : '-') + ",";
  if (m) { for (auto& x : *m) r += "\t" + x.first + "=" + x.second; } else for (AtomId a : g_vars) r += "\t" + S().atoms[a].name + "=" + g_wit[a].get_str();
  emit(r);
}
static void setWit(const vector<pair<string, string>>& m) {
  for (auto& x : m) { auto it = g_varIx.find(x.first); if (it != g_varIx.end()) { mpq_class q(x.second); q.canonicalize(); g_wit[it->second] = q; } }
  g_watom.clear();
}
// ---------------------------------------------------------------- knowledge
// canonical form: leading coefficient scaled to +-1 -> monic; sign flip returned
static P monic(const P& p, int& sgn) { mpq_class c = p->t[0].second; sgn = c < 0 ? -1 : 1; return pscale(p, 1 / c); }
static int flipMask(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static void learn(const P& p, int mask) {
  int sg; P m = monic(p, sg); if (sg < 0) mask = flipMask(mask); string k = pkey(m);
  auto it = g_known.find(k); int old = it == g_known.end() ? 7 : it->second; g_known[k] = old & mask;
  // single-variable affine: refine the interval
  auto& s = S(); if (m->t.size() <= 2) {
    int vi = -1; mpq_class b = 0, a = 0; bool ok = true;
    for (auto& t : m->t) { const Mono& mm = s.monos[t.first]; if (mm.empty()) b = t.second; else if (mm.size() == 1 && mm[0].second == 1 && vi < 0) { vi = mm[0].first; a = t.second; } else ok = false; }
    if (ok && vi >= 0) { mpq_class root = -b / a; if (a < 0) mask = flipMask(mask); double r = root.get_d(); IV w = widen(r, r); IV& iv = s.atoms[vi].iv;
      if (!(mask & 4)) iv.hi = std::min(iv.hi, w.hi); if (!(mask & 1)) iv.lo = std::max(iv.lo, w.lo); } }
}
// mask over {-,0,+} known to be possible
static int possible(const P& p) {
  if (isConst(p)) { int s = sgn(cval(p)); return s < 0 ? 1 : s == 0 ? 2 : 4; }
  int m = 7; IV iv = ivPoly(p); if (iv.lo > 0) m = 4; else if (iv.hi < 0) m = 1; else { if (iv.lo >= 0) m &= 6; if (iv.hi <= 0) m &= 3; }
  int sg; P q = monic(p, sg); auto it = g_known.find(pkey(q)); if (it != g_known.end()) { int k = it->second; if (sg < 0) k = flipMask(k); m &= k; }
  return m;
}
static int signAtWitness(const P& p, bool& sure) {
  g_badWit = false; WV w = evalPoly(p); sure = !g_badWit;
  if (w.exact) return sgn(w.q);
  BF lim("1e-60"); if (w.f > lim) return 1; if (w.f < -lim) return -1; sure = false; return 0;
}
static void addCons(const P& p, int mask) { g_pc.push_back({p, mask}); learn(p, mask); }
// sign of an atom when it is known to be non-zero (0 = unknown)
static int atomSign(AtomId a) {
  const Atom& at = S().atoms[a]; if (at.iv.lo > 0) return 1; if (at.iv.hi < 0) return -1;
  if (at.k == A_VAR || at.k == A_DEF) { int m = possible(patom(a)); return m == 4 ? 1 : m == 1 ? -1 : 0; }
  if (at.k == A_SQRT) return possible(at.arg) == 4 ? 1 : 0;
  if (at.k == A_INV) { int m = possible(at.arg); return m == 4 ? 1 : m == 1 ? -1 : 0; }
  return 0;
}
static Mono content(const P& p) { // common monomial factor (minimal exponents)
  Mono c; bool first = true; auto& s = S();
  for (auto& t : p->t) { const Mono& m = s.monos[t.first]; if (first) { c = m; first = false; continue; }
    Mono r; size_t i = 0, j = 0; 
    while (i < c.size() || j < m.size()) {
      if (j == m.size() || (i < c.size() && c[i].first < m[j].first)) { if (c[i].second < 0) r.push_back(c[i]); i++; }
      else if (i == c.size() || m[j].first < c[i].first) { if (m[j].second < 0) r.push_back(m[j]); j++; }
      else { int e = std::min(c[i].second, m[j].second); if (e) r.push_back({c[i].first, e}); i++; j++; } }
    c = r; if (c.empty()) break; }
  return c;
}
static P divMono(const P& p, const Mono& c) { Mono inv; for (auto& f : c) inv.push_back({f.first, -f.second}); MonoId im = internMono(inv); Poly r; for (auto& t : p->t) r.t.push_back({mulMono(t.first, im), t.second}); std::sort(r.t.begin(), r.t.end(), [](auto& x, auto& y) { return x.first < y.first; }); return mk(std::move(r)); }
// divide out common factors of known sign; flip is set when their product is negative
static P stripSigned(const P& p, bool& flip) {
  flip = false; if (p->t.empty() || isConst(p)) return p; Mono c = content(p), k;
  for (auto& f : c) { if (f.second % 2 == 0) { if (atomSign(f.first)) k.push_back(f); continue; } int s = atomSign(f.first); if (!s) continue; k.push_back(f); if (s < 0) flip = !flip; }
  if (k.empty()) return p; return divMono(p, k);
}
static bool g_abortOnUnknownBranch = false, g_generic = false;
static long n_unkBranch = 0;

static bool decideMask(const P& p00, int rel) {
  bool fl; P p0 = stripSigned(p00, fl); if (fl) rel = flipMask(rel);
  int poss = possible(p0);
  if ((poss & ~rel) == 0) return true; if ((poss & rel) == 0) return false;
  if (g_pathDeadline && nowS() > g_pathDeadline) endPath("timeout");
  if (g_generic && (rel == 2 || rel == 5)) { addCons(p0, 5); return rel == 5; }   // exact zero tests: generic side only (stated bound of the harness)
  n_dec++;
  if (g_dpos < g_prefix.size()) {
    Dec d = g_prefix[g_dpos++]; if (d.kind != 'B') { emit("DIVERGED"); endPath("diverged"); }
    g_trace.push_back(d); addCons(p0, (d.taken ? rel : (7 & ~rel)) & poss); return d.taken;
  }
  bool sure; int s = signAtWitness(p0, sure); bool side = ((s < 0 ? 1 : s == 0 ? 2 : 4) & rel) != 0;
  vector<pair<string, string>> m;
  if (!sure) { // witness cannot tell: ask for the side first
    Q q; q.cs.push_back({p0, (side ? rel : (7 & ~rel)) & poss}); Res r = solve(q, &m, g_timeoutMs);
    if (r == UNSAT) side = !side; else if (r == SAT) setWit(m); }
  Q q; int om = (side ? (7 & ~rel) : rel) & poss; q.cs.push_back({p0, om}); Res r = solve(q, &m, g_timeoutMs);
  if (r == SAT) pushAlt({'B', 0, side ? 0 : 1}, &m);
  else if (r == UNK) { n_unkBranch++; emit("UNKBRANCH"); }
  g_trace.push_back({'B', 0, side ? 1 : 0}); addCons(p0, (side ? rel : (7 & ~rel)) & poss);
  return side;
}
static bool decide(const P& p, Rel r) { return decideMask(p, relMask(r)); }

static long splitInt(const P& p) { // floor(p)
  if (isConst(p)) { mpz_class z; mpq_class c = cval(p); mpz_fdiv_q(z.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return z.get_si(); }
  while (true) {
    IV iv = ivPoly(p); if (std::floor(iv.lo) == std::floor(iv.hi) && std::isfinite(iv.lo)) return (long)std::floor(iv.lo);
    n_dec++; long k; bool taken;
    if (g_dpos < g_prefix.size()) { Dec d = g_prefix[g_dpos++]; if (d.kind != 'I') { emit("DIVERGED"); endPath("diverged"); } k = d.v; taken = d.taken; g_trace.push_back(d); 
      P lo = padd(p, pconst(k), -1), hi = padd(p, pconst(k + 1), -1);
      if (taken) { addCons(lo, 6); addCons(hi, 1); return k; }
      // not in [k,k+1): two sides, decided as ordinary branches
      if (decideMask(lo, 1)) { addCons(lo, 1); } else { addCons(hi, 6); }
      continue; }
    WV w = evalPoly(p); BF f = floor(w.exact ? q2bf(w.q) : w.f); k = (long)f.convert_to<long>();
    P lo = padd(p, pconst(k), -1), hi = padd(p, pconst(k + 1), -1); vector<pair<string, string>> m;
    Q q1; q1.cs.push_back({lo, 1}); Res r = solve(q1, &m, g_timeoutMs); if (r == UNSAT) { Q q2; q2.cs.push_back({hi, 6}); r = solve(q2, &m, g_timeoutMs); }
    if (r == SAT) pushAlt({'I', k, 0}, &m); else if (r == UNK) { n_unkBranch++; emit("UNKBRANCH"); }
    g_trace.push_back({'I', k, 1}); addCons(lo, 6); addCons(hi, 1); return k;
  }
}

// ---------------------------------------------------------------- atoms
static AtomId newAtom(AKind k, const string& key, const P& arg, IV iv, const P& arg2 = nullptr) {
  auto& s = S(); auto it = s.atomIx.find(key); if (it != s.atomIx.end()) return it->second;
  AtomId id = s.atoms.size(); Atom a; a.k = k; a.name = key; a.arg = arg; a.arg2 = arg2; a.iv = iv; a.angle = false; s.atoms.push_back(a); s.atomIx[key] = id; return id;
}
static P capped(const P& p) {
  if (p->t.size() <= g_maxTerms) return p;
  AtomId a = newAtom(A_DEF, "def:" + pkey(p), p, ivPoly(p)); return patom(a);
}
static P pinv(const P& d) { // d known non-zero
  if (isConst(d)) return pconst(1 / cval(d));
  auto& s = S();
  if (d->t.size() == 1) { mpq_class c = d->t[0].second; Mono m = s.monos[d->t[0].first]; P r = pconst(1 / c);
    for (auto& f : m) { const Atom at = s.atoms[f.first];
      for (int i = 0; i < std::abs(f.second); i++) {
        if (f.second < 0) r = pmul(r, patom(f.first));                       // (x^-1)^-1
        else if (at.k == A_VAR) r = pmul(r, patom(f.first, -1));
        else if (at.k == A_SQRT) r = pmul(pmul(r, patom(f.first)), pinv(at.arg));
        else if (at.k == A_INV) r = pmul(r, at.arg);
        else { P x = patom(f.first); r = pmul(r, patom(newAtom(A_INV, "inv:" + pkey(x), x, {-INFINITY, INFINITY}))); }
      } }
    return r; }
  { Mono cm = content(d); if (!cm.empty()) { Poly cp; cp.t.push_back({internMono(cm), mpq_class(1)}); return pmul(pinv(mk(std::move(cp))), pinv(divMono(d, cm))); } }
  int sg; mpq_class c = d->t[0].second; P m = monic(d, sg); IV iv = ivPoly(m); int ps = possible(m); IV ii = {-INFINITY, INFINITY};
  if (iv.lo > 0 || iv.hi < 0) ii = widen(1 / iv.hi, 1 / iv.lo);
  else if (ps == 4) ii = {0, INFINITY}; else if (ps == 1) ii = {-INFINITY, 0};
  if (ps == 4 && iv.hi > 0 && iv.hi < INFINITY) ii.lo = std::max(ii.lo, widen(1 / iv.hi, 0).lo);
  AtomId a = newAtom(A_INV, "inv:" + pkey(m), m, ii); return pscale(patom(a), 1 / c);
}
static bool sqfree(mpz_class n, mpz_class& out, mpz_class& rest) { // n = out^2 * rest
  out = 1; rest = n; for (unsigned long p = 2; p < 2000; p++) { mpz_class pp = mpz_class(p) * p; if (pp > rest) break; while (mpz_divisible_p(rest.get_mpz_t(), pp.get_mpz_t())) { rest /= pp; out *= p; } }
  if (mpz_perfect_square_p(rest.get_mpz_t())) { out *= sqrt(rest); rest = 1; } return true;
}
static bool g_approxSqrt = false; // harness switch: square roots of constants become 400-bit rationals (numerical linear algebra)
static P psqrtConst(const mpq_class& c) { // c>=0, exact algebraic
  if (c == 0) return pconst(0);
  if (g_approxSqrt) { mpz_class n = c.get_num() * c.get_den(); if (mpz_perfect_square_p(n.get_mpz_t())) { mpq_class f(sqrt(n), c.get_den()); f.canonicalize(); return pconst(f); }
    long k = 400; mpz_class v = (c.get_num() << (2 * k)) / c.get_den(); while (mpz_sizeinbase(v.get_mpz_t(), 2) < 700) { k += 200; v = (c.get_num() << (2 * k)) / c.get_den(); } mpq_class f(sqrt(v), mpz_class(1) << k); f.canonicalize(); return pconst(f); }
  mpz_class n = c.get_num() * c.get_den(), o, r; sqfree(n, o, r); mpq_class f(o, c.get_den()); f.canonicalize();
  if (r == 1) return pconst(f);
  P a = pconst(mpq_class(r)); double d = std::sqrt(r.get_d()); AtomId id = newAtom(A_SQRT, "sqrt:" + pkey(a), a, widen(d, d)); return pscale(patom(id), f);
}
// is p the square of a polynomial (multi-term)?  Try: leading-term square-root by undetermined expansion.
static P trySqrtPoly(const P& p) {
  auto& s = S(); if (p->t.size() > 200) return nullptr;
  // graded ordering needed: order monomials by (total degree, lexicographic exponent vector)
  std::set<AtomId> as; polyAtoms(p, as); vector<AtomId> av(as.begin(), as.end());
  for (auto& t : p->t) for (auto& f : s.monos[t.first]) if (f.second < 0) return nullptr;
  typedef vector<int> EV; auto ev = [&](MonoId m) { EV e(av.size() + 1, 0); for (auto& f : s.monos[m]) { size_t i = std::lower_bound(av.begin(), av.end(), f.first) - av.begin(); e[i + 1] = f.second; e[0] += f.second; } return e; };
  auto lead = [&](const P& q) { size_t b = 0; EV be = ev(q->t[0].first); for (size_t i = 1; i < q->t.size(); i++) { EV e = ev(q->t[i].first); if (e > be) { be = e; b = i; } } return b; };
  size_t l = lead(p); EV le = ev(p->t[l].first); for (int x : le) if (x % 2) return nullptr;
  mpq_class c = p->t[l].second; if (c < 0) return nullptr; if (!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return nullptr;
  mpq_class rc(sqrt(c.get_num()), sqrt(c.get_den())); Mono rm; for (size_t i = 0; i < av.size(); i++) if (le[i + 1]) rm.push_back({av[i], le[i + 1] / 2});
  Poly q0; q0.t.push_back({internMono(rm), rc}); P r = mk(std::move(q0)); EV re = ev(internMono(rm));
  for (int it = 0; it < 60; it++) { P rem = padd(p, pmul(r, r), -1); if (rem->t.empty()) return r; size_t k = lead(rem); EV ke = ev(rem->t[k].first); EV d(ke.size()); for (size_t i = 0; i < ke.size(); i++) { d[i] = ke[i] - re[i]; if (d[i] < 0) return nullptr; }
    if (!(d < re)) return nullptr; Mono m; for (size_t i = 0; i < av.size(); i++) if (d[i + 1]) m.push_back({av[i], d[i + 1]}); Poly t; t.t.push_back({internMono(m), rem->t[k].second / (2 * rc)}); r = padd(r, mk(std::move(t))); }
  return nullptr;
}
extern "C" double __sym_fabs(double);
static double inexactConst(long double v) { return (double)v; }

// polynomial gcd-free clearing of inverse atoms: N with p = N / (positive-or-nonzero denominators)
static bool clearInv(const vector<P>& in, vector<P>& out) {
  out = in; auto& s = S();
  for (int guard = 0; guard < 400; guard++) {
    // highest inverse atom present, or negative exponent
    AtomId best = 0; bool found = false; 
    for (auto& p : out) for (auto& t : p->t) for (auto& f : s.monos[t.first]) if (s.atoms[f.first].k == A_INV || f.second < 0) if (!found || f.first > best) { best = f.first; found = true; }
    if (!found) return true;
    const Atom at = s.atoms[best]; int E = 0; bool neg = at.k != A_INV;
    for (auto& p : out) for (auto& t : p->t) for (auto& f : s.monos[t.first]) if (f.first == best) E = std::max(E, neg ? -f.second : f.second);
    vector<P> pw(E + 1); pw[0] = pconst(1); for (int i = 1; i <= E; i++) { pw[i] = pmul(pw[i - 1], neg ? patom(best) : at.arg); if (pw[i]->t.size() > 20 * g_maxTerms) return false; }
    for (auto& p : out) {
      vector<Poly> by(E + 1); P rest = pconst(0); vector<pair<int, Poly>> pos;
      for (auto& t : p->t) { int e = 0; Mono m; for (auto& f : s.monos[t.first]) if (f.first == best) e = neg ? -f.second : f.second; else m.push_back(f);
        if (e >= 0) by[e].t.push_back({internMono(m), t.second}); else { Poly q; q.t.push_back({t.first, t.second}); rest = padd(rest, mk(std::move(q))); } }
      P acc = pmul(rest, pw[E]);
      for (int e = 0; e <= E; e++) { std::sort(by[e].t.begin(), by[e].t.end(), [](auto& x, auto& y) { return x.first < y.first; }); if (by[e].t.empty()) continue; acc = padd(acc, pmul(mk(std::move(by[e])), pw[E - e])); }
      if (acc->t.size() > 20 * g_maxTerms) return false;
      p = acc;
    }
  }
  return false;
}

// ---------------------------------------------------------------- arithmetic entry points
static bool finite2(double a, double b) { return (isH(a) || std::isfinite(a)) && (isH(b) || std::isfinite(b)); }
static double approx(double a) { // IEEE stand-in of a finite symbolic value next to inf/nan operands: only its sign matters
  if (!isH(a)) return a; P p = valOf(a); if (decide(p, R_GT)) return 1.0; if (decide(p, R_LT)) return -1.0; return 0.0; }
static const size_t CONST_BITS = 4000;
static P roundConst(const P& p) {
  // in the mode with approximate square roots: long constants within 2^-300 of an integer are that integer (undoes the residue of cancellations), and very
  // long ones are rounded to ~500 significant bits
  auto bits = [](const mpq_class& c) { return mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2); };
  auto huge = [&](const mpq_class& c) { return bits(c) >= (g_approxSqrt ? (size_t)600 : CONST_BITS); };
  auto rnd = [&](const mpq_class& c) {
    if (g_approxSqrt) { mpz_class n = c.get_num() * 2 + c.get_den(), d = c.get_den() * 2, z; mpz_fdiv_q(z.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); mpq_class e = c - mpq_class(z); if (e == 0 || (long)mpz_sizeinbase(e.get_den_mpz_t(), 2) - (long)mpz_sizeinbase(e.get_num_mpz_t(), 2) > 300) return mpq_class(z); }
    if (bits(c) < CONST_BITS) return c;
    mpz_class n = c.get_num(), d = c.get_den(); long sh = (long)mpz_sizeinbase(d.get_mpz_t(), 2) - (long)mpz_sizeinbase(n.get_mpz_t(), 2) + 500; mpq_class r;
    if (sh > 0) r = mpq_class((n << sh) / d, mpz_class(1) << sh); else r = mpq_class((n / d)); r.canonicalize(); return r; };
  if (!isConst(p)) { // coefficients: only where the harness already accepts approximate constants
    if (!g_approxSqrt) return p; bool any = false; for (auto& t : p->t) if (huge(t.second)) { any = true; break; } if (!any) return p;
    Poly r; for (auto& t : p->t) { mpq_class c = huge(t.second) ? rnd(t.second) : t.second; if (c != 0) r.t.push_back({t.first, c}); } return mk(std::move(r)); }
  mpq_class c = cval(p); if (!huge(c)) return p; return pconst(rnd(c));
}
extern "C" {
double __sym_neg(double a);
double __sym_add(double a, double b) {
  if (!isH(a) && !isH(b)) { double r = a + b; if (!std::isfinite(r)) return r; double bb = r - a, e = (a - (r - bb)) + (b - bb); if (e == 0) return r; return mkVal(roundConst(padd(pconst(mpq_class(a)), pconst(mpq_class(b))))); }
  if (!finite2(a, b)) return isH(a) ? b + 0.0 : a + 0.0;
  return mkVal(capped(roundConst(padd(valOf(a), valOf(b)))));
}
double __sym_sub(double a, double b) {
  if (!isH(a) && !isH(b)) { double r = a - b; if (!std::isfinite(r)) return r; double nb = -b, bb = r - a, e = (a - (r - bb)) + (nb - bb); if (e == 0) return r; return mkVal(roundConst(padd(pconst(mpq_class(a)), pconst(mpq_class(b)), -1))); }
  if (!finite2(a, b)) return isH(a) ? 0.0 - b : a + 0.0;
  return mkVal(capped(roundConst(padd(valOf(a), valOf(b), -1))));
}
double __sym_mul(double a, double b) {
  if (!isH(a) && !isH(b)) { double r = a * b; if (!std::isfinite(r)) return r; if ((r != 0 || a == 0 || b == 0) && std::fma(a, b, -r) == 0 && std::fabs(r) > 1e-250) return r; if (a == 0 || b == 0) return r; return mkVal(roundConst(pmul(pconst(mpq_class(a)), pconst(mpq_class(b))))); }
  if (!finite2(a, b)) { return approx(a) * approx(b); }
  if (!isH(a) && a == 0) return 0.0; if (!isH(b) && b == 0) return 0.0;
  return mkVal(capped(roundConst(pmul(capped(valOf(a)), capped(valOf(b))))));
}
double __sym_div(double a, double b) {
  if (!isH(a) && !isH(b)) { if (b == 0 || !std::isfinite(a) || !std::isfinite(b)) return a / b; double r = a / b; if (std::fma(r, b, -a) == 0 && std::isfinite(r) && std::fabs(r) > 1e-250) return r; if (a == 0) return r; return mkVal(roundConst(pconst(mpq_class(a) / mpq_class(b)))); }
  if (!finite2(a, b)) { if (isPlainNaN(a) || isPlainNaN(b)) return NAN; if (!isH(b) && std::isinf(b)) return 0.0; return approx(a) / approx(b); }
  P d = valOf(b), n = valOf(a);
  if (isConst(d)) { if (cval(d) == 0) { return approx(a) / 0.0; } return mkVal(roundConst(pscale(n, 1 / cval(d)))); }
  if (!decide(d, R_NE)) return approx(a) / 0.0;
  if (n->t.empty()) return 0.0;
  // exact constant ratio (x/x, 2x/x ...)
  if (n->t.size() == d->t.size() && n->t[0].first == d->t[0].first) { mpq_class k = n->t[0].second / d->t[0].second; if (padd(n, pscale(d, k), -1)->t.empty()) return mkVal(pconst(k)); }
  return mkVal(capped(pmul(n, pinv(d))));
}
double __sym_neg(double a) { if (!isH(a)) return -a; return mkVal(pneg(valOf(a))); }
double __sym_fabs(double a) { if (!isH(a)) return std::fabs(a); P p = valOf(a); return decide(p, R_GE) ? a : mkVal(pneg(p)); }
int __sym_fcmp(int pred, double a, double b) {
  // LLVM predicates: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
  bool nan = isPlainNaN(a) || isPlainNaN(b);
  if (pred == 0) return 0; if (pred == 15) return 1; if (pred == 7) return !nan; if (pred == 8) return nan;
  if (nan) return pred >= 8;
  int p = pred & 7; int c; 
  auto doCmp = [&](double x, double y) { switch (p) { case 1: return x == y; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y; default: return x != y; } };
  if (!isH(a) && !isH(b)) return doCmp(a, b);
  if (!finite2(a, b)) { if (isH(a)) return doCmp(0.0, b); return doCmp(a, 0.0); }
  P d = padd(valOf(a), valOf(b), -1); Rel r; switch (p) { case 1: r = R_EQ; break; case 2: r = R_GT; break; case 3: r = R_GE; break; case 4: r = R_LT; break; case 5: r = R_LE; break; default: r = R_NE; }
  c = decide(d, r); return c;
}
int __sym_fpclass(double a, int mask) {
  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
  if (!isH(a)) { int c; if (std::isnan(a)) c = 2 | 1; else if (std::isinf(a)) c = a < 0 ? 4 : 512; else if (a == 0) c = std::signbit(a) ? 32 : 64; else { bool sub = std::fabs(a) < 2.2250738585072014e-308; c = a < 0 ? (sub ? 16 : 8) : (sub ? 128 : 256); } return (mask & c) != 0; }
  int fin = mask & 0x1F8; if (fin == 0x1F8) return 1; if (fin == 0) return 0;
  P p = valOf(a); int s = decide(p, R_LT) ? (8 | 16) : decide(p, R_GT) ? (128 | 256) : (32 | 64); return (mask & s) != 0;
}
long __sym_toint(double a) {
  if (!isH(a)) { if (std::isnan(a) || std::fabs(a) > 9.2e18) return (long)0x8000000000000000ull; return (long)a; }
  P p = valOf(a); if (decide(p, R_GE)) return splitInt(p); long f = splitInt(pneg(p)); return -f;
}
double __sym_floor(double a) { if (!isH(a)) return std::floor(a); return (double)splitInt(valOf(a)); }
double __sym_ceil(double a) { if (!isH(a)) return std::ceil(a); return -(double)splitInt(pneg(valOf(a))); }
double __sym_trunc(double a) { if (!isH(a)) return std::trunc(a); return (double)__sym_toint(a); }
double __sym_round(double a) { if (!isH(a)) return std::round(a); P p = valOf(a); P h = pconst(mpq_class(1, 2)); if (decide(p, R_GE)) return (double)splitInt(padd(p, h)); return -(double)splitInt(padd(pneg(p), h)); }
double __sym_fmod(double a, double b) { if (!isH(a) && !isH(b)) return std::fmod(a, b); double q = __sym_trunc(__sym_div(a, b)); return __sym_sub(a, __sym_mul(q, b)); }
double __sym_remainder(double a, double b) { if (!isH(a) && !isH(b)) return std::remainder(a, b); double q = __sym_round(__sym_div(a, b)); return __sym_sub(a, __sym_mul(q, b)); }
double __sym_fmax(double a, double b) { if (isPlainNaN(a)) return b; if (isPlainNaN(b)) return a; return __sym_fcmp(4, a, b) ? b : a; }
double __sym_fmin(double a, double b) { if (isPlainNaN(a)) return b; if (isPlainNaN(b)) return a; return __sym_fcmp(4, b, a) ? b : a; }
double __sym_copysign(double a, double b) { if (!isH(a) && !isH(b)) return std::copysign(a, b); double m = __sym_fabs(a); bool neg = isH(b) ? decide(valOf(b), R_LT) : std::signbit(b); return neg ? __sym_neg(m) : m; }
double __sym_sqrt(double a) {
  if (!isH(a)) { if (!(a >= 0) || std::isinf(a)) return std::sqrt(a); double r = std::sqrt(a); if (std::fma(r, r, -a) == 0) return r; return mkVal(psqrtConst(mpq_class(a))); }
  P p = valOf(a);
  if (isConst(p)) { mpq_class c = cval(p); if (c < 0) return NAN; return mkVal(psqrtConst(c)); }
  P sq = trySqrtPoly(p); if (sq) return __sym_fabs(mkVal(sq));
  if (!decide(p, R_GE)) return NAN;
  mpq_class c = p->t[0].second; mpq_class ac = abs(c); P f = psqrtConst(ac); P q = pscale(p, 1 / ac);
  IV iv = ivPoly(q); IV r = {iv.lo > 0 ? widen(std::sqrt(iv.lo), 0).lo : 0, iv.hi < INFINITY ? widen(0, std::sqrt(std::max(0.0, iv.hi))).hi : INFINITY};
  AtomId id = newAtom(A_SQRT, "sqrt:" + pkey(q), q, r); return mkVal(pmul(f, patom(id)));
}
double __sym_hypot(double a, double b) { return __sym_sqrt(__sym_add(__sym_mul(a, a), __sym_mul(b, b))); }
double __sym_cbrt(double a) { if (!isH(a)) return std::cbrt(a); AtomId id = newAtom(A_FN, "cbrt:" + pkey(valOf(a)), valOf(a), {-INFINITY, INFINITY}); return mkVal(patom(id)); }
}
// trigonometry: argument = sum of integer multiples of angle variables + rational multiple of pi
static const double PI = 3.14159265358979323846;
static void trigAtom(const P& arg, P& c, P& s) {
  string k = pkey(arg); AtomId ci = newAtom(A_COS, "cos:" + k, arg, {-1, 1}), si = newAtom(A_SIN, "sin:" + k, arg, {-1, 1}); c = patom(ci); s = patom(si);
}
static bool trigConst(const mpq_class& q, P& c, P& s) {
  double x = q.get_d(); double t = x / PI * 12.0; double r = std::round(t);
  if (std::fabs(t - r) > 1e-12 * (1 + std::fabs(t))) {
    if (!g_approxSqrt) return false; // 500-bit rational approximation in the approximate-constant mode
    typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<170>> HF; HF a = HF(q.get_num().get_str()) / HF(q.get_den().get_str());
    auto cv = [](const HF& f) { HF s = floor(ldexp(f, 500)); std::ostringstream o; o << std::fixed << std::setprecision(0) << s; mpq_class z(mpz_class(o.str()), mpz_class(1) << 500); z.canonicalize(); return pconst(z); };
    c = cv(cos(a)); s = cv(sin(a)); return true; }
  long k = ((long)std::llround(r) % 24 + 24) % 24; 
  auto cosk = [&](long k) -> P { k = (k % 24 + 24) % 24; if (k > 12) k = 24 - k; bool neg = k > 6; if (neg) k = 12 - k; P v;
    switch (k) { case 0: v = pconst(1); break; case 2: v = pscale(psqrtConst(3), mpq_class(1, 2)); break; case 3: v = pscale(psqrtConst(2), mpq_class(1, 2)); break; case 4: v = pconst(mpq_class(1, 2)); break; case 6: v = pconst(0); break;
      case 1: v = pscale(padd(psqrtConst(6), psqrtConst(2)), mpq_class(1, 4)); break; default: v = pscale(padd(psqrtConst(6), psqrtConst(2), -1), mpq_class(1, 4)); }
    return neg ? pneg(v) : v; };
  c = cosk(k); s = cosk(k - 6); return true;
}
static void trig(const P& p, P& c, P& s) {
  auto& st = S(); c = pconst(1); s = pconst(0);
  auto combine = [&](const P& c2, const P& s2) { P nc = padd(pmul(c, c2), pmul(s, s2), -1), ns = padd(pmul(s, c2), pmul(c, s2)); c = nc; s = ns; };
  if (isConst(p)) { if (!trigConst(cval(p), c, s)) trigAtom(p, c, s); return; }
  mpq_class cst = 0; vector<pair<AtomId, mpq_class>> lin; bool ok = true;
  for (auto& t : p->t) { const Mono& m = st.monos[t.first]; if (m.empty()) cst = t.second; else if (m.size() == 1 && m[0].second == 1) lin.push_back({m[0].first, t.second}); else ok = false; }
  if (ok) for (auto& l : lin) if (l.second.get_den() != 1 || abs(l.second) > 40) ok = false;
  P cc, cs; if (ok && cst != 0) ok = trigConst(cst, cc, cs);
  if (!ok) { trigAtom(p, c, s); return; }
  if (cst != 0) combine(cc, cs);
  for (auto& l : lin) { P b = patom(l.first), c1, s1; const Atom la = st.atoms[l.first];
    if (la.k == A_FN && la.name.compare(0, 5, "acos:") == 0) { c1 = la.arg; s1 = valOf(__sym_sqrt(mkVal(padd(pconst(1), pmul(c1, c1), -1)))); }
    else if (la.k == A_FN && la.name.compare(0, 6, "atan2:") == 0) { double h = __sym_sqrt(mkVal(padd(pmul(la.arg, la.arg), pmul(la.arg2, la.arg2)))); c1 = valOf(__sym_div(mkVal(la.arg2), h)); s1 = valOf(__sym_div(mkVal(la.arg), h)); }
    else trigAtom(b, c1, s1); long n = l.second.get_num().get_si(); if (n < 0) { s1 = pneg(s1); n = -n; } for (long i = 0; i < n; i++) combine(c1, s1); }
}
extern "C" {
double __sym_cos(double a) { if (!isH(a) && !std::isfinite(a)) return NAN; P c, s; trig(valOf(a), c, s); return mkVal(c); }
double __sym_sin(double a) { if (!isH(a) && !std::isfinite(a)) return NAN; P c, s; trig(valOf(a), c, s); return mkVal(s); }
double __sym_tan(double a) { return __sym_div(__sym_sin(a), __sym_cos(a)); }
static double fn1(const char* n, double a, double (*f)(double), IV iv) {
  if (!isH(a)) return f(a); P p = valOf(a); if (isConst(p)) return f(cval(p).get_d());
  return mkVal(patom(newAtom(A_FN, string(n) + ":" + pkey(p), p, iv)));
}
double __sym_acos(double a) { if (!isH(a)) { if (a == 1) return 0.0; return std::acos(a); } P p = valOf(a); if (decide(padd(p, pconst(1), -1), R_GT)) return NAN; if (decide(padd(p, pconst(1)), R_LT)) return NAN; if (isConst(p) && g_approxSqrt) { double d = std::acos(cval(p).get_d()), t = d / PI * 12.0; if (std::fabs(t - std::round(t)) > 1e-12 * (1 + std::fabs(t))) return mkVal(patom(newAtom(A_FN, "acos:" + pkey(p), p, widen(d - 1e-9, d + 1e-9)))); } return fn1("acos", a, std::acos, widen(0, PI)); }
double __sym_asin(double a) { if (!isH(a)) return std::asin(a); P p = valOf(a); if (decide(padd(p, pconst(1), -1), R_GT)) return NAN; if (decide(padd(p, pconst(1)), R_LT)) return NAN; return fn1("asin", a, std::asin, widen(-PI / 2, PI / 2)); }
double __sym_atan(double a) { return fn1("atan", a, std::atan, widen(-PI / 2, PI / 2)); }
double __sym_exp(double a) { return fn1("exp", a, std::exp, {0, INFINITY}); }
double __sym_log(double a) { return fn1("log", a, std::log, {-INFINITY, INFINITY}); }
double __sym_log2(double a) { return fn1("log2", a, std::log2, {-INFINITY, INFINITY}); }
double __sym_log10(double a) { return fn1("log10", a, std::log10, {-INFINITY, INFINITY}); }
double __sym_atan2(double y, double x) {
  if (!isH(x) && !isH(y)) return std::atan2(y, x);
  P a = valOf(y), b = valOf(x); if (isConst(a) && isConst(b)) return std::atan2(cval(a).get_d(), cval(b).get_d());
  AtomId id = newAtom(A_FN, "atan2:" + pkey(a) + "," + pkey(b), a, widen(-PI, PI), b); return mkVal(patom(id));
}
double __sym_pow(double a, double b) {
  if (!isH(b) && b == std::floor(b) && std::fabs(b) <= 64) { long n = (long)std::fabs(b); double r = 1.0; for (long i = 0; i < n; i++) r = __sym_mul(r, a); return b < 0 ? __sym_div(1.0, r) : r; }
  if (!isH(b) && b == 0.5) return __sym_sqrt(a);
  if (!isH(b) && b == 1.5) return __sym_mul(a, __sym_sqrt(a));
  if (!isH(a) && !isH(b)) return std::pow(a, b);
  P x = valOf(a), y = valOf(b); if (isConst(x) && isConst(y)) return std::pow(cval(x).get_d(), cval(y).get_d());
  AtomId id = newAtom(A_FN, "pow:" + pkey(x) + "," + pkey(y), x, {-INFINITY, INFINITY}, y); return mkVal(patom(id));
}
double __sym_concretize(double a) { if (!isH(a)) return a; P p = valOf(a); if (isConst(p)) return cval(p).get_d(); emit("CONCRETIZE"); WV w = evalPoly(p); return w.exact ? w.q.get_d() : (double)w.f.convert_to<double>(); }
void __sym_fn(const char* n, char* flag) { if (!*flag) { *flag = 1; g_fns.insert(n); } }
}

// ---------------------------------------------------------------- harness API
static std::map<string, int> g_params; static int g_tier = 0;
static vector<string> g_reached;
static int g_maxVarFix = 6;
extern "C" {
int sym_is_symbolic(void) { return 1; }
void sym_approx_sqrt(int on) { g_approxSqrt = on; }
void sym_generic(int on) { g_generic = on; }
int sym_tier(void) { return g_tier; }
int sym_param(const char* k, int d) { auto it = g_params.find(k); return it == g_params.end() ? d : it->second; }
void sym_describe(const char*, double) {}
static double mkVar(const char* name, double lo, double hi, bool angle) {
  if (isH(lo)) { P p = valOf(lo); if (!isConst(p)) { emit("ERR\tsymbolic bound"); endPath("error"); } lo = cval(p).get_d(); }
  if (isH(hi)) { P p = valOf(hi); if (!isConst(p)) { emit("ERR\tsymbolic bound"); endPath("error"); } hi = cval(p).get_d(); }
  if (lo == hi) return lo;
  auto& s = S(); AtomId id = newAtom(A_VAR, string("v:") + name, nullptr, {lo, hi}); s.atoms[id].name = name; s.atoms[id].angle = angle; s.atoms[id].dlo = mpq_class(lo); s.atoms[id].dhi = mpq_class(hi);
  g_vars.push_back(id); g_varIx[name] = id; bool set = false;
  for (auto& x : g_initWit) if (x.first == name) { mpq_class q(x.second); q.canonicalize(); g_wit[id] = q; set = true; }
  if (!set) { static const int fr[] = {37, 61, 23, 71, 47, 83, 31, 53, 67, 29, 79, 41, 59, 19, 73, 43}; static int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1; mpq_class f(fr[(g_vars.size() + seed) % 16] + (int)(g_vars.size() / 16) % 5, 101); g_wit[id] = mpq_class(lo) + (mpq_class(hi) - mpq_class(lo)) * f; }
  return mkVal(patom(id));
}
double sym_real(const char* name, double lo, double hi) { return mkVar(name, lo, hi, false); }
double sym_angle(const char* name, double lo, double hi) { return mkVar(name, lo, hi, true); }
double sym_pi(long n, long d) { return mkVal(pconst(mpq_class(PI) * mpq_class(n) / mpq_class(d))); }
double sym_const(long n, long d) { mpq_class q(n, d); q.canonicalize(); return mkVal(pconst(q)); }
int sym_choice(const char* name, int lo, int hi) {
  long v;
  if (g_dpos < g_prefix.size()) { Dec d = g_prefix[g_dpos++]; if (d.kind != 'C') { emit("DIVERGED"); endPath("diverged"); } v = d.v; g_trace.push_back(d); }
  else { v = lo; for (int k = hi; k > lo; k--) pushAlt({'C', k, 1}, nullptr); g_trace.push_back({'C', v, 1}); }
  g_choices.push_back({name, v}); return (int)v;
}
static void assumeMask(const P& p00, int mask) {
  bool fl; P p = stripSigned(p00, fl); if (fl) mask = flipMask(mask);
  int poss = possible(p); if ((poss & ~mask) == 0) return; if ((poss & mask) == 0) endPath("assume");
  bool sure; int s = signAtWitness(p, sure); addCons(p, mask & poss);
  if (!sure || !((s < 0 ? 1 : s == 0 ? 2 : 4) & mask)) {
    if (g_dpos < g_prefix.size()) return; // witness of a prefix is validated by the solver at the flipped branch
    Q q; vector<pair<string, string>> m; q.cs.push_back({p, mask & poss}); Res r = solve(q, &m, g_timeoutMs); if (r == UNSAT) endPath("assume"); if (r == SAT) setWit(m); else { emit("UNKBRANCH"); endPath("assume-unknown"); } }
}
void sym_assume_lt(double a, double b) { if (!isH(a) && !isH(b)) { if (!(a < b)) endPath("assume"); return; } assumeMask(padd(valOf(a), valOf(b), -1), 1); }
void sym_assume_le(double a, double b) { if (!isH(a) && !isH(b)) { if (!(a <= b)) endPath("assume"); return; } assumeMask(padd(valOf(a), valOf(b), -1), 3); }
void sym_assume_ne(double a, double b) { if (!isH(a) && !isH(b)) { if (!(a != b)) endPath("assume"); return; } assumeMask(padd(valOf(a), valOf(b), -1), 5); }
void sym_assume(int c) { if (!c) endPath("assume"); }
void sym_reached(const char* t) { emit(string("REACHED\t") + t); }

struct Pend { string what; P nl, nr; };
static vector<Pend> g_pend; static size_t g_pendTerms = 0;
static void cand(const string& what, const string& kind, const vector<pair<string, string>>* m) { emit("VIOL\t" + kind + "\t" + esc(what) + witS(m)); }
static void flushPend() {
  if (g_pend.empty()) return;
  Q q; string d = "(or"; for (auto& p : g_pend) d += " (not (= " + polyS(p.nl, &q.rawAtoms, &q.rawInv) + " " + polyS(p.nr, &q.rawAtoms, &q.rawInv) + "))"; d += ")"; 
  q.raw.push_back(d);
  // definitions of the atoms only: the path condition is not needed for an identity
  Res r = solve(q, nullptr, 60000, false);
  if (r == UNSAT) n_obExact += g_pend.size(); else { n_obInc += g_pend.size(); emit("INC\tidentity not confirmed by solver: " + esc(g_pend[0].what)); }
  g_pend.clear(); g_pendTerms = 0;
}
static bool evalBig(const P& D, const P& L, const P& R, double tol) {
  g_badWit = false; WV d = evalPoly(D), l = evalPoly(L), r = evalPoly(R); if (g_badWit) return false;
  auto F = [](const WV& w) { return w.exact ? q2bf(w.q) : w.f; }; BF ad = abs(F(d)), lim = BF(tol) * (1 + abs(F(l)) + abs(F(r))); return ad > lim * 4;
}
// coefficients with huge numerators (approximate square roots) rounded to multiples of 2^-100; err bounds the change over the box
static P compress(const P& D, mpq_class& err) {
  err = 0; bool big = false; for (auto& t : D->t) if (mpz_sizeinbase(t.second.get_num_mpz_t(), 2) + mpz_sizeinbase(t.second.get_den_mpz_t(), 2) > 400) big = true;
  if (!big) return D;
  P r = pconst(0);
  for (auto& t : D->t) {
    Poly one; one.t.push_back({t.first, mpq_class(1)}); P m = std::make_shared<Poly>(one); IV iv = ivPoly(m); double mx = std::max(std::fabs(iv.lo), std::fabs(iv.hi)); if (!std::isfinite(mx)) { err = 0; return D; }
    mpz_class sc(1); sc <<= 100; mpq_class q = t.second * mpq_class(sc); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); mpq_class c(z, sc); c.canonicalize();
    err += mpq_class(mpz_class(1), sc) * mpq_class(mx * 1.001 + 1e-300); if (c != 0) { Poly o2; o2.t.push_back({t.first, c}); r = padd(r, std::make_shared<Poly>(o2)); } }
  return r;
}
void sym_check_eq(const char* what, double a, double b, double tol) {
  n_ob++;
  if (!isH(a) && !isH(b)) {
    bool ok = (a == b) || (std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b))); n_obBool++; 
    if (!ok) { cand(what, "eq", nullptr); } return; }
  if (!finite2(a, b)) { n_obBool++; cand(what, "nonfinite", nullptr); return; }
  P L = valOf(a), R = valOf(b), D = padd(L, R, -1);
  if (isConst(D) && !isConst(L) == false) { mpq_class d = abs(cval(D)); double t = tol * (1 + std::fabs(cval(L).get_d()) + std::fabs(cval(R).get_d())); n_obBool++; if (d.get_d() > t) cand(what, "eq", nullptr); return; }
  vector<P> o; bool cleared = clearInv({D}, o);
  if (cleared && o[0]->t.empty()) {
    // identity: hand both sides (denominators cleared) to the solver
    vector<P> lr; P nl, nr;
    if (L->t.size() + R->t.size() < 3000 && clearInv({L, R}, lr) && lr[0]->t.size() + lr[1]->t.size() < 6000) { nl = lr[0]; nr = lr[1]; if (padd(nl, nr, -1)->t.size()) { nl = o[0]; nr = pconst(0); } } else { nl = o[0]; nr = pconst(0); }
    g_pend.push_back({what, nl, nr}); g_pendTerms += nl->t.size() + nr->t.size(); if (g_pendTerms > 4000) flushPend(); return; }
  // not an identity.  1. is the path witness itself a counterexample?
  if (evalBig(D, L, R, tol)) { cand(what, "eq", nullptr); return; }
  // 2. bounded by interval reasoning (linear relaxation, sound for unsat)
  IV di = ivPoly(D); 
  vector<pair<string, string>> m;
  mpq_class qt(tol);
  if (std::isfinite(di.lo) && std::isfinite(di.hi)) {
    mpq_class er; P Dc = compress(D, er); mpq_class qe = qt - er;
    Q q1, q2; q1.cs.push_back({padd(Dc, pconst(qe), -1), 4}); q2.cs.push_back({padd(Dc, pconst(qe)), 1});
    if (solve(q1, nullptr, 2000, false, true) == UNSAT && solve(q2, nullptr, 2000, false, true) == UNSAT) { n_obTol++; return; }
    if (solve(q1, nullptr, 2000, true, true) == UNSAT && solve(q2, nullptr, 2000, true, true) == UNSAT) { n_obTol++; return; } }
  // 3. exact, under the path condition
  if (cleared) { Q q; q.cs.push_back({o[0], 5}); Res r = solve(q, &m, g_timeoutMs); if (r == UNSAT) { n_obExact++; return; }
    if (r == SAT) { auto save = g_wit; setWit(m); bool big = evalBig(D, L, R, tol); if (big) { cand(what, "eq", &m); g_wit = save; g_watom.clear(); return; } g_wit = save; g_watom.clear(); } }
  // 4. with a margin, all variables free, then all but one fixed to the witness
  for (int sgnv = 0; sgnv < 2; sgnv++) { Q q; mpq_class mg = qt * 1000; if (sgnv) q.cs.push_back({padd(D, pconst(mg)), 1}); else q.cs.push_back({padd(D, pconst(mg), -1), 4});
    Res r = solve(q, &m, g_timeoutMs); if (r == SAT) { auto save = g_wit; setWit(m); bool big = evalBig(D, L, R, tol); g_wit = save; g_watom.clear(); if (big) { cand(what, "eq", &m); return; } } }
  std::set<AtomId> as; polyAtoms(D, as); closure(as); int tried = 0;
  for (AtomId fv : g_vars) if (as.count(fv) && tried++ < g_maxVarFix) {
    vector<pair<AtomId, mpq_class>> fix; for (AtomId v : g_vars) if (v != fv) fix.push_back({v, g_wit[v]});
    for (int sgnv = 0; sgnv < 2; sgnv++) { Q q; mpq_class mg = qt * 20; if (sgnv) q.cs.push_back({padd(D, pconst(mg)), 1}); else q.cs.push_back({padd(D, pconst(mg), -1), 4});
      Res r = solve(q, &m, 1500, true, false, &fix); if (r == SAT) { auto save = g_wit; setWit(m); bool big = evalBig(D, L, R, tol); g_wit = save; g_watom.clear(); if (big) { cand(what, "eq", &m); return; } } } }
  // 5. within tolerance everywhere?
  { Q q1, q2; q1.cs.push_back({padd(D, pconst(qt), -1), 4}); q2.cs.push_back({padd(D, pconst(qt)), 1});
    Res r1 = solve(q1, &m, g_timeoutMs); if (r1 == UNSAT && solve(q2, nullptr, g_timeoutMs) == UNSAT) { n_obTol++; return; } }
  n_obInc++; emit(string("INC\t") + esc(what));
}
void sym_check_le(const char* what, double a, double b, double tol) {
  n_ob++;
  if (!isH(a) && !isH(b)) { n_obBool++; if (!(a <= b + tol)) cand(what, "le", nullptr); return; }
  if (!finite2(a, b)) { n_obBool++; bool ok = isH(a) ? b == INFINITY : a == -INFINITY; if (!ok) cand(what, "le", nullptr); return; }
  P D = padd(padd(valOf(a), valOf(b), -1), pconst(mpq_class(tol)), -1); // violated iff D > 0
  vector<pair<string, string>> m; int ps = possible(D); 
  if (isConst(D)) { n_obBool++; if (cval(D) > 0) cand(what, "le", nullptr); return; }
  { bool fl; P D0 = stripSigned(padd(valOf(a), valOf(b), -1), fl); int bad = fl ? 1 : 4; if (D0->t.empty() || !(possible(D0) & bad)) { Q q; q.cs.push_back({D0, bad}); if (solve(q, nullptr, g_timeoutMs, true, true) == UNSAT || solve(q, nullptr, g_timeoutMs) == UNSAT) { n_obExact++; return; } } }
  { bool sure; int s = signAtWitness(D, sure); if (sure && s > 0) { cand(what, "le", nullptr); return; } }
  Q q; q.cs.push_back({D, 4});
  if (!(ps & 4)) { Res r = solve(q, nullptr, g_timeoutMs, true, true); if (r == UNSAT) { n_obExact++; return; } }
  Res r = solve(q, &m, g_timeoutMs);
  if (r == UNSAT) { n_obExact++; return; }
  if (r == SAT) { cand(what, "le", &m); return; }
  std::set<AtomId> as; polyAtoms(D, as); closure(as); int tried = 0;
  for (AtomId fv : g_vars) if (as.count(fv) && tried++ < g_maxVarFix) {
    vector<pair<AtomId, mpq_class>> fix; for (AtomId v : g_vars) if (v != fv) fix.push_back({v, g_wit[v]});
    r = solve(q, &m, 1500, true, false, &fix); if (r == SAT) { cand(what, "le", &m); return; } }
  n_obInc++; emit(string("INC\t") + esc(what));
}
void sym_check(const char* what, int c) { n_ob++; n_obBool++; if (!c) cand(what, "bool", nullptr); }
void sym_fail(const char* what) { n_ob++; n_obBool++; cand(what, "fail", nullptr); }
}

// ---------------------------------------------------------------- driver
typedef void (*HFn)(); 
struct HReg { string name; HFn f; };
static vector<HReg>& regs() { static auto* r = new vector<HReg>; return *r; }
extern "C" void sym_register(const char* name, HFn f) { regs().push_back({name, f}); }

static void onSig(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGALRM ? "SIGALRM" : "SIGNAL";
  string k = s == SIGALRM ? "hang" : "crash";
  string r = "VIOL\t" + k + "\t" + n + witS() + "\n"; (void)!write(g_out, r.data(), r.size());
  std::ostringstream o; string st = "STAT\t" + std::to_string(n_dec) + "\t" + std::to_string(n_q) + "\t" + std::to_string(n_sat) + "\t" + std::to_string(n_unsat) + "\t" + std::to_string(n_unk) + "\t" + std::to_string(t_solve) + "\t" + std::to_string(n_ob) + "\t" + std::to_string(n_obExact) + "\t" + std::to_string(n_obTol) + "\t" + std::to_string(n_obInc) + "\t" + std::to_string(n_obBool) + "\nEND\t" + k + "\n"; (void)!write(g_out, st.data(), st.size());
  _exit(0);
}
struct Work { vector<Dec> prefix; vector<pair<string, string>> wit; };

int main(int argc, char** argv) {
  string hn; double budget = 60; long maxPaths = 100000; int pathTmo = 40; string outFile;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--list") { for (auto& r : regs()) printf("%s\n", r.name.c_str()); return 0; }
    else if (a == "--harness") hn = argv[++i];
    else if (a == "--param") { string kv = argv[++i]; size_t e = kv.find('='); g_params[kv.substr(0, e)] = atoi(kv.c_str() + e + 1); }
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--max-paths") maxPaths = atol(argv[++i]);
    else if (a == "--path-timeout") pathTmo = atoi(argv[++i]);
    else if (a == "--query-timeout") g_timeoutMs = atoi(argv[++i]);
    else if (a == "--max-terms") g_maxTerms = atol(argv[++i]);
    else if (a == "--tier") g_tier = atoi(argv[++i]);
  }
  HFn f = nullptr; for (auto& r : regs()) if (r.name == hn) f = r.f;
  if (!f) { fprintf(stderr, "no such harness %s\n", hn.c_str()); return 2; }
  signal(SIGPIPE, SIG_IGN);
  g_solver.start();
  vector<Work> wl; wl.push_back({}); long paths = 0, complete = 0, infeasible = 0, diverged = 0, unkb = 0, icp = 0, concretized = 0, timeouts = 0, assumeUnk = 0; double t0 = nowS(); bool exhausted = true;
  double agg[11] = {0}; std::set<string> fns, reached; std::map<string, int> incs; vector<string> viols; std::set<string> violKeys;
  while (!wl.empty()) {
    if (nowS() - t0 > budget || paths >= maxPaths) { exhausted = false; break; }
    Work w = wl.back(); wl.pop_back(); paths++;
    int pp[2]; if (pipe(pp)) return 2;
    fflush(stdout);
    pid_t c = fork();
    if (!c) {
      close(pp[0]); g_out = pp[1]; prctl(PR_SET_PDEATHSIG, SIGKILL);
      static char alt[1 << 16]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
      struct sigaction sa = {}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
      g_pathDeadline = nowS() + pathTmo; alarm(pathTmo + 20);
      g_prefix = w.prefix; g_initWit = w.wit;
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SYM_DEBUG")) dup2(dn, 2);
      try { f(); flushPend(); endPath("ok"); }
      catch (std::exception& e) { cand(string("unexpected exception: ") + esc(e.what()), "exception", nullptr); flushPend(); endPath("exception"); }
      catch (...) { cand("unexpected exception", "exception", nullptr); flushPend(); endPath("exception"); }
    }
    close(pp[1]); string buf; char tmp[65536]; ssize_t n; while ((n = read(pp[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n); close(pp[0]);
    int st; waitpid(c, &st, 0);
    bool ended = false; std::istringstream is(buf); string ln; vector<Work> alts;
    while (std::getline(is, ln)) {
      vector<string> fs; { std::istringstream l(ln); string x; while (std::getline(l, x, '\t')) fs.push_back(x); } if (fs.empty()) continue;
      if (fs[0] == "ALT") { Work a; std::istringstream d(fs.size() > 1 ? fs[1] : ""); string x; while (std::getline(d, x, ',')) if (!x.empty()) a.prefix.push_back({x[0], atol(x.substr(1, x.size() - 2).c_str()), x.back() == '+'}); for (size_t i = 2; i < fs.size(); i++) { size_t e = fs[i].find('='); a.wit.push_back({fs[i].substr(0, e), fs[i].substr(e + 1)}); } alts.push_back(a); }
      else if (fs[0] == "VIOL") { string key = fs[1] + "\t" + fs[2]; if (violKeys.size() < 400) { violKeys.insert(key); viols.push_back(ln.substr(5)); } }
      else if (fs[0] == "INC") incs[fs.size() > 1 ? fs[1] : ""]++;
      else if (fs[0] == "STAT") for (int i = 0; i < 11 && i + 1 < (int)fs.size(); i++) agg[i] += atof(fs[i + 1].c_str());
      else if (fs[0] == "FNS") for (size_t i = 1; i < fs.size(); i++) fns.insert(fs[i]);
      else if (fs[0] == "REACHED") reached.insert(fs.size() > 1 ? fs[1] : "");
      else if (fs[0] == "DIVERGED") diverged++;
      else if (fs[0] == "UNKBRANCH") unkb++; else if (fs[0] == "ICP") icp++;
      else if (fs[0] == "CONCRETIZE") concretized++;
      else if (fs[0] == "SOLVERRESTART") { }
      else if (fs[0] == "END") { ended = true; if (fs[1] == "ok" || fs[1] == "exception" || fs[1] == "crash" || fs[1] == "hang") complete++; else if (fs[1] == "assume") infeasible++; else if (fs[1] == "timeout") timeouts++; else if (fs[1] == "assume-unknown") assumeUnk++; }
    }
    if (buf.find("SOLVERRESTART") != string::npos || !ended) { g_solver.stop(); g_solver.start(); }
    if (!ended) { timeouts++; }
    for (auto& a : alts) wl.push_back(a);
  }
  g_solver.stop();
  auto js = [](const string& s) { string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32) r += ' '; else r += ch; } return r + "\""; };
  printf("{\"harness\":%s,\"params\":{", js(hn).c_str()); bool first = true; for (auto& p : g_params) { printf("%s%s:%d", first ? "" : ",", js(p.first).c_str(), p.second); first = false; }
  printf("},\"paths\":%ld,\"complete\":%ld,\"pruned_by_assume\":%ld,\"diverged\":%ld,\"unknown_branches\":%ld,\"concretized\":%ld,\"path_timeouts\":%ld,\"assume_unknown\":%ld,\"exhausted\":%s,\"left\":%zu,\"icp\":%ld,", paths, complete, infeasible, diverged, unkb, concretized, timeouts, assumeUnk, exhausted ? "true" : "false", wl.size(), icp);
  printf("\"decisions\":%.0f,\"queries\":%.0f,\"sat\":%.0f,\"unsat\":%.0f,\"unknown\":%.0f,\"solver_s\":%.3f,\"obligations\":%.0f,\"exact\":%.0f,\"within_tol\":%.0f,\"inconclusive\":%.0f,\"path_boolean\":%.0f,\"wall_s\":%.3f,", agg[0], agg[1], agg[2], agg[3], agg[4], agg[5], agg[6], agg[7], agg[8], agg[9], agg[10], nowS() - t0);
  printf("\"functions\":["); first = true; for (auto& x : fns) { printf("%s%s", first ? "" : ",", js(x).c_str()); first = false; } printf("],\"reached\":["); first = true; for (auto& x : reached) { printf("%s%s", first ? "" : ",", js(x).c_str()); first = false; }
  printf("],\"inc\":["); first = true; for (auto& x : incs) { printf("%s%s", first ? "" : ",", js(x.first).c_str()); first = false; }
  printf("],\"violations\":["); first = true; for (auto& x : viols) { printf("%s%s", first ? "" : ",", js([&] { string y = x; for (auto& ch : y) if (ch == '\t') ch = '|'; return y; }()).c_str()); first = false; }
  printf("]}\n");
  return 0;
}
// deterministic entropy: the seed is a shape parameter of the configuration
#include <random>
extern "C" int sym_param(const char*, int);
std::random_device::result_type std::random_device::_M_getval() { return 4711u + (unsigned)sym_param("seed", 0); }
