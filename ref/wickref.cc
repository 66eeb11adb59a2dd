// Reference models used by the checks (independent of the code under test).
//
//  * a parser for the textual form of expressions
//  * an exact canonical form for terms that are closed directed multigraphs
//    (every index joins one upper slot to one lower slot, all tensors antisymmetric)
//  * an exact canonical form for arbitrary terms, by enumeration of all
//    renamings of the indices (used where the graph form does not apply)
//  * a brute-force generalized Wick theorem that works on individual
//    second-quantized operators: it enumerates every set of disjoint elementary
//    contractions, one by one, and takes the sign from the parity of the
//    permutation that brings contracted operators together.
//
// Interface: extern "C", strings in, malloc'ed strings out.
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#ifdef BIGI
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_int I;
static std::string i2s(const I &v) { return v.str(); }
static I gcdI(I a, I b) { return boost::multiprecision::gcd(a, b); }
#else
typedef __int128 I;
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static std::string i2s(I v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; std::string s; while (v) { s += char('0' + int(v % 10)); v /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
#endif
struct Q { I n = 0, d = 1;
  Q(long long a = 0, long long b = 1) : n(a), d(b) { norm(); }
  void norm() { if (d < 0) { n = -n; d = -d; } I g = gcdI(n, d); if (g > 1) { n /= g; d /= g; } }
#ifdef BIGI
  static I mul(const I &a, const I &b) { return a * b; }
  static I add(const I &a, const I &b) { return a + b; }
#else
  static I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw std::runtime_error("REF: overflow"); return r; }
  static I add(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw std::runtime_error("REF: overflow"); return r; }
#endif
  Q operator*(const Q &o) const { Q r; r.n = mul(n, o.n); r.d = mul(d, o.d); r.norm(); return r; }
  Q operator+(const Q &o) const { Q r; r.n = add(mul(n, o.d), mul(o.n, d)); r.d = mul(d, o.d); r.norm(); return r; }
  bool zero() const { return n == 0; }
  std::string str() const { return d == 1 ? i2s(n) : i2s(n) + "/" + i2s(d); } };

struct Idx { char s; int p; bool operator<(const Idx &o) const { return s != o.s ? s < o.s : p < o.p; } bool operator==(const Idx &o) const { return s == o.s && p == o.p; } };
struct Ten { std::string label; char sym = 'A'; std::vector<Idx> up, lo; };
struct Op { bool cre; bool bos; Idx i; bool operator<(const Op &o) const { return std::tie(cre, bos, i) < std::tie(o.cre, o.bos, o.i); } bool operator==(const Op &o) const { return cre == o.cre && bos == o.bos && i == o.i; } };
struct TermT { Q c{1}; std::vector<Ten> t; std::vector<Op> ops; bool no = false; };

// ---------------------------------------------------------------- parsing
struct P { const char *s; int i = 0, n; P(const std::string &x) : s(x.c_str()), n(x.size()) {}
  bool end() { return i >= n; } char c() { return i < n ? s[i] : 0; }
  void ws() { while (i < n && s[i] == ' ') i++; }
  [[noreturn]] void fail(const char *m) { throw std::runtime_error(std::string("PARSE: ") + m + " in '" + std::string(s, n) + "'"); }
  I integer() { if (!isdigit(c())) fail("digit expected"); I v = 0; while (isdigit(c())) { v = Q::add(Q::mul(v, 10), I(s[i] - '0')); i++; } return v; } };
static Idx pidx(P &p) { Idx r; if (!isalpha(p.c())) p.fail("index label"); r.s = p.s[p.i++]; if (p.c() == '_') p.i++; r.p = (int)p.integer(); return r; }
static std::vector<Idx> plist(P &p) { if (p.c() != '{') p.fail("{ expected"); p.i++; std::vector<Idx> r; p.ws(); while (p.c() != '}') { r.push_back(pidx(p)); p.ws(); if (p.c() == ',') { p.i++; p.ws(); } else if (p.c() != '}') p.fail(", or } expected"); } p.i++; return r; }
static TermT pterm(const std::string &line, const std::map<std::string, char> &sym) {
  TermT t; P p(line); p.ws(); int sg = 1; if (p.c() == '+') p.i++; else if (p.c() == '-') { sg = -1; p.i++; } p.ws();
  // number: digits, optional /digits, not followed by '^' (a label such as 2T does not occur)
  if (isdigit(p.c())) { I a = p.integer(), b = 1; if (p.c() == '/') { p.i++; b = p.integer(); } t.c.n = a; t.c.d = b; t.c.norm(); }
  if (sg < 0) t.c.n = -t.c.n;
  bool open = false;
  for (;;) { p.ws(); if (p.end()) break; char c = p.c();
    if (c == '{') { if (open) p.fail("nested {"); open = true; t.no = true; p.i++; continue; }
    if (c == '}') { if (!open) p.fail("unmatched }"); open = false; p.i++; continue; }
    if ((c == 'a' || c == 'b') && p.i + 2 < p.n && (p.s[p.i + 1] == '+' || p.s[p.i + 1] == '-') && p.s[p.i + 2] == '(') {
      Op o; o.bos = c == 'b'; o.cre = p.s[p.i + 1] == '+'; p.i += 3; o.i = pidx(p); if (p.c() != ')') p.fail(") expected"); p.i++; t.ops.push_back(o); continue; }
    if (isalnum(c)) { Ten x; while (isalnum(p.c()) || p.c() == '_' || p.c() == '\'') { if (p.c() == '_' ) { x.label += p.s[p.i++]; continue; } x.label += p.s[p.i++]; }
      if (p.c() != '^') p.fail("^ expected"); p.i++; x.up = plist(p); if (p.c() != '_') p.fail("_ expected"); p.i++; x.lo = plist(p);
      auto f = sym.find(x.label); if (f != sym.end()) x.sym = f->second; t.t.push_back(x); continue; }
    p.fail("unexpected character"); }
  if (open) p.fail("missing }");
  return t; }
static std::vector<TermT> pexpr(const std::string &text, const std::map<std::string, char> &sym) { std::vector<TermT> r; std::istringstream f(text); std::string l; while (std::getline(f, l)) { if (l.empty()) continue; r.push_back(pterm(l, sym)); } return r; }

// ---------------------------------------------------------------- graph canonical form
struct V { std::string label; std::vector<int> up, lo; std::string sig; }; // slots hold line numbers
struct G { std::vector<V> v; std::vector<char> space; int sign = 1; };     // lines 0..L-1
static int parity_of(const std::vector<int> &p) { int s = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) if (p[i] > p[j]) s ^= 1; return s ? -1 : 1; }
static std::string sigv(const V &v, const std::vector<char> &sp) { std::string u, l; for (int x : v.up) u += sp[x]; for (int x : v.lo) l += sp[x]; std::sort(u.begin(), u.end()); std::sort(l.begin(), l.end()); return v.label + "^" + u + "_" + l; }
// returns key ("" if the term vanishes) and sign
static std::pair<std::string, int> canonG(G g) {
  int nv = g.v.size(), nl = g.space.size();
  for (auto &v : g.v) v.sig = sigv(v, g.space);
  std::vector<int> ord(nv); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return g.v[a].sig < g.v[b].sig; });
  std::vector<std::pair<int, int>> blocks; for (int i = 0; i < nv;) { int j = i; while (j < nv && g.v[ord[j]].sig == g.v[ord[i]].sig) j++; blocks.push_back({i, j}); i = j; }
  for (auto &b : blocks) std::sort(ord.begin() + b.first, ord.begin() + b.second);
  std::vector<int> uv(nl, -1), lv(nl, -1);
  for (int i = 0; i < nv; i++) { for (int x : g.v[i].up) { if (uv[x] >= 0) throw std::runtime_error("GRAPH: index used twice as upper"); uv[x] = i; } for (int x : g.v[i].lo) { if (lv[x] >= 0) throw std::runtime_error("GRAPH: index used twice as lower"); lv[x] = i; } }
  for (int i = 0; i < nl; i++) if (uv[i] < 0 || lv[i] < 0) throw std::runtime_error("GRAPH: dangling index");
  std::string best; int bsign = 0; bool first = true; std::vector<int> rank(nv), ls(nl), num(nl);
  std::string head; for (int i = 0; i < nv; i++) { head += g.v[ord[i]].sig; head += ' '; }
  for (;;) {
    for (int i = 0; i < nv; i++) rank[ord[i]] = i;
    std::iota(ls.begin(), ls.end(), 0);
    std::sort(ls.begin(), ls.end(), [&](int a, int b) { return std::make_tuple(g.space[a], rank[uv[a]], rank[lv[a]], a) < std::make_tuple(g.space[b], rank[uv[b]], rank[lv[b]], b); });
    std::string key; key.reserve(3 * nl); for (int i = 0; i < nl; i++) { num[ls[i]] = i; key += g.space[ls[i]]; key += char('A' + rank[uv[ls[i]]]); key += char('A' + rank[lv[ls[i]]]); }
    if (first || key <= best) { int s = g.sign; for (auto &v : g.v) { std::vector<int> p; for (int x : v.up) p.push_back(num[x]); s *= parity_of(p); p.clear(); for (int x : v.lo) p.push_back(num[x]); s *= parity_of(p); }
      if (first || key < best) { best = key; bsign = s; first = false; } else if (bsign != 0 && s != bsign) bsign = 0; }
    // next permutation inside blocks (odometer)
    bool more = false; for (auto &b : blocks) { if (std::next_permutation(ord.begin() + b.first, ord.begin() + b.second)) { more = true; break; } }
    if (!more) break; }
  if (bsign == 0) return {"", 0};
  return {head + "| " + best, bsign}; }
// term -> graph; external operators become one antisymmetric vertex "@"
static G term2graph(const TermT &t) {
  G g; std::map<Idx, int> id; auto line = [&](const Idx &i) { auto f = id.find(i); if (f != id.end()) return f->second; int k = g.space.size(); id[i] = k; g.space.push_back(i.s); return k; };
  for (auto &x : t.t) { if (x.sym != 'A') throw std::runtime_error("GRAPH: tensor not antisymmetric"); V v; v.label = x.label; for (auto &i : x.up) v.up.push_back(line(i)); for (auto &i : x.lo) v.lo.push_back(line(i)); g.v.push_back(v); }
  if (!t.ops.empty()) { V v; v.label = "@"; std::vector<int> key; std::vector<int> ann; for (auto &o : t.ops) { if (o.bos) throw std::runtime_error("GRAPH: boson"); key.push_back(o.cre ? 0 : 1); if (o.cre) v.up.push_back(line(o.i)); else ann.push_back(line(o.i)); }
    int s = 0; for (size_t i = 0; i < key.size(); i++) for (size_t j = i + 1; j < key.size(); j++) if (key[i] > key[j]) s ^= 1; if (s) g.sign = -g.sign; std::reverse(ann.begin(), ann.end()); v.lo = ann; g.v.push_back(v); }
  return g; }

typedef std::map<std::string, Q> Res;
static void addr(Res &r, const std::string &k, const Q &q) { if (q.zero()) return; auto f = r.find(k); if (f == r.end()) r[k] = q; else { f->second = f->second + q; if (f->second.zero()) r.erase(f); } }
static Res canon_graph_expr(const std::vector<TermT> &e) { Res r; for (auto &t : e) { auto [k, s] = canonG(term2graph(t)); if (s) addr(r, k, t.c * Q(s)); } return r; }

// ---------------------------------------------------------------- brute-force canonical form
// All indices are summation indices: any injective renaming inside a space leaves
// the value unchanged.  Operators are a normal-ordered product, i.e. fermionic
// operators anticommute, all other pairs commute.
static std::string ser(const std::vector<Ten> &t, const std::vector<Op> &o) { std::string s; for (auto &x : t) { s += x.label; s += '^'; for (auto &i : x.up) { s += i.s; s += std::to_string(i.p); } s += '_'; for (auto &i : x.lo) { s += i.s; s += std::to_string(i.p); } s += ' '; } for (auto &x : o) { s += x.bos ? 'b' : 'a'; s += x.cre ? '+' : '-'; s += x.i.s; s += std::to_string(x.i.p); } return s; }
template <class T, class F> static int sort_sign(std::vector<T> &v, F fermi) { int s = 1; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j + 1 < v.size() - i; j++) if (v[j + 1] < v[j]) { if (fermi(v[j], v[j + 1])) s = -s; std::swap(v[j], v[j + 1]); } return s; }
static std::pair<std::string, int> canonB(const TermT &t, bool sort_ops, bool rename) {
  std::map<char, std::vector<Idx>> used; auto see = [&](const Idx &i) { auto &v = used[i.s]; if (std::find(v.begin(), v.end(), i) == v.end()) v.push_back(i); };
  for (auto &x : t.t) { for (auto &i : x.up) see(i); for (auto &i : x.lo) see(i); } for (auto &o : t.ops) see(o.i);
  std::vector<char> sp; std::vector<std::vector<int>> perm; for (auto &[s, v] : used) { std::sort(v.begin(), v.end()); sp.push_back(s); std::vector<int> p(v.size()); std::iota(p.begin(), p.end(), 0); perm.push_back(p); }
  std::string best; int bs = 0; bool first = true;
  for (;;) { std::map<Idx, Idx> m; if (rename) for (size_t k = 0; k < sp.size(); k++) for (size_t a = 0; a < perm[k].size(); a++) m[used[sp[k]][a]] = Idx{sp[k], perm[k][a]}; else for (auto &[s, v] : used) for (auto &i : v) m[i] = i;
    int sg = 1; auto ts = t.t; auto os = t.ops;
    for (auto &x : ts) { for (auto &i : x.up) i = m[i]; for (auto &i : x.lo) i = m[i];
      if (x.sym != 'N') { int a = sort_sign(x.up, [](const Idx &, const Idx &) { return true; }); int b = sort_sign(x.lo, [](const Idx &, const Idx &) { return true; }); if (x.sym == 'A') { sg *= a * b; for (size_t i = 0; i + 1 < x.up.size(); i++) if (x.up[i] == x.up[i + 1]) sg = 0; for (size_t i = 0; i + 1 < x.lo.size(); i++) if (x.lo[i] == x.lo[i + 1]) sg = 0; } } }
    std::sort(ts.begin(), ts.end(), [](const Ten &a, const Ten &b) { return std::tie(a.label, a.sym, a.up, a.lo) < std::tie(b.label, b.sym, b.up, b.lo); });
    for (auto &o : os) o.i = m[o.i];
    if (sort_ops) { sg *= sort_sign(os, [](const Op &a, const Op &b) { return !a.bos && !b.bos; }); for (size_t i = 0; i + 1 < os.size(); i++) if (os[i] == os[i + 1] && !os[i].bos) sg = 0; }
    std::string k = ser(ts, os); if (!sort_ops && t.no) k += "{}";
    if (first || k < best) { best = k; bs = sg; first = false; } else if (k == best && sg != bs) bs = 0;
    if (!rename) break; bool more = false; for (auto &p : perm) if (std::next_permutation(p.begin(), p.end())) { more = true; break; } if (!more) break; }
  return {bs ? best : "", bs}; }

// ---------------------------------------------------------------- brute-force Wick theorem
struct SQ { int oper; bool cre; int space; int line_slot; };
struct WickIn { std::string spaces, types; std::vector<std::string> lab; std::vector<std::vector<int>> cre, ann; int minr, maxr, maxcum; Q fac{1}; };
struct Wick {
  const WickIn &in; std::vector<SQ> q; std::vector<int> slot_in_op; std::vector<int> state; // -1 undecided, -2 free, k>=0 contraction id
  struct EC { std::vector<int> cre, ann; char kind; }; std::vector<EC> cs; std::map<std::string, Q> raw; std::map<std::string, G> rawg; long long count = 0; int nfree = 0, ndec = 0;
  Wick(const WickIn &i) : in(i) { int ns = in.spaces.size(); for (size_t o = 0; o < in.lab.size(); o++) { int c = 0; for (int s = 0; s < ns; s++) for (int k = 0; k < in.cre[o][s]; k++) { q.push_back({(int)o, true, s, c++}); } int tot = 0; for (int s = 0; s < ns; s++) tot += in.ann[o][s]; int a = tot - 1; for (int s = ns - 1; s >= 0; s--) for (int k = 0; k < in.ann[o][s]; k++) { q.push_back({(int)o, false, s, a--}); } } state.assign(q.size(), -1); }
  void leaf() { count++;
    // lines: one per operator slot, then identified by contractions. union via direct construction.
    int n = q.size(); int nop = in.lab.size(); G g; std::vector<int> line(n, -1);
    // pair contractions of occupied/unoccupied: both share one line
    std::vector<int> seq; // permutation for the sign
    auto newline = [&](int s) { g.space.push_back(in.spaces[s]); return (int)g.space.size() - 1; };
    for (auto &c : cs) { if (c.kind == 'o' || c.kind == 'u') { int l = newline(q[c.cre[0]].space); line[c.cre[0]] = line[c.ann[0]] = l; } }
    for (int i = 0; i < n; i++) if (line[i] < 0) line[i] = newline(q[i].space);
    for (int o = 0; o < nop; o++) { V v; v.label = in.lab[o]; int nc = 0, na = 0; for (auto &x : q) if (x.oper == o) (x.cre ? nc : na)++; v.lo.assign(nc, -1); v.up.assign(na, -1); for (int i = 0; i < n; i++) if (q[i].oper == o) (q[i].cre ? v.lo : v.up)[q[i].line_slot] = line[i]; g.v.push_back(v); }
    for (auto &c : cs) {
      if (c.kind == 'o' || c.kind == 'g' ) { seq.push_back(c.cre[0]); seq.push_back(c.ann[0]); }
      else if (c.kind == 'u' || c.kind == 'e') { seq.push_back(c.ann[0]); seq.push_back(c.cre[0]); }
      else { for (int x : c.cre) seq.push_back(x); for (int x : c.ann) seq.push_back(x); }
      if (c.kind == 'g' || c.kind == 'e' || c.kind == 'l') { V v; v.label = c.kind == 'g' ? "gamma1" : c.kind == 'e' ? "eta1" : "lambda" + std::to_string(c.cre.size()); for (int x : c.cre) v.up.push_back(line[x]); for (int x : c.ann) v.lo.push_back(line[x]); std::reverse(v.lo.begin(), v.lo.end()); g.v.push_back(v); } }
    V x; x.label = "@"; std::vector<int> an; for (int i = 0; i < n; i++) if (state[i] == -2 && q[i].cre) { seq.push_back(i); x.up.push_back(line[i]); } for (int i = 0; i < n; i++) if (state[i] == -2 && !q[i].cre) { seq.push_back(i); an.push_back(line[i]); } std::reverse(an.begin(), an.end()); x.lo = an; if (nfree) g.v.push_back(x);
    g.sign = parity_of(seq);
    // cheap pre-aggregation: adjacency in the given vertex order (contraction vertices sorted by signature+content)
    auto [k, s] = canon_fixed(g); auto f = raw.find(k); Q sgn(s); if (f == raw.end()) { raw[k] = sgn; G h = g; h.sign = s * 1; rawg[k] = g; rawsign[k] = s; } else f->second = f->second + sgn; }
  std::map<std::string, int> rawsign;
  static std::pair<std::string, int> canon_fixed(const G &g) { int nv = g.v.size(), nl = g.space.size(); std::vector<int> uv(nl), lv(nl); for (int i = 0; i < nv; i++) { for (int x : g.v[i].up) uv[x] = i; for (int x : g.v[i].lo) lv[x] = i; }
    std::vector<int> ls(nl), num(nl); std::iota(ls.begin(), ls.end(), 0); std::sort(ls.begin(), ls.end(), [&](int a, int b) { return std::make_tuple(g.space[a], uv[a], lv[a], a) < std::make_tuple(g.space[b], uv[b], lv[b], b); }); std::string key; for (auto &v : g.v) { key += v.label; key += ' '; } for (int i = 0; i < nl; i++) { num[ls[i]] = i; key += g.space[ls[i]]; key += char('A' + uv[ls[i]]); key += char('A' + lv[ls[i]]); }
    int s = g.sign; for (auto &v : g.v) { std::vector<int> p; for (int x : v.up) p.push_back(num[x]); s *= parity_of(p); p.clear(); for (int x : v.lo) p.push_back(num[x]); s *= parity_of(p); } return {key, s}; }
  int n_undecided() { int k = 0; for (int s : state) if (s == -1) k++; return k; }
  void rec() { int n = q.size(); int i = 0; while (i < n && state[i] != -1) i++;
    if (nfree > in.maxr) return;
    if (i == n) { if (nfree >= in.minr && nfree <= in.maxr) leaf(); return; }
    // leave free
    state[i] = -2; nfree++; rec(); nfree--; state[i] = -1;
    char ty = in.types[q[i].space];
    // all subsets of later undecided operators of the same space forming an elementary contraction with i
    std::vector<int> cand; for (int j = i + 1; j < n; j++) if (state[j] == -1 && q[j].space == q[i].space) cand.push_back(j);
    if (ty == 'o' || ty == 'u') { for (int j : cand) { if (q[j].oper == q[i].oper || q[j].cre == q[i].cre) continue; // i is to the left of j
        bool ok = ty == 'o' ? (q[i].cre && !q[j].cre) : (!q[i].cre && q[j].cre); if (!ok) continue; EC c; c.kind = ty; c.cre = {q[i].cre ? i : j}; c.ann = {q[i].cre ? j : i}; push(c); } return; }
    int m = cand.size(); for (unsigned mask = 1; mask < (1u << m); mask++) { EC c; (q[i].cre ? c.cre : c.ann).push_back(i); bool multi = false; for (int b = 0; b < m; b++) if (mask >> b & 1) { (q[cand[b]].cre ? c.cre : c.ann).push_back(cand[b]); if (q[cand[b]].oper != q[i].oper) multi = true; }
      if (c.cre.size() != c.ann.size() || !multi || (int)c.cre.size() > in.maxcum) continue; if (c.cre.size() == 1) c.kind = c.cre[0] < c.ann[0] ? 'g' : 'e'; else c.kind = 'l'; push(c); } }
  void push(const EC &c) { int id = cs.size(); for (int x : c.cre) state[x] = id; for (int x : c.ann) state[x] = id; cs.push_back(c); rec(); cs.pop_back(); for (int x : c.cre) state[x] = -1; for (int x : c.ann) state[x] = -1; }
  Res run() { rec(); Q pre = in.fac; for (size_t o = 0; o < in.lab.size(); o++) for (size_t s = 0; s < in.spaces.size(); s++) { for (int k = 2; k <= in.cre[o][s]; k++) pre = pre * Q(1, k); for (int k = 2; k <= in.ann[o][s]; k++) pre = pre * Q(1, k); }
    Res r; for (auto &[k, c] : raw) { if (c.zero()) continue; G g = rawg[k]; auto [key, s] = canonG(g); if (!s) continue; // raw coefficient counts relative sign: c*rawsign gives the multiple of g as stored
      addr(r, key, c * Q(rawsign[k]) * Q(s) * pre); }
    return r; } };
// spec: "spaces types minr maxr maxcum num/den ; label cre ann ; ..."   e.g. "ov ou 0 4 99 1/1;A 10 01;B 01 10"
static WickIn pspec(const std::string &spec) { WickIn w; std::istringstream f(spec); std::string part; bool first = true; while (std::getline(f, part, ';')) { std::istringstream g(part); if (first) { std::string fr; g >> w.spaces >> w.types >> w.minr >> w.maxr >> w.maxcum >> fr; auto k = fr.find('/'); w.fac = Q(atoll(fr.substr(0, k).c_str()), k == std::string::npos ? 1 : atoll(fr.substr(k + 1).c_str())); first = false; } else { std::string l, c, a; g >> l >> c >> a; std::vector<int> cv, av; for (char x : c) cv.push_back(x - '0'); for (char x : a) av.push_back(x - '0'); w.lab.push_back(l); w.cre.push_back(cv); w.ann.push_back(av); } } return w; }

static char *dup(const std::string &s) { char *r = (char *)malloc(s.size() + 1); memcpy(r, s.c_str(), s.size() + 1); return r; }
static std::string res2s(const Res &r) { std::string s; for (auto &[k, q] : r) { s += q.str(); s += '\t'; s += k; s += '\n'; } return s; }
static std::map<std::string, char> psym(const char *s) { std::map<std::string, char> m; std::istringstream f(s ? s : ""); std::string w; while (f >> w) { auto k = w.find('='); m[w.substr(0, k)] = w[k + 1]; } return m; }
static std::string diff(const Res &ref, const Res &got) { std::string s; for (auto &[k, q] : ref) { auto f = got.find(k); if (f == got.end()) s += "missing term: expected " + q.str() + " x " + k + "\n"; else if (f->second.n != q.n || f->second.d != q.d) s += "wrong coefficient: expected " + q.str() + " got " + f->second.str() + " x " + k + "\n"; } for (auto &[k, q] : got) if (!ref.count(k)) s += "extra term: got " + q.str() + " x " + k + "\n"; return s; }

extern "C" {
void wr_free(char *p) { free(p); }
// exact canonical form of a closed antisymmetric expression
char *wr_graph(const char *text) { try { return dup(res2s(canon_graph_expr(pexpr(text, {})))); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
// same, by enumeration of index renamings. mode bit0: sort operators, bit1: rename indices
char *wr_brute(const char *text, const char *sym, int mode) { try { Res r; for (auto &t : pexpr(text, psym(sym))) { auto [k, s] = canonB(t, mode & 1, mode & 2); if (s) addr(r, k, t.c * Q(s)); } return dup(res2s(r)); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
// reference contraction
char *wr_contract(const char *spec, long long *raw) { try { WickIn in = pspec(spec); Wick w(in); Res r = w.run(); if (raw) *raw = w.count; return dup(res2s(r)); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
// compare an expression with the reference contraction: "" when equal
char *wr_check(const char *spec, const char *text, long long *raw, long long *nterms) { try { WickIn in = pspec(spec); Wick w(in); Res r = w.run(); if (raw) *raw = w.count; if (nterms) *nterms = r.size(); return dup(diff(r, canon_graph_expr(pexpr(text, {})))); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
// compare two expressions as closed antisymmetric graphs
char *wr_diff(const char *a, const char *b) { try { return dup(diff(canon_graph_expr(pexpr(a, {})), canon_graph_expr(pexpr(b, {})))); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
char *wr_bdiff(const char *a, const char *b, const char *sym, int mode) { try { Res r[2]; const char *x[2] = {a, b}; for (int k = 0; k < 2; k++) for (auto &t : pexpr(x[k], psym(sym))) { auto [key, s] = canonB(t, mode & 1, mode & 2); if (s) addr(r[k], key, t.c * Q(s)); } return dup(diff(r[0], r[1])); } catch (std::exception &e) { return dup(std::string("!") + e.what()); } }
}
