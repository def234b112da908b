// E01-E04, A01, D04 (noise models), S01.
#include "fam.hh"
#include "emissions/base.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/identity.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "emissions/string_alignment.hh"
#include "distributions/get_distribution.hh"
#undef exit
#include <boost/math/distributions/students_t.hpp>
using namespace fam;
using namespace vp;
typedef std::string str_t;

template <class T> struct EFam {
  typedef std::pair<T, T> P;
  typedef std::map<P, double> Data;
  std::string name;
  std::function<Emission<T>*(const H&)> make;
  std::function<H(Emission<T>&)> hyp;
  std::vector<H> hypers;
  std::vector<P> pairs, probes;
  std::vector<T> cleans, dirties;  // dirties: complete outcome alphabet (empty: not enumerable)
  int depth = 5;
  bool invertible = true;
  std::function<double(const Data&, const H&)> ref_score;   // null: no independent formula
  double tol = 1e-8;
};
template <class T> std::string showp(const std::pair<T, T>& p) { return "(" + show(p.first) + "->" + show(p.second) + ")"; }
template <class T> std::string showd(const std::map<std::pair<T, T>, double>& d) {
  std::string s = "{";
  for (auto& [p, w] : d) if (w != 0) s += showp(p) + "*" + num(w) + ";";
  return s + "}";
}
template <class T> std::unique_ptr<Emission<T>> efresh(const EFam<T>& f, const H& h, const typename EFam<T>::Data& d) {
  std::unique_ptr<Emission<T>> e(f.make(h));
  for (auto& [p, w] : d) for (int i = 0; i < int(w); ++i) e->incorporate(p);
  return e;
}
template <class T> Obs eobs(const EFam<T>& f, const Emission<T>& e) {
  Obs o;
  o.n = e.N;
  o.score = e.logp_score();
  for (auto& p : f.probes) o.lp.push_back(e.logp(p));
  return o;
}
static double bb_score(double n, double s, double a, double b) {
  return lg(s + a) + lg(n - s + b) - lg(n + a + b) - lg(a) - lg(b) + lg(a + b);
}

// ---- families ------------------------------------------------------------------
static EFam<bool> e_bitflip() {
  EFam<bool> f;
  f.name = "bitflip";
  f.make = [](const H&) { return new BitFlip; };
  f.hyp = [](Emission<bool>&) { return H{}; };
  f.hypers = {{}};
  f.pairs = {{true, false}, {false, true}};
  f.probes = f.pairs;
  f.cleans = {false, true};
  f.ref_score = [](const auto&, const H&) { return 0.0; };
  f.depth = 6;
  return f;
}
template <class T> EFam<T> e_identity(std::vector<T> vals) {
  EFam<T> f;
  f.name = "identity_" + std::string(std::is_same_v<T, str_t> ? "string" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, bool> ? "bool" : "int");
  f.make = [](const H&) { return new IdentityEmission<T>; };
  f.hyp = [](Emission<T>&) { return H{}; };
  f.hypers = {{}};
  for (T v : vals) f.pairs.push_back({v, v});
  f.probes = f.pairs;
  f.cleans = vals;
  f.ref_score = [](const auto&, const H&) { return 0.0; };
  return f;
}
static EFam<bool> e_sometimes_bitflip() {
  EFam<bool> f;
  f.name = "sometimes_bitflip";
  f.make = [](const H& h) { auto* s = new Sometimes<bool>(new BitFlip); s->bb.alpha = h[0]; s->bb.beta = h[1]; return s; };
  f.hyp = [](Emission<bool>& e) { auto& s = dynamic_cast<Sometimes<bool>&>(e); return H{s.bb.alpha, s.bb.beta}; };
  f.hypers = {{1, 1}, {0.5, 4}};
  f.pairs = {{true, false}, {false, true}, {true, true}, {false, false}};
  f.probes = f.pairs;
  f.cleans = {false, true};
  f.dirties = {false, true};
  f.ref_score = [](const std::map<std::pair<bool, bool>, double>& d, const H& h) {
    double n = 0, s = 0;
    for (auto& [p, w] : d) { n += w; if (p.first != p.second) s += w; }
    return bb_score(n, s, h[0], h[1]);
  };
  return f;
}
static EFam<int> e_categorical(int k) {
  EFam<int> f;
  f.name = "categorical" + std::to_string(k);
  f.make = [k](const H& h) { auto* c = new CategoricalEmission(k); for (int i = 0; i < k; ++i) c->emission_dists[i].alpha = h[i]; return c; };
  f.hyp = [k](Emission<int>& e) { auto& c = dynamic_cast<CategoricalEmission&>(e); H h; for (auto& d : c.emission_dists) h.push_back(d.alpha); return h; };
  f.hypers = {H(k, 1.0), H(k, 0.1)};
  f.hypers[1][0] = 5;
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) f.pairs.push_back({i, j});
  f.probes = f.pairs;
  for (int i = 0; i < k; ++i) { f.cleans.push_back(i); f.dirties.push_back(i); }
  f.depth = k == 2 ? 6 : 4;
  f.ref_score = [k](const std::map<std::pair<int, int>, double>& d, const H& h) {
    double s = 0;
    for (int i = 0; i < k; ++i) {
      std::vector<double> c(k, 0.0);
      for (auto& [p, w] : d) if (p.first == i) c[p.second] += w;
      s += dm_score(c, h[i]);
    }
    return s;
  };
  return f;
}
static EFam<int> e_sometimes_categorical(int k) {
  EFam<int> f;
  f.name = "sometimes_categorical" + std::to_string(k);
  f.make = [k](const H& h) {
    auto* c = new CategoricalEmission(k);
    for (auto& d : c->emission_dists) d.alpha = h[2];
    auto* s = new Sometimes<int>(c, true);
    s->bb.alpha = h[0]; s->bb.beta = h[1];
    return s;
  };
  f.hyp = [](Emission<int>& e) { auto& s = dynamic_cast<Sometimes<int>&>(e); return H{s.bb.alpha, s.bb.beta, dynamic_cast<CategoricalEmission*>(s.be)->emission_dists[0].alpha}; };
  f.hypers = {{1, 1, 1}, {0.5, 4, 0.2}};
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) f.pairs.push_back({i, j});
  f.probes = f.pairs;
  for (int i = 0; i < k; ++i) { f.cleans.push_back(i); f.dirties.push_back(i); }
  f.invertible = false;   // a pair with dirty == clean is split between two explanations
  return f;
}
static EFam<double> e_gaussian() {
  EFam<double> f;
  f.name = "gaussian";
  f.make = [](const H& h) { auto* g = new GaussianEmission; g->zmn.alpha = h[0]; g->zmn.beta = h[1]; return g; };
  f.hyp = [](Emission<double>& e) { auto& g = dynamic_cast<GaussianEmission&>(e); return H{g.zmn.alpha, g.zmn.beta}; };
  f.hypers = {{1, 1}, {3, 0.2}};
  f.pairs = {{0, 0}, {0, 1.5}, {2, -1}, {-3, 7}};
  f.probes = {{0, 0}, {1, 2}, {-1, 20}, {5, 4.5}};
  f.cleans = {0, -2.5};
  f.depth = 5;
  f.ref_score = [](const std::map<std::pair<double, double>, double>& d, const H& h) {
    std::map<double, double> r;
    for (auto& [p, w] : d) r[p.second - p.first] += w;
    return zmn_score(r, h);
  };
  f.tol = 1e-7;
  return f;
}
static EFam<double> e_sometimes_gaussian() {
  EFam<double> f = e_gaussian();
  f.name = "sometimes_gaussian";
  f.make = [](const H& h) {
    auto* g = new GaussianEmission; g->zmn.alpha = h[0]; g->zmn.beta = h[1];
    auto* s = new Sometimes<double>(g); s->bb.alpha = h[2]; s->bb.beta = h[3];
    return s;
  };
  f.hyp = [](Emission<double>& e) { auto& s = dynamic_cast<Sometimes<double>&>(e); auto& g = dynamic_cast<GaussianEmission&>(*s.be); return H{g.zmn.alpha, g.zmn.beta, s.bb.alpha, s.bb.beta}; };
  f.hypers = {{1, 1, 1, 1}, {3, 0.2, 0.5, 4}};
  f.pairs = {{0, 0}, {5, 5}, {0, 1.5}, {2, -1}};
  f.ref_score = [](const std::map<std::pair<double, double>, double>& d, const H& h) {
    std::map<double, double> r;
    double n = 0, s = 0;
    for (auto& [p, w] : d) { n += w; if (p.first != p.second) { s += w; r[p.second - p.first] += w; } }
    return zmn_score(r, h) + bb_score(n, s, h[2], h[3]);
  };
  return f;
}
static EFam<str_t> e_simple_string() {
  EFam<str_t> f;
  f.name = "simple_string";
  f.make = [](const H& h) {
    auto* s = new SimpleStringEmission;
    s->lowest_char = 'a'; s->highest_char = 'b';
    s->substitutions.alpha = h[0]; s->substitutions.beta = h[1];
    s->insertions.alpha = h[2]; s->insertions.beta = h[3];
    s->deletions.alpha = h[4]; s->deletions.beta = h[5];
    return s;
  };
  f.hyp = [](Emission<str_t>& e) {
    auto& s = dynamic_cast<SimpleStringEmission&>(e);
    return H{s.substitutions.alpha, s.substitutions.beta, s.insertions.alpha, s.insertions.beta, s.deletions.alpha, s.deletions.beta};
  };
  f.hypers = {{1, 1, 1, 1, 1, 1}, {0.5, 4, 0.2, 3, 1, 10}};
  f.pairs = {{"ab", "ab"}, {"", ""}, {"ab", "b"}, {"a", "abb"}, {"ba", "ab"}, {"bb", ""}, {"", "a"}};
  f.probes = {{"", ""}, {"ab", "ab"}, {"ab", "ba"}, {"a", ""}, {"", "bb"}, {"aab", "ab"}};
  f.cleans = {"", "a", "ab"};
  f.depth = 4;
  return f;
}
template <class F> void for_all_e(F f) {
  f(e_bitflip()); f(e_identity<str_t>({"", "xy"})); f(e_identity<double>({0.5, -3})); f(e_identity<bool>({true, false})); f(e_identity<int>({2, 5}));
  f(e_sometimes_bitflip()); f(e_categorical(2)); f(e_categorical(3)); f(e_sometimes_categorical(3));
  f(e_gaussian()); f(e_sometimes_gaussian()); f(e_simple_string());
}

// ---- E01 ----------------------------------------------------------------------
template <class T> void e01(const EFam<T>& f) {
  int depth = f.depth + level();
  for (auto& h : f.hypers) {
    typename EFam<T>::Data data;
    std::vector<std::pair<int, bool>> hist;  // (pair index, removed)
    std::map<std::string, Obs> expect;
    int bad = 0;
    auto trace = [&] {
      std::string s = f.name + "[hypers=" + hs(h) + "]";
      for (auto& [i, rm] : hist) s += std::string(rm ? " remove" : " add") + showp(f.pairs[i]);
      return s;
    };
    std::function<void(int)> go = [&](int left) {
      if (bad > 10) return;
      std::string tr = trace();
      at(tr);
      std::unique_ptr<Emission<T>> e(f.make(h));
      Obs got;
      double before = 0, lp = 0;
      bool unit_add = false;
      std::string err = guarded([&] {
        for (size_t i = 0; i < hist.size(); ++i) {
          auto p = f.pairs[hist[i].first];
          if (i + 1 == hist.size() && !hist[i].second) { unit_add = true; before = e->logp_score(); lp = e->logp(p); }
          if (hist[i].second) e->unincorporate(p); else e->incorporate(p);
        }
        got = eobs(f, *e);
      });
      ++S.transitions;
      if (!err.empty()) { violation("E01:" + f.name + ":error", err, tr); ++bad; return; }
      std::string k = showd<T>(data);
      if (!expect.count(k)) { auto r = efresh(f, h, data); expect[k] = eobs(f, *r); ++S.states; }
      std::string df = diff(got, expect.at(k), f.tol);
      if (!df.empty()) { violation("E01:" + f.name + ":differs-from-fresh", df + " (vs a fresh model given " + k + ")", tr); ++bad; }
      if (unit_add && !close(got.score - before, lp, f.tol)) { violation("E01:" + f.name + ":score-not-sequential", "adding the pair changed the score by " + num(got.score - before) + " but its predictive was " + num(lp), tr); ++bad; }
      if (hist.empty() && !close(got.score, 0, 1e-9)) violation("E01:" + f.name + ":empty-score", num(got.score), tr);
      if (f.ref_score) {
        double r = f.ref_score(data, h);
        if (!close(got.score, r, f.tol)) { violation("E01:" + f.name + ":score-formula", "score " + num(got.score) + " but the model's is " + num(r), tr); ++bad; }
      }
      Obs again = eobs(f, *e);
      df = diff(again, got, f.tol);
      if (!df.empty()) { violation("E01:" + f.name + ":query-changes-state", df, tr); ++bad; }
      if (!left) { ++S.traces; return; }
      for (int i = 0; i < int(f.pairs.size()); ++i)
        for (bool rm : {false, true}) {
          if (rm && data[f.pairs[i]] < 1) continue;
          data[f.pairs[i]] += rm ? -1 : 1;
          hist.push_back({i, rm});
          go(left - 1);
          hist.pop_back();
          data[f.pairs[i]] -= rm ? -1 : 1;
        }
    };
    go(depth);
    // longer: load, then drain in two orders
    for (int rev = 0; rev < 2; ++rev) {
      hist.clear(); data.clear();
      int n = f.pairs.size();
      for (int r = 0; r < 3; ++r) for (int i = 0; i < n; ++i) { hist.push_back({i, false}); data[f.pairs[i]] += 1; }
      for (int i = 0; i < 3 * n; ++i) {
        int j = rev ? n - 1 - i / 3 : i % n;
        hist.push_back({j, true});
        data[f.pairs[j]] -= 1;
        go(0);
      }
    }
  }
  sample(f.name + ": all add/remove histories of depth " + std::to_string(depth));
}
// the edit decisions recorded for a pair are those of one complete generation
static void e01_simple_string_counts() {
  auto strs = strings_upto('a', 'c', pick(3, 4, 5));
  for (auto& c : strs) for (auto& d : strs) {
    if (too_many()) return;
    std::string tr = "simple_string add(" + show(c) + "->" + show(d) + ")";
    at(tr);
    SimpleStringEmission e;
    e.incorporate({c, d});
    ++S.states; ++S.transitions;
    auto& i = e.insertions; auto& x = e.deletions; auto& s = e.substitutions;
    std::string why;
    if (x.N != c.size()) why = num(x.N) + " deletion decisions for " + std::to_string(c.size()) + " clean characters";
    else if (s.N != c.size() - x.s) why = num(s.N) + " substitution decisions for " + num(c.size() - x.s) + " kept characters";
    else if (i.N != c.size() + 1 + i.s) why = num(i.N) + " insertion decisions, a complete generation has " + num(c.size() + 1 + i.s);
    else if (i.s - x.s != double(d.size()) - double(c.size())) why = "insertions minus deletions is " + num(i.s - x.s) + ", lengths differ by " + num(double(d.size()) - double(c.size()));
    else if (c == d && (i.s || x.s || s.s)) why = "an unchanged string was explained with edits";
    if (!why.empty()) violation("E01:simple_string:decisions", why, tr);
    e.unincorporate({c, d});
    if (i.N || i.s || x.N || x.s || s.N || s.s || e.N) violation("E01:simple_string:decisions-removed", "removing the only pair left evidence behind", tr);
    double sc = 0;
    if (!close(e.logp_score(), sc)) violation("E01:simple_string:decisions-removed", "score after removing the only pair is " + num(e.logp_score()), tr);
  }
}

// error-rate model over a model that can also leave a value unchanged: unchanged
// values are split between the two explanations, and removal takes the split back
static void e01_split(bool weighted) {
  struct B { double n, s; std::vector<std::vector<double>> c; double score; std::vector<double> lp; };
  const int k = 3;
  std::vector<std::pair<int, int>> pairs = {{0, 0}, {1, 1}, {0, 1}, {1, 0}, {2, 1}};
  std::vector<double> ws = weighted ? std::vector<double>{1, 0.5} : std::vector<double>{1};
  typedef Sometimes<int> M;
  auto look = [&](const M& m) {
    B b;
    b.n = m.N; b.s = m.bb.s;
    for (auto& d : dynamic_cast<CategoricalEmission*>(m.be)->emission_dists) b.c.push_back(d.counts);
    b.score = m.logp_score();
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) b.lp.push_back(m.logp({i, j}));
    return b;
  };
  auto cmp = [&](const B& a, const B& b) -> std::string {
    if (!close(a.n, b.n) || !close(a.s, b.s, 1e-7)) return "counts " + num(a.n) + ", " + num(a.s) + " vs expected " + num(b.n) + ", " + num(b.s);
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (!close(a.c[i][j], b.c[i][j], 1e-7)) return "confusion count [" + str(i) + "][" + str(j) + "] " + num(a.c[i][j]) + " vs expected " + num(b.c[i][j]);
    if (!close(a.score, b.score, 1e-7)) return "score " + num(a.score) + " vs expected " + num(b.score);
    for (size_t i = 0; i < a.lp.size(); ++i) if (!close(a.lp[i], b.lp[i], 1e-7)) return "log probability " + num(a.lp[i]) + " vs expected " + num(b.lp[i]);
    return "";
  };
  auto make = [&] { return std::make_unique<M>(new CategoricalEmission(k), true); };
  B empty = look(*make());
  struct Op { int pair; double w; };
  std::vector<Op> hist;
  std::map<std::pair<int, double>, int> held;
  std::function<void(int)> go = [&](int left) {
    if (too_many()) return;
    std::string tr = "sometimes_categorical:";
    for (auto& o : hist) tr += (o.w < 0 ? " remove " : " add ") + showp(pairs[o.pair]) + "*" + num(std::abs(o.w));
    at(tr);
    auto m = make();
    double n = 0;
    for (auto& o : hist) { if (o.w == -1) m->unincorporate(pairs[o.pair]); else m->incorporate(pairs[o.pair], o.w); n += o.w; }
    ++S.states;
    B b = look(*m);
    auto bad = [&](const std::string& w) { violation("E01:sometimes_categorical", w, tr); };
    if (!close(b.n, n) || !close(m->bb.N, n)) bad("held count " + num(b.n) + ", " + num(m->bb.N) + " error decisions, " + num(n) + " pairs held");
    double tot = 0, dirty = 0;
    for (auto& [h, c] : held) if (pairs[h.first].first != pairs[h.first].second) dirty += c * h.second;
    for (auto& r : b.c) for (double x : r) { tot += x; if (!(x >= -1e-9)) bad("confusion count " + num(x)); }
    if (!close(tot, b.s, 1e-7) || !(b.s >= dirty - 1e-9) || !(b.s <= n + 1e-9)) bad(num(b.s) + " errors, " + num(tot) + " confusion counts, " + num(n) + " pairs of which " + num(dirty) + " changed");
    for (double x : b.lp) if (!(x <= 1e-9 && x > -1e9)) bad("log probability " + num(x));
    if (!std::isfinite(b.score)) bad("score " + num(b.score));
    if (n == 0) { std::string d = cmp(b, empty); if (!d.empty()) bad("after removing everything: " + d + " (a fresh model)"); }
    // adding and removing at once undoes itself
    for (auto& p : pairs) for (double w : ws) {
      ++S.transitions;
      m->incorporate(p, w);
      if (w == 1) m->unincorporate(p); else m->incorporate(p, -w);
      std::string d = cmp(look(*m), b);
      if (!d.empty()) { bad("then adding and removing " + showp(p) + "*" + num(w) + ": " + d); break; }
    }
    if (!left) { ++S.traces; return; }
    for (int i = 0; i < int(pairs.size()); ++i) for (double w : ws) {
      hist.push_back({i, w}); ++held[{i, w}];
      go(left - 1);
      hist.pop_back(); --held[{i, w}];
      if (held[{i, w}] > 0) {
        hist.push_back({i, -w}); --held[{i, w}];
        go(left - 1);
        hist.pop_back(); ++held[{i, w}];
      }
    }
  };
  go((weighted ? 4 : 6) + level());
  // hyperparameters move between adding and removing
  for (double al : {0.2, 5.0}) for (double alpha : {1e-4, 100.0}) for (int mask = 1; mask < 32; ++mask) for (int rev = 0; rev < 2; ++rev) {
    auto m = make();
    std::vector<int> in;
    for (int i = 0; i < 5; ++i) if (mask >> i & 1) { in.push_back(i); in.push_back(i); }
    for (int i : in) m->incorporate(pairs[i]);
    m->bb.alpha = al; m->bb.beta = 3;
    auto& e = dynamic_cast<CategoricalEmission*>(m->be)->emission_dists;
    for (auto& d : e) d.alpha = alpha;
    if (rev) std::reverse(in.begin(), in.end());
    for (int i : in) {
      m->unincorporate(pairs[i]);
      ++S.transitions;
      for (auto& d : e) for (double x : d.counts) if (!(x >= -1e-9)) { violation("E01:sometimes_categorical", "confusion count " + num(x), "added mask " + str(mask) + " twice, hyperparameters changed to " + num(al) + ", " + num(alpha) + ", removing"); return; }
    }
    double left = std::abs(m->bb.s) + std::abs(m->bb.N) + std::abs(m->N);
    for (auto& d : e) for (double x : d.counts) left += std::abs(x);
    if (left > 1e-7) { violation("E01:sometimes_categorical", "evidence left behind after removing everything: " + num(left), "added mask " + str(mask) + " twice, hyperparameters changed, removed"); return; }
  }
  sample("sometimes_categorical: all histories of adding and removing pairs, with an add-and-undo probe in each state");
}
template <class T> std::vector<typename EFam<T>::Data> estates(const EFam<T>& f, int depth) {
  std::vector<typename EFam<T>::Data> out = {{}};
  std::set<std::string> seen = {showd<T>({})};
  size_t b = 0;
  for (int i = 0; i < depth; ++i) {
    size_t e = out.size();
    for (; b < e; ++b)
      for (auto& p : f.pairs) {
        auto d = out[b];
        d[p] += 1;
        if (seen.insert(showd<T>(d)).second) out.push_back(d);
      }
  }
  typename EFam<T>::Data big;
  int i = 0;
  for (auto& p : f.pairs) big[p] = 2 + 3 * (i++ % 4);
  out.push_back(big);
  return out;
}

// ---- E02 -------------------------------------------------------------------------
template <class T> void e02_discrete(const EFam<T>& f) {
  for (auto& h : f.hypers)
    for (auto& data : estates(f, 2))
      for (T clean : f.cleans) {
        if (too_many()) return;
        std::string tr = f.name + "[hypers=" + hs(h) + "] given " + showd<T>(data) + " clean " + show(clean);
        at(tr);
        ++S.states;
        auto e = efresh(f, h, data);
        Obs before = eobs(f, *e);
        std::map<std::string, double> law, got;
        if constexpr (std::is_same_v<T, bool>) { if (f.name == "bitflip") law[show(!clean)] = 1; }
        if (f.name == "bitflip") {}
        else if (f.name.substr(0, 8) == "identity") law[show(clean)] = 1;
        else {
          double tot = 0;
          for (T d : f.dirties) { double p = std::exp(e->logp({clean, d})); law[show(d)] = p; tot += p; if (p > 1 + 1e-9) violation("E02:" + f.name + ":above-one", show(d) + " has probability " + num(p), tr); }
          if (!close(tot, 1)) violation("E02:" + f.name + ":not-normalised", "probabilities of all dirty values sum to " + num(tot), tr);
        }
        T r{};
        std::unique_ptr<Emission<T>> s;
        std::string err = guarded([&] {
          enumerate(Opts(), [&] { s = efresh(f, h, data); r = s->sample_corrupted(clean, nullptr_prng()); },
            [&](const Exec& x) {
              ++S.transitions;
              got[show(r)] += x.prob;
              std::string df = diff(eobs(f, *s), before, f.tol);
              if (!df.empty()) violation("E02:" + f.name + ":sampling-changes-state", df, tr);
            });
        });
        std::string why;
        if (!err.empty()) violation("E02:" + f.name + ":error", err, tr);
        else if (!same_dist(got, law, 1e-9, &why)) violation("E02:" + f.name + ":sampling-law", "corrupted with " + why, tr);
      }
  sample(f.name + ": every state of <= 2 pairs (and a loaded one), every clean value, every outcome");
}
static void e02_gauss(EFam<double> f, bool sometimes) {
  for (auto& h : f.hypers)
    for (auto& data : estates(f, 2))
      for (double clean : f.cleans) {
        if (too_many()) return;
        std::string tr = f.name + "[hypers=" + hs(h) + "] given " + showd<double>(data) + " clean " + num(clean);
        at(tr);
        ++S.states;
        auto e = efresh(f, h, data);
        Obs before = eobs(f, *e);
        double p_same = sometimes ? std::exp(e->logp({clean, clean})) : 0;
        Opts o; o.quantiles = 401;
        double r = 0, same = 0;
        std::vector<std::pair<double, double>> pts;
        std::unique_ptr<Emission<double>> s;
        std::string err = guarded([&] {
          enumerate(o, [&] { s = efresh(f, h, data); r = s->sample_corrupted(clean, nullptr_prng()); },
            [&](const Exec& x) {
              ++S.transitions;
              // the median quantile of a symmetric noise also equals clean
              if (r == clean && !x.continuous) same += x.prob; else pts.push_back({r, x.prob});
              std::string df = diff(eobs(f, *s), before, f.tol);
              if (!df.empty()) violation("E02:" + f.name + ":sampling-changes-state", df, tr);
            });
        });
        if (!err.empty()) { violation("E02:" + f.name + ":error", err, tr); continue; }
        if (sometimes && !close(same, p_same)) violation("E02:" + f.name + ":sampling-law", "left unchanged with probability " + num(same) + " but reports " + num(p_same), tr);
        // cdf of the noisy part, by integrating the reported density
        std::sort(pts.begin(), pts.end());
        double acc = 0, cdf = 0, x = clean, worst = 0, worst2 = 0, wx = 0;
        std::vector<double> xs, cs;
        const int n = 8000; const double TT = 45, dt = 2 * TT / n;
        for (int i = 0; i <= n; ++i) {
          double t = -TT + i * dt; x = clean + std::sinh(t + 1e-9) * 0.5;
          double g = std::exp(e->logp({clean, x})) * 0.5 * std::cosh(t) * dt;
          cdf += g; xs.push_back(x); cs.push_back(cdf - g / 2);
        }
        if (!close(cdf + p_same, 1, 5e-4)) violation("E02:" + f.name + ":not-normalised", "reported probabilities integrate to " + num(cdf + p_same), tr);
        double nn = 0, ss = 0;
        for (auto& [p, w] : data) if (!sometimes || p.first != p.second) { nn += w; ss += w * (p.second - p.first) * (p.second - p.first); }
        double an = h[0] + nn / 2, sc = std::sqrt((h[1] + ss) / an);
        size_t j = 0;
        for (auto& [v, p] : pts) {
          while (j + 1 < xs.size() && xs[j + 1] <= v) ++j;
          double c = cs[j];
          if (j + 1 < xs.size()) c += (cs[j + 1] - cs[j]) * (v - xs[j]) / (xs[j + 1] - xs[j]);
          double d = std::fabs(acc + p / 2 - c);
          if (d > worst) { worst = d; wx = v; }
          worst2 = std::max(worst2, std::fabs(acc + p / 2 - (1 - p_same) * boost::math::cdf(boost::math::students_t(2 * an), (v - clean) / sc)));
          acc += p;
        }
        if (worst > 0.02)
          violation("E02:" + f.name + (worst2 < 0.01 ? ":sampling-law-doubled-sum-of-squares" : ":sampling-law"), "P(dirty <= " + num(wx) + ") differs from the reported law by " + num(worst), tr);
      }
}
// exact law of the context-free generative process, up to length L
static std::map<str_t, double> simple_law(const str_t& clean, double ps, double pi, double pd, str_t alphabet, size_t L) {
  std::map<str_t, double> cur = {{"", 1.0}};
  double u = 1.0 / alphabet.size();
  auto insert_loop = [&](std::map<str_t, double> m) {
    std::map<str_t, double> out, cur2 = m;
    for (size_t k = 0; k <= L; ++k) {
      std::map<str_t, double> nx;
      for (auto& [s, p] : cur2) {
        out[s] += p * (1 - pi);
        if (s.size() < L) for (char c : alphabet) nx[s + c] += p * pi * u;
      }
      cur2 = nx;
    }
    return out;
  };
  for (char ch : clean) {
    auto m = insert_loop(cur);
    std::map<str_t, double> nx;
    for (auto& [s, p] : m) {
      nx[s] += p * pd;
      if (s.size() < L) {
        nx[s + ch] += p * (1 - pd) * (1 - ps);
        for (char c : alphabet) nx[s + c] += p * (1 - pd) * ps * u;
      }
    }
    cur = nx;
  }
  return insert_loop(cur);
}
static void e02_simple() {
  auto f = e_simple_string();
  auto sts = estates(f, 1);
  for (auto& h : f.hypers)
    for (auto& data : sts)
      for (str_t clean : f.cleans) {
        if (too_many()) return;
        std::string tr = f.name + "[alphabet ab, hypers=" + hs(h) + "] given " + showd<str_t>(data) + " clean " + show(clean);
        at(tr);
        ++S.states;
        auto e = efresh(f, h, data);
        auto& ss = dynamic_cast<SimpleStringEmission&>(*e);
        Obs before = eobs(f, *e);
        auto law = simple_law(clean, std::exp(ss.substitutions.logp(true)), std::exp(ss.insertions.logp(true)), std::exp(ss.deletions.logp(true)), "ab", clean.size() + 4);
        std::map<str_t, double> got;
        double reached = 0;
        str_t r;
        std::unique_ptr<Emission<str_t>> s;
        Opts o; o.min_exec_p = pick(2e-5, 2e-6, 2e-7); o.horizon = 60;
        std::string err = guarded([&] {
          enumerate(o, [&] { s = efresh(f, h, data); r = s->sample_corrupted(clean, nullptr_prng()); },
            [&](const Exec& x) {
              ++S.transitions;
              got[r] += x.prob; reached += x.prob;
              for (char c : r) if (c < 'a' || c > 'b') violation("E02:simple_string:alphabet", "emitted character code " + std::to_string(int((unsigned char)c)) + " outside the alphabet", tr + " " + x.str());
            });
        });
        if (!err.empty()) { violation("E02:simple_string:error", err, tr); continue; }
        std::string df = diff(eobs(f, *s), before, f.tol);
        if (!df.empty()) violation("E02:simple_string:sampling-changes-state", df, tr);
        double slack = 1 - reached;
        for (auto& [k, p] : got) {
          if (k.size() > clean.size() + 4) continue;
          if (p > law[k] + 1e-9) violation("E02:simple_string:sampling-law", "corrupted to " + show(k) + " with probability at least " + num(p) + ", the error rates imply " + num(law[k]), tr);
        }
        for (auto& [k, p] : law)
          if (p - got[k] > slack + 1e-9) violation("E02:simple_string:sampling-law", "corrupted to " + show(k) + " with probability at most " + num(got[k] + slack) + ", the error rates imply " + num(p), tr);
        count("unreached-mass-ppm-max", 0);
        S.exhaustive = false;
        // no outcome is reported as more than certain
        for (auto& d : strings_upto('a', 'b', 3)) {
          double lp = e->logp({clean, d});
          if (lp > 1e-9) {
            // known finding: random characters are rewarded instead of charged
            auto q = efresh(f, h, data);
            auto& qs = dynamic_cast<SimpleStringEmission&>(*q);
            double e0 = qs.substitutions.s + qs.insertions.s;
            q->incorporate({clean, d});
            double edits = qs.substitutions.s + qs.insertions.s - e0;
            double fixed = lp - 2 * edits * std::log(2.0);
            violation(edits > 0 && fixed <= 1e-9 ? "E02:simple_string:above-one-random-character-sign" : "E02:simple_string:above-one", show(d) + " has log probability " + num(lp), tr);
          }
        }
      }
  cap("simple_string: executions of probability >= 2e-5");
}
// the real alphabet: every single character that one insertion or substitution can produce
static void e02_simple_chars() {
  for (str_t clean : {"", "x"}) {
    SimpleStringEmission e;
    std::set<int> chars;
    Opts o; o.max_dev = 2;
    str_t r;
    o.horizon = 12;
    enumerate(o, [&] { SimpleStringEmission q; q.insertions.incorporate(0, 3); q.deletions.incorporate(0, 3); q.substitutions.incorporate(0, 3); r = q.sample_corrupted(clean, nullptr_prng()); },
      [&](const Exec& x) {
        ++S.transitions; ++S.states;
        for (char c : r) {
          chars.insert((unsigned char)c);
          if (c < ' ' || c > '~') violation("E02:simple_string:alphabet", "emitted character code " + std::to_string(int((unsigned char)c)), "default alphabet, clean " + show(clean) + " " + x.str());
        }
      });
    for (int c = ' '; c <= '~'; ++c) if (!chars.count(c)) violation("E02:simple_string:alphabet-missing", "character " + std::to_string(c) + " is never emitted", "clean " + show(clean));
  }
}

// no outcome is reported as more than certain (default alphabet)
static void e02_simple_certain() {
  auto strs = strings_upto('a', 'b', 2);
  std::vector<std::pair<str_t, str_t>> pairs;
  for (auto& c : strs) for (auto& d : strs) pairs.push_back({c, d});
  for (int t = -1; t < int(pairs.size()); ++t)
    for (auto& q : pairs) {
      SimpleStringEmission e;
      if (t >= 0) e.incorporate(pairs[t]);
      std::string tr = "simple_string, default alphabet, given " + (t < 0 ? std::string("nothing") : showp(pairs[t])) + " asked " + showp(q);
      at(tr);
      ++S.states; ++S.transitions;
      double lp = e.logp(q), e0 = e.substitutions.s + e.insertions.s;
      e.incorporate(q);
      double edits = e.substitutions.s + e.insertions.s - e0;
      if (lp > 1e-9) {
        // known finding: random characters are rewarded instead of charged
        bool sign = edits > 0 && lp - 2 * edits * std::log(95.0) <= 1e-9;
        violation(sign ? "E02:simple_string:above-one-random-character-sign" : "E02:simple_string:above-one", "log probability " + num(lp), tr);
        if (too_many()) return;
      }
    }
}

// ---- E03 -------------------------------------------------------------------------
template <class T> void lists(const std::vector<T>& vals, int maxlen, std::function<void(const std::vector<T>&)> f) {
  for (int n = 1; n <= maxlen; ++n) {
    std::vector<size_t> ix(n, 0);
    for (;;) {
      std::vector<T> v;
      for (auto i : ix) v.push_back(vals[i]);
      f(v);
      int j = 0;
      while (j < n && ++ix[j] == vals.size()) ix[j++] = 0;
      if (j == n) break;
    }
  }
}
template <class T> std::string showl(const std::vector<T>& v) { std::string s = "["; for (T x : v) s += show(x) + ","; return s + "]"; }
template <class T> void e03(const EFam<T>& f, std::vector<T> vals, int maxlen) {
  for (auto& h : f.hypers)
    for (auto& data : estates(f, f.name.find("categorical") != std::string::npos ? 2 : 1)) {
      auto base = efresh(f, h, data);
      Obs before = eobs(f, *base);
      lists<T>(vals, maxlen, [&](const std::vector<T>& ev) {
        if (too_many()) return;
        std::string tr = f.name + "[hypers=" + hs(h) + "] given " + showd<T>(data) + " evidence " + showl(ev);
        at(tr);
        ++S.states;
        T r{};
        std::string err = guarded([&] {
          enumerate(Opts(), [&] { r = base->propose_clean(ev, nullptr_prng()); }, [&](const Exec& x) {
            ++S.transitions;
            bool all = std::all_of(ev.begin(), ev.end(), [&](const T& e) { return e == ev[0]; });
            T e0 = ev[0];
            if (f.name == "bitflip") {
              if constexpr (std::is_same_v<T, bool>) if (all && r == e0) violation("E03:bitflip:flip", "proposed " + show(r), tr);
            } else if (f.name.substr(0, 11) == "categorical") {
              if constexpr (std::is_same_v<T, int>) {
                double best = -INFINITY, got = 0;
                for (T c : f.cleans) { double l = 0; for (T e : ev) l += base->logp({c, e}); best = std::max(best, l); if (c == r) got = l; }
                if (r < 0 || r >= int(f.cleans.size())) violation("E03:" + f.name + ":illegal", "proposed " + show(r), tr);
                else if (!close(got, best)) violation("E03:" + f.name + ":not-best", "proposed " + show(r) + " with log likelihood " + num(got) + ", the best has " + num(best), tr);
              }
            } else if (f.name == "gaussian") {
              if constexpr (std::is_same_v<T, double>) {
                double m = 0;
                for (T e : ev) m += e;
                if (!close(r, m / ev.size(), 1e-10)) violation("E03:gaussian:mean", "proposed " + num(r) + ", the mean is " + num(m / ev.size()), tr);
              }
            } else if (all && !(r == e0)) {
              violation("E03:" + f.name + ":unanimous", "proposed " + show(r), tr);
            }
            if (f.name.substr(0, 9) == "sometimes" || f.name == "simple_string") {
              // voting
              for (T v : ev) {
                size_t c = std::count(ev.begin(), ev.end(), v);
                if (2 * c > ev.size() && !(r == v)) violation("E03:" + f.name + ":majority", "proposed " + show(r) + " although " + show(v) + " has a strict majority", tr);
              }
              if (f.name != "simple_string") {
                size_t mx = 0;
                for (T v : ev) mx = std::max<size_t>(mx, std::count(ev.begin(), ev.end(), v));
                if (size_t(std::count(ev.begin(), ev.end(), r)) != mx) violation("E03:" + f.name + ":not-a-mode", "proposed " + show(r), tr);
              }
            }
          });
        });
        if (!err.empty()) violation("E03:" + f.name + ":error", err, tr);
        std::string df = diff(eobs(f, *base), before, f.tol);
        if (!df.empty()) violation("E03:" + f.name + ":changes-state", df, tr);
      });
    }
  sample(f.name + ": all evidence lists of length <= " + std::to_string(maxlen) + " over " + std::to_string(vals.size()) + " values");
}

// ---- A01 ---------------------------------------------------------------------------
struct Al { double cost; std::string key; };
typedef std::function<double(const AlignPiece&, size_t, size_t)> StepCost;  // piece, positions before it
static std::string piece_key(const AlignPiece& p) {
  switch (p.index()) {
    case 0: return std::string("D") + std::get<Deletion>(p).deleted_char;
    case 1: return std::string("I") + std::get<Insertion>(p).inserted_char;
    case 2: return std::string("S") + std::get<Substitution>(p).original + std::get<Substitution>(p).replacement;
    default: return std::string("M") + std::get<Match>(p).c;
  }
}
static void all_alignments(const str_t& a, const str_t& b, const StepCost& c, std::vector<Al>* out) {
  std::function<void(size_t, size_t, double, std::string)> go = [&](size_t i, size_t j, double cost, std::string k) {
    if (i == a.size() && j == b.size()) { out->push_back({cost, k}); return; }
    if (i < a.size()) { AlignPiece p = Deletion{a[i]}; go(i + 1, j, cost + c(p, i, j), k + piece_key(p)); }
    if (j < b.size()) { AlignPiece p = Insertion{b[j]}; go(i, j + 1, cost + c(p, i, j), k + piece_key(p)); }
    if (i < a.size() && j < b.size()) {
      AlignPiece p;
      if (a[i] == b[j]) p = Match{a[i]}; else p = Substitution{a[i], b[j]};
      go(i + 1, j + 1, cost + c(p, i, j), k + piece_key(p));
    }
  };
  go(0, 0, 0, "");
  std::sort(out->begin(), out->end(), [](const Al& x, const Al& y) { return x.cost < y.cost; });
}
static void a01(const std::string& name, StepCost c) {
  auto strs = strings_upto('a', 'b', pick(3, 5, 6));
  std::vector<std::pair<str_t, str_t>> pairs;
  for (auto& a : strs) for (auto& b : strs) pairs.push_back({a, b});
  for (auto p : std::vector<std::pair<str_t, str_t>>{{"abcd", "badc"}, {"aaaaa", "aa"}, {"abab", "baba"}, {"hello", "yello"}}) pairs.push_back(p);
  for (auto& [a, b] : pairs) {
    std::vector<Al> all;
    all_alignments(a, b, c, &all);
    std::set<std::string> keys;
    for (auto& x : all) keys.insert(x.key);
    for (int k : {0, 1, 2, 3, 5, 10, 30}) {
      if (too_many()) return;
      std::string tr = "cost " + name + ", k=" + std::to_string(k) + " " + show(a) + " -> " + show(b);
      at(tr);
      ++S.transitions;
      std::vector<StrAlignment> got;
      std::string err = guarded([&] {
        topk_alignments(k, a, b, [&](const StrAlignment& s, double old) {
          const AlignPiece& p = s.align_pieces.back();
          size_t i = s.s1_position - (p.index() != 1), j = s.s2_position - (p.index() != 0);
          return old + c(p, i, j);
        }, &got);
      });
      if (!err.empty()) { violation("A01:error", err, tr); continue; }
      size_t want = std::min<size_t>(k, all.size());
      if (got.size() != want) { violation("A01:count", std::to_string(got.size()) + " alignments, expected " + std::to_string(want), tr); continue; }
      std::set<std::string> seen;
      double last = -1;
      for (size_t n = 0; n < got.size(); ++n) {
        auto& g = got[n];
        std::string key;
        str_t s1, s2;
        double cost = 0;
        for (auto& p : g.align_pieces) {
          cost += c(p, s1.size(), s2.size());
          key += piece_key(p);
          if (p.index() == 0) s1 += std::get<Deletion>(p).deleted_char;
          if (p.index() == 1) s2 += std::get<Insertion>(p).inserted_char;
          if (p.index() == 2) { s1 += std::get<Substitution>(p).original; s2 += std::get<Substitution>(p).replacement; if (s1.back() == s2.back()) violation("A01:piece", "a substitution of a character by itself", tr); }
          if (p.index() == 3) { s1 += std::get<Match>(p).c; s2 += std::get<Match>(p).c; }
        }
        if (s1 != a || s2 != b) violation("A01:incomplete", "alignment " + key + " spells " + show(s1) + " -> " + show(s2), tr);
        if (g.s1_position != a.size() || g.s2_position != b.size()) violation("A01:positions", "end positions are not the string lengths", tr);
        if (!seen.insert(key).second) violation("A01:duplicate", "alignment " + key + " returned twice", tr);
        if (!close(g.cost, cost, 1e-9)) violation("A01:cost", "alignment " + key + " carries cost " + num(g.cost) + ", its pieces cost " + num(cost), tr);
        if (g.cost < last - 1e-9) violation("A01:order", "costs decrease", tr);
        last = g.cost;
        if (!close(g.cost, all[n].cost, 1e-9)) violation("A01:not-cheapest", "alignment number " + std::to_string(n) + " costs " + num(g.cost) + ", the " + std::to_string(n) + "-th cheapest costs " + num(all[n].cost), tr);
      }
    }
    ++S.states;
  }
  sample("cost " + name + ": every pair of strings over {a,b} up to length " + std::to_string(pick(3, 5, 6)) + ", k in {0,1,2,3,5,10,30}");
}

// ---- E04 ------------------------------------------------------------------------------
struct Tables { std::vector<std::vector<double>> ins, sub; double N; };
static Tables tables(const BigramStringEmission& b) {
  Tables t;
  for (auto& d : b.insertions) t.ins.push_back(d.counts);
  for (auto& d : b.substitutions) t.sub.push_back(d.counts);
  t.N = b.N;
  return t;
}
static double tlp(const std::vector<DirichletCategorical>& d, int i, int x) {
  double n = 0;
  for (double c : d[i].counts) n += c;
  return std::log((d[i].counts[x] + d[i].alpha) / (n + d[i].alpha * d[i].counts.size()));
}
static int ix(char c) { return c - ' ' + 1; }
static StepCost ctx_cost(const BigramStringEmission& b, const str_t& clean) {
  return [&b, clean](const AlignPiece& p, size_t i, size_t) {
    int ctx = i == 0 ? 0 : ix(clean[i - 1]);
    switch (p.index()) {
      case 0: return -(tlp(b.insertions, ctx, 0) + tlp(b.substitutions, ix(std::get<Deletion>(p).deleted_char), 0));
      case 1: return -tlp(b.insertions, ctx, ix(std::get<Insertion>(p).inserted_char));
      case 2: return -(tlp(b.insertions, ctx, 0) + tlp(b.substitutions, ix(std::get<Substitution>(p).original), ix(std::get<Substitution>(p).replacement)));
      default: return -(tlp(b.insertions, ctx, 0) + tlp(b.substitutions, ix(std::get<Match>(p).c), ix(std::get<Match>(p).c)));
    }
  };
}
static std::string tdiff(const Tables& a, const Tables& b) {
  for (size_t i = 0; i < a.ins.size(); ++i)
    for (size_t j = 0; j < a.ins[i].size(); ++j) {
      if (!close(a.ins[i][j], b.ins[i][j], 1e-7)) return "insertion table [" + std::to_string(i) + "][" + std::to_string(j) + "] " + num(a.ins[i][j]) + " vs expected " + num(b.ins[i][j]);
      if (!close(a.sub[i][j], b.sub[i][j], 1e-7)) return "substitution table [" + std::to_string(i) + "][" + std::to_string(j) + "] " + num(a.sub[i][j]) + " vs expected " + num(b.sub[i][j]);
    }
  return "";
}
typedef std::vector<std::tuple<str_t, str_t, double>> Train;
static std::vector<Train> trainings() {
  return {{}, {{"ab", "ab", 1}}, {{"ab", "axb", 3000}}, {{"ab", "b", 5000}, {"ba", "ca", 2000}}, {{"aa", "aab", 9000}, {"b", "", 100}}};
}
static void e04_incorporate() {
  auto strs = strings_upto('a', 'b', 2);
  strs.push_back("abc"); strs.push_back("axb"); strs.push_back("cab"); strs.push_back("aab");
  for (auto& tr0 : trainings())
    for (auto& c : strs) for (auto& d : strs) for (double w : {1.0, 2.5}) {
      if (too_many()) return;
      if (w != 1 && (c.size() > 2 || d.size() > 2)) continue;
      std::string tr = "context string model trained on " + std::to_string(tr0.size()) + " pairs";
      for (auto& [x, y, z] : tr0) tr += " " + show(x) + "->" + show(y) + "*" + num(z);
      tr += "; add " + show(c) + "->" + show(d) + " weight " + num(w);
      at(tr);
      BigramStringEmission b;
      for (auto& [x, y, z] : tr0) b.incorporate({x, y}, z);
      Tables want = tables(b);
      std::vector<Al> all;
      auto cost = ctx_cost(b, c);
      all_alignments(c, d, cost, &all);
      ++S.states; ++S.transitions;
      double lp0 = c.empty() && d.empty() ? 0 : b.logp({c, d});
      // every alignment strictly cheaper than the k-th has a determined share; ties at the border are free
      size_t k = std::min<size_t>(2, all.size());
      std::vector<std::vector<Al>> choices;
      if (all.size() <= 2) choices.push_back(all);
      else {
        // all sets of k cheapest up to ties
        double c1 = all[0].cost, c2 = all[1].cost;
        std::vector<size_t> t1, t2;
        for (size_t i = 0; i < all.size(); ++i) { if (all[i].cost < c2 - 1e-9) t1.push_back(i); else if (all[i].cost < c2 + 1e-9) t2.push_back(i); }
        if (t1.size() == 1) for (size_t i : t2) choices.push_back({all[t1[0]], all[i]});
        else for (size_t i = 0; i < t2.size(); ++i) for (size_t j = i + 1; j < t2.size(); ++j) choices.push_back({all[t2[i]], all[t2[j]]});
        (void)c1;
      }
      b.incorporate({c, d}, w);
      Tables got = tables(b);
      std::string why = "?";
      bool ok = false;
      for (auto& ch : choices) {
        Tables x = want;
        double z = 0, m = ch.empty() ? 0 : ch[0].cost;
        for (auto& al : ch) z += std::exp(m - al.cost);
        for (auto& al : ch) {
          double share = w * std::exp(m - al.cost) / z;
          // replay the pieces from the key
          int ctx = 0;
          for (size_t q = 0; q < al.key.size();) {
            char t = al.key[q];
            if (t == 'D') { x.ins[ctx][0] += share; x.sub[ix(al.key[q + 1])][0] += share; ctx = ix(al.key[q + 1]); q += 2; }
            else if (t == 'I') { x.ins[ctx][ix(al.key[q + 1])] += share; q += 2; }
            else if (t == 'S') { x.ins[ctx][0] += share; x.sub[ix(al.key[q + 1])][ix(al.key[q + 2])] += share; ctx = ix(al.key[q + 1]); q += 3; }
            else { x.ins[ctx][0] += share; x.sub[ix(al.key[q + 1])][ix(al.key[q + 1])] += share; ctx = ix(al.key[q + 1]); q += 2; }
          }
        }
        why = tdiff(got, x);
        if (why.empty()) { ok = true; break; }
      }
      if (!ok) violation("E04:incorporate", why + " (2 best alignments of " + std::to_string(all.size()) + " weighted by their probability)", tr);
      if (!close(got.N, want.N + w)) violation("E04:count", "held count " + num(got.N), tr);
      if (!(c.empty() && d.empty()) && w == 1) {
        double lp1 = b.logp({c, d});
        if (!(lp1 >= lp0 - 1e-9)) violation("E04:learning", "log probability fell from " + num(lp0) + " to " + num(lp1) + " after learning the pair", tr);
        std::string x = tdiff(tables(b), got);
        if (!x.empty()) violation("E04:query-changes-state", x, tr);
      }
    }
  sample("5 trained tables x all string pairs: table increments equal the two best alignments' shares");
}
// every legal sequence of adds and removes: no count becomes negative, every
// probability stays a probability
static void e04_removal() {
  auto strs = strings_upto('a', 'b', 2);
  strs.erase(strs.begin());
  strs.push_back("aab");
  std::vector<std::pair<str_t, str_t>> pairs;
  for (auto& c : strs) for (auto& d : strs) if (c.size() + d.size() <= (thorough() ? 5u : 4u)) pairs.push_back({c, d});
  int depth = thorough() ? 3 : 2;
  std::vector<int> hist;
  std::function<void()> go = [&] {
    if (too_many()) return;
    if (int(hist.size()) == depth) {
      // removed in every order, with a probe after each step
      std::vector<int> order(depth);
      for (int i = 0; i < depth; ++i) order[i] = i;
      do {
        for (double w : {1.0, 0.5}) {
          BigramStringEmission b;
          std::string tr = "context string model:";
          auto probe = [&] {
            Tables t = tables(b);
            ++S.states;
            for (auto* m : {&t.ins, &t.sub}) for (size_t i = 0; i < m->size(); ++i) for (size_t j = 0; j < (*m)[i].size(); ++j)
              if (!((*m)[i][j] >= -1e-9)) { violation("E04:removal", std::string(m == &t.ins ? "insertions" : "substitutions") + "[" + str(int(i)) + "][" + str(int(j)) + "] = " + num((*m)[i][j]), tr); return false; }
            for (auto& p : {std::pair<str_t, str_t>{"a", "b"}, {"ab", "a"}, {"b", "ab"}}) {
              double lp = b.logp(p);
              if (!(lp <= 1e-9 && lp > -1e6)) { violation("E04:removal", "log probability of " + show(p.first) + "->" + show(p.second) + " is " + num(lp), tr); return false; }
            }
            return true;
          };
          bool ok = true;
          at(tr);
          for (int i : hist) { b.incorporate(pairs[i], w); tr += " add " + show(pairs[i].first) + "->" + show(pairs[i].second) + "*" + num(w); ++S.transitions; }
          for (int k : order) {
            if (!ok) break;
            auto& p = pairs[hist[k]];
            tr += " remove " + show(p.first) + "->" + show(p.second);
            at(tr);
            if (w == 1) b.unincorporate(p); else b.incorporate(p, -w);
            ++S.transitions;
            ok = probe();
          }
          if (ok && !close(b.N, 0)) violation("E04:removal", "held count " + num(b.N) + " after removing everything", tr);
          ++S.traces;
        }
      } while (std::next_permutation(order.begin(), order.end()));
      return;
    }
    for (int i = hist.empty() ? 0 : hist.back(); i < int(pairs.size()); ++i) { hist.push_back(i); go(); hist.pop_back(); }
  };
  go();
  sample("all multisets of " + str(depth) + " pairs, removed in every order");
}
// the score is the log probability of the evidence held given the initial
// expectation that strings are copied faithfully
static void e04_score() {
  for (double alpha : {1e-4, 0.1, 1.0, 100.0, 10000.0})
    for (auto& tr0 : trainings()) {
      std::string tr = "context string model, concentration " + num(alpha) + ", trained on";
      for (auto& [x, y, z] : tr0) tr += " " + show(x) + "->" + show(y) + "*" + num(z);
      at(tr);
      BigramStringEmission fresh_one, b;
      for (auto* m : {&fresh_one, &b}) {
        for (auto& d : m->insertions) d.alpha = alpha;
        for (auto& d : m->substitutions) d.alpha = alpha;
      }
      for (auto& [x, y, z] : tr0) b.incorporate({x, y}, z);
      double want = 0;
      for (bool ins : {true, false})
        for (size_t c = 0; c < b.insertions.size(); ++c) {
          auto& d0 = (ins ? fresh_one.insertions : fresh_one.substitutions)[c].counts;
          auto& d1 = (ins ? b.insertions : b.substitutions)[c].counts;
          double n0 = 0, n1 = 0, a = alpha * d0.size();
          for (size_t i = 0; i < d0.size(); ++i) {
            n0 += d0[i]; n1 += d1[i];
            if (d1[i] != d0[i]) want += lg(alpha + d1[i]) - lg(alpha + d0[i]);
          }
          want -= lg(a + n1) - lg(a + n0);
        }
      double got = b.logp_score();
      ++S.states;
      if (!close(got, want, 1e-4)) violation("E04:score", "score " + num(got) + ", the evidence has log probability " + num(want), tr);
      if (!close(fresh_one.logp_score(), 0, 1e-4)) violation("E04:score", "score of no evidence " + num(fresh_one.logp_score()), tr);
      for (auto& p : {std::pair<str_t, str_t>{"a", "b"}, {"ab", "ab"}, {"b", "ab"}, {"abc", ""}}) {
        double lp = b.logp(p);
        BigramStringEmission c(b);
        c.incorporate(p);
        ++S.transitions;
        if (!close(lp, c.logp_score() - got, 1e-4)) violation("E04:score", "predictive " + num(lp) + ", the score grows by " + num(c.logp_score() - got), tr + " add " + showp(p));
      }
    }
  sample("5 trained tables x 5 concentrations: score against the closed form");
}
static void e04_sample(const std::string& P) {
  // P: under which property (E02 speaks of all noise models)
  for (auto& tr0 : trainings())
    for (str_t clean : {"", "a", "ab", "ba"}) {
      std::string tr = "context string model";
      for (auto& [x, y, z] : tr0) tr += " " + show(x) + "->" + show(y) + "*" + num(z);
      tr += "; corrupt " + show(clean);
      at(tr);
      BigramStringEmission b;
      for (auto& [x, y, z] : tr0) b.incorporate({x, y}, z);
      Tables before = tables(b);
      std::map<str_t, double> got;
      str_t r;
      Opts o; o.min_exec_p = thorough() ? 1e-7 : 1e-5; o.horizon = 40;
      double reached = 0;
      std::string err = guarded([&] {
        enumerate(o, [&] { r = b.sample_corrupted(clean, nullptr_prng()); }, [&](const Exec& x) { ++S.transitions; got[r] += x.prob; reached += x.prob;
          for (char c : r) if (c < ' ' || c > '~') violation(P + ":alphabet", "emitted character code " + std::to_string(int((unsigned char)c)), tr); });
      });
      if (!err.empty()) { violation(P + ":sample-error", err, tr); continue; }
      ++S.states;
      std::string x = tdiff(tables(b), before);
      if (!x.empty()) violation(P + ":sampling-changes-state", x, tr);
      // exact probability of each outcome: sum over generations (position in clean, emitted so far)
      for (auto& [d, p] : got) {
        std::vector<std::vector<double>> dp(clean.size() + 1, std::vector<double>(d.size() + 1, 0.0));
        dp[0][0] = 1;
        for (size_t i = 0; i <= clean.size(); ++i)
          for (size_t j = 0; j <= d.size(); ++j) {
            if (dp[i][j] == 0) continue;
            int ctx = i == 0 ? 0 : ix(clean[i - 1]);
            if (j < d.size()) dp[i][j + 1] += dp[i][j] * std::exp(tlp(b.insertions, ctx, ix(d[j])));
            if (i < clean.size()) {
              double q = dp[i][j] * std::exp(tlp(b.insertions, ctx, 0));
              dp[i + 1][j] += q * std::exp(tlp(b.substitutions, ix(clean[i]), 0));
              if (j < d.size()) dp[i + 1][j + 1] += q * std::exp(tlp(b.substitutions, ix(clean[i]), ix(d[j])));
            }
          }
        double want = dp[clean.size()][d.size()] * std::exp(tlp(b.insertions, clean.empty() ? 0 : ix(clean.back()), 0));
        if (p > want + 1e-9) violation(P + ":sampling-law", "corrupted to " + show(d) + " with probability at least " + num(p) + ", the tables imply " + num(want), tr);
        if (want > 20 * o.min_exec_p && p < want - (1 - reached) - 1e-9) violation(P + ":sampling-law", "corrupted to " + show(d) + " with probability at most " + num(p + 1 - reached) + ", the tables imply " + num(want), tr);
      }
      if (reached < 0.85) cap("only " + num(reached) + " of the outcome mass reached for some cases");
    }
}
static void e04_vote() {
  auto strs = strings_upto('a', 'b', 2);
  strs.push_back("abc"); strs.push_back("axb"); strs.push_back("bca");
  for (auto& tr0 : trainings())
    for (auto& s1 : strs) for (auto& s2 : strs)
      for (auto [w1, w2] : std::vector<std::pair<double, double>>{{1, 1}, {2, 1}, {1, 3}, {1000000, 1}, {1, 1000000}}) {
        if (too_many()) return;
        std::string tr = "context string model";
        for (auto& [x, y, z] : tr0) tr += " " + show(x) + "->" + show(y) + "*" + num(z);
        tr += "; vote " + show(s1) + " weight " + num(w1) + " against " + show(s2) + " weight " + num(w2);
        at(tr);
        BigramStringEmission b;
        for (auto& [x, y, z] : tr0) b.incorporate({x, y}, z);
        Tables before = tables(b);
        str_t r;
        std::string err = guarded([&] { r = b.two_string_vote(s1, s2, w1, w2); });
        ++S.states; ++S.transitions;
        if (!err.empty()) { violation("E04:vote-error", err, tr); continue; }
        if (s1 == s2 && r != s1) violation("E04:vote-unanimous", "voted " + show(r), tr);
        // some cheapest alignment of the two explains the result: matched characters kept,
        // every other piece resolved to one of its two sides
        std::vector<Al> all;
        auto cost = ctx_cost(b, s1);
        all_alignments(s1, s2, cost, &all);
        bool ok = false;
        for (auto& al : all) {
          if (al.cost > all[0].cost + 1e-9) break;
          std::set<str_t> res = {""};
          for (size_t q = 0; q < al.key.size();) {
            std::set<str_t> nx;
            char t = al.key[q];
            for (auto& p : res) {
              if (t == 'M') nx.insert(p + al.key[q + 1]);
              else if (t == 'S') { nx.insert(p + al.key[q + 1]); nx.insert(p + al.key[q + 2]); }
              else { nx.insert(p); nx.insert(p + al.key[q + 1]); }
            }
            res = nx;
            q += t == 'S' ? 3 : 2;
          }
          if (res.count(r)) ok = true;
        }
        if (!ok) violation("E04:vote-keeps-agreement", "voted " + show(r) + ", not obtainable from a best alignment by keeping what both agree on", tr);
        std::string x = tdiff(tables(b), before);
        if (!x.empty()) violation("E04:vote-changes-state", x, tr);
      }
  // a heavy vote wins against a light one, and weights add up over a tournament
  BigramStringEmission b;
  for (int n = 1; n <= 9; ++n) {
    std::vector<str_t> ev(n, "abab");
    str_t r = b.propose_clean(ev, nullptr_prng());
    if (r != "abab") violation("E04:vote-unanimous", "proposed " + show(r), "unanimous list of " + std::to_string(n));
    ++S.transitions;
  }
  // the tournament's rounds: each winner carries the total weight of the strings it stands for
  for (int n = 2; n <= 7; ++n)
    for (int mask = 0; mask < (1 << n); ++mask) {
      std::vector<str_t> ev;
      for (int i = 0; i < n; ++i) ev.push_back(mask >> i & 1 ? "b" : "a");
      std::string tr = "fresh context string model, evidence " + showl(ev);
      at(tr);
      str_t r = b.propose_clean(ev, nullptr_prng());
      // independent tournament with the real pairwise vote
      std::vector<std::pair<str_t, double>> cur;
      for (auto& e : ev) cur.push_back({e, 1.0});
      while (cur.size() > 1) {
        std::vector<std::pair<str_t, double>> nx;
        for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back({b.two_string_vote(cur[i].first, cur[i + 1].first, cur[i].second, cur[i + 1].second), cur[i].second + cur[i + 1].second});
        if (cur.size() % 2) nx.push_back(cur.back());
        cur = nx;
      }
      ++S.states; ++S.transitions;
      if (r != cur[0].first) violation("E04:tournament", "proposed " + show(r) + ", voting with full weights gives " + show(cur[0].first), tr);
    }
}

// ---- D04: noise-model hyperparameters ------------------------------------------------
template <class T> void d04e(const EFam<T>& f, int max_dev) {
  for (auto& data : estates(f, 2))
    for (auto& h : f.hypers) {
      if (too_many()) return;
      std::string tr = f.name + "[hypers=" + hs(h) + "] given " + showd<T>(data);
      at(tr);
      ++S.states;
      std::map<std::string, double> got;
      std::map<std::string, H> hy;
      Opts o; o.max_dev = max_dev;
      std::unique_ptr<Emission<T>> e;
      // the data held do not depend on hyperparameters (except for models with two explanations)
      std::string err = guarded([&] {
        enumerate(o, [&] { e = efresh(f, h, data); e->transition_hyperparameters(nullptr_prng()); },
          [&](const Exec& x) {
            ++S.transitions;
            H n = f.hyp(*e);
            got[hs(n)] += x.prob;
            hy[hs(n)] = n;
            if (f.invertible && hy.size() < 200) {
              std::string df = diff(eobs(f, *e), eobs(f, *efresh(f, n, data)), f.tol);
              if (!df.empty()) violation("D04:" + f.name + ":after-draw", df, tr + " " + x.str());
            }
          });
      });
      if (!err.empty()) { violation("D04:" + f.name + ":error", err, tr); continue; }
      if (!f.ref_score || got.size() < 2) continue;
      // probabilities proportional to the exponentiated score: ratios to the first outcome
      double s0 = 0, p0 = 0;
      bool first = true;
      for (auto& [k, n] : hy) {
        double s = f.ref_score(data, n);
        if (got[k] < 1e-12) continue;
        if (first) { s0 = s; p0 = std::log(got[k]); first = false; }
        if (!close(s - s0, std::log(got[k]) - p0, 1e-6)) violation("D04:" + f.name + ":draw-probability", "settings " + k + " chosen with log odds " + num(std::log(got[k]) - p0) + ", scores differ by " + num(s - s0), tr);
      }
    }
}

// ---- S01 ---------------------------------------------------------------------------
static void s01_spec() {
  struct Case { std::string name; std::map<std::string, std::string> args; ObservationEnum type; std::function<std::string(DistributionVariant&)> check; };
  auto is = [](auto* p) { return p ? "" : "wrong family"; };
  std::vector<Case> cs;
  cs.push_back({"bernoulli", {}, ObservationEnum::bool_type, [&](DistributionVariant& v) -> std::string { return v.index() != 0 ? "wrong value type" : is(dynamic_cast<BetaBernoulli*>(std::get<0>(v))); }});
  cs.push_back({"normal", {}, ObservationEnum::double_type, [&](DistributionVariant& v) -> std::string { return v.index() != 2 ? "wrong value type" : is(dynamic_cast<Normal*>(std::get<2>(v))); }});
  cs.push_back({"skellam", {}, ObservationEnum::int_type, [&](DistributionVariant& v) -> std::string { return v.index() != 1 ? "wrong value type" : is(dynamic_cast<Skellam*>(std::get<1>(v))); }});
  cs.push_back({"string_normal", {}, ObservationEnum::string_type, [&](DistributionVariant& v) -> std::string { return v.index() != 3 ? "wrong value type" : is(dynamic_cast<DistributionAdapter<double>*>(std::get<3>(v))); }});
  cs.push_back({"string_skellam", {}, ObservationEnum::string_type, [&](DistributionVariant& v) -> std::string { return v.index() != 3 ? "wrong value type" : is(dynamic_cast<DistributionAdapter<int>*>(std::get<3>(v))); }});
  for (int k : {1, 2, 5, 17})
    cs.push_back({"categorical", {{"k", std::to_string(k)}}, ObservationEnum::int_type, [k](DistributionVariant& v) -> std::string {
      if (v.index() != 1) return "wrong value type";
      auto* d = dynamic_cast<DirichletCategorical*>(std::get<1>(v));
      return !d ? "wrong family" : int(d->counts.size()) != k ? "has " + std::to_string(d->counts.size()) + " categories" : ""; }});
  for (std::string L : {"", "3", "0", "200"}) {
    std::map<std::string, std::string> a;
    if (!L.empty()) a["maxlength"] = L;
    cs.push_back({"bigram", a, ObservationEnum::string_type, [L](DistributionVariant& v) -> std::string {
      if (v.index() != 3) return "wrong value type";
      auto* d = dynamic_cast<Bigram*>(std::get<3>(v));
      if (!d || dynamic_cast<StringNat*>(d)) return "wrong family";
      size_t want = L.empty() ? 80 : std::stoul(L);
      return d->max_length != want ? "maximum length " + std::to_string(d->max_length) : ""; }});
    cs.push_back({"string_nat", a, ObservationEnum::string_type, [L](DistributionVariant& v) -> std::string {
      if (v.index() != 3) return "wrong value type";
      auto* d = dynamic_cast<StringNat*>(std::get<3>(v));
      if (!d) return "wrong family";
      size_t want = L.empty() ? 20 : std::stoul(L);
      return d->max_length != want ? "maximum length " + std::to_string(d->max_length) : ""; }});
  }
  struct SC { std::map<std::string, std::string> a; std::vector<std::string> want; };
  for (auto& sc : std::vector<SC>{{{{"strings", "yes no maybe"}}, {"yes", "no", "maybe"}}, {{{"strings", "yes:no way"}, {"delim", ":"}}, {"yes", "no way"}}, {{{"strings", "solo"}}, {"solo"}}, {{{"strings", "a|b|c"}, {"delim", "|"}}, {"a", "b", "c"}}})
    cs.push_back({"stringcat", sc.a, ObservationEnum::string_type, [sc](DistributionVariant& v) -> std::string {
      if (v.index() != 3) return "wrong value type";
      auto* d = dynamic_cast<StringCat*>(std::get<3>(v));
      if (!d) return "wrong family";
      if (d->strings != sc.want) return "strings are [" + join(d->strings, "|") + "]";
      return !close(d->logp(sc.want[0]), -std::log(double(sc.want.size()))) ? "wrong support size" : ""; }});
  for (auto& c : cs)
    for (int form = 0; form < 3; ++form) {
      std::string txt = c.name;
      std::map<std::string, std::string> args = c.args;
      if (form) {
        if (args.empty()) continue;
        txt += "(";
        std::vector<std::pair<std::string, std::string>> kv(args.begin(), args.end());
        if (form == 2) std::reverse(kv.begin(), kv.end());
        for (size_t i = 0; i < kv.size(); ++i) txt += (i ? "," : "") + kv[i].first + "=" + kv[i].second;
        txt += ")";
        args.clear();
      }
      std::string tr = "distribution spec " + txt + (args.empty() ? "" : " with separate arguments");
      at(tr);
      ++S.states; ++S.transitions;
      std::string why;
      std::string err = guarded([&] {
        DistributionSpec s = args.empty() ? DistributionSpec(txt) : DistributionSpec(txt, args);
        if (s.observation_type != c.type) why = "declares the wrong value type";
        Greedy g;
        DistributionVariant v = get_prior(s, nullptr_prng());
        if (why.empty()) why = c.check(v);
        std::visit([](auto* p) { delete p; }, v);
      });
      if (!err.empty()) why = err;
      if (!why.empty()) violation("S01:distribution:" + c.name, why, tr);
    }
  for (std::string bad : {"", "bernouli", "Normal", "normal ", "skellam2", "string", "bernoullinormal", "gaussian", "sometimes_bitflip"}) {
    std::string err = guarded([&] { DistributionSpec s(bad); });
    ++S.transitions;
    if (err.empty()) violation("S01:distribution:unknown-accepted", "unknown distribution name accepted", quote(bad));
  }
}
static void s01_emission() {
  struct Case { std::string name; std::map<std::string, std::string> args; ObservationEnum type; std::function<bool(EmissionVariant&)> ok; };
  std::vector<Case> cs = {
    {"bigram", {}, ObservationEnum::string_type, [](EmissionVariant& v) { return v.index() == 3 && dynamic_cast<BigramStringEmission*>(std::get<3>(v)); }},
    {"simple_string", {}, ObservationEnum::string_type, [](EmissionVariant& v) { return v.index() == 3 && dynamic_cast<SimpleStringEmission*>(std::get<3>(v)); }},
    {"gaussian", {}, ObservationEnum::double_type, [](EmissionVariant& v) { return v.index() == 1 && dynamic_cast<GaussianEmission*>(std::get<1>(v)); }},
    {"sometimes_gaussian", {}, ObservationEnum::double_type, [](EmissionVariant& v) { if (v.index() != 1) return false; auto* s = dynamic_cast<Sometimes<double>*>(std::get<1>(v)); return s && dynamic_cast<GaussianEmission*>(s->be) && !s->dirty_can_equal_clean; }},
    {"sometimes_bitflip", {}, ObservationEnum::bool_type, [](EmissionVariant& v) { if (v.index() != 0) return false; auto* s = dynamic_cast<Sometimes<bool>*>(std::get<0>(v)); return s && dynamic_cast<BitFlip*>(s->be) && !s->dirty_can_equal_clean; }}};
  for (int k : {2, 7})
    cs.push_back({"sometimes_categorical", {{"k", std::to_string(k)}}, ObservationEnum::int_type, [k](EmissionVariant& v) {
      if (v.index() != 2) return false;
      auto* s = dynamic_cast<Sometimes<int>*>(std::get<2>(v));
      if (!s || !s->dirty_can_equal_clean) return false;
      auto* c = dynamic_cast<CategoricalEmission*>(s->be);
      return c && int(c->emission_dists.size()) == k && int(c->emission_dists[0].counts.size()) == k; }});
  for (auto& c : cs) {
    at("emission spec " + c.name);
    ++S.states; ++S.transitions;
    bool ok = false, type = false;
    std::string err = guarded([&] {
      EmissionSpec s(c.name, c.args);
      type = s.observation_type == c.type;
      EmissionVariant v = get_prior(s, nullptr_prng());
      ok = c.ok(v);
      std::visit([](auto* p) { delete p; }, v);
    });
    if (!err.empty() || !ok || !type) violation("S01:emission:" + c.name, err.empty() ? (type ? "wrong family or parameters" : "wrong value type") : err, c.name);
  }
  for (std::string bad : {"", "bitflip", "gauss", "Gaussian", "bigram ", "sometimes", "normal"}) {
    ++S.transitions;
    std::string err = guarded([&] { EmissionSpec s(bad); });
    if (err.empty()) violation("S01:emission:unknown-accepted", "unknown emission name accepted", quote(bad));
  }
}
static int edit_dist(const str_t& a, const str_t& b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j) {
    if (!i || !j) { d[i][j] = i + j; continue; }
    d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1])});
  }
  return d[a.size()][b.size()];
}
static void s01_nearest() {
  {  // categorical
    for (int k : {1, 3, 6}) {
      DirichletCategorical d(k);
      for (int x = -4; x <= k + 4; ++x) {
        int r = d.nearest(x), best = 1 << 20;
        for (int y = 0; y < k; ++y) best = std::min(best, std::abs(x - y));
        ++S.states; ++S.transitions;
        if (r < 0 || r >= k || std::abs(r - x) != best) violation("S01:nearest:categorical", "nearest to " + std::to_string(x) + " of " + std::to_string(k) + " categories is " + std::to_string(r), std::to_string(x));
      }
    }
  }
  {  // stringcat
    for (auto& names : std::vector<std::vector<str_t>>{{"ab", "b", "aab"}, {"", "bbb"}, {"a"}, {"abab", "baba", "aaaa", "bb"}}) {
      StringCat d(names);
      for (auto& x : strings_upto('a', 'c', pick(4, 5, 7))) {
        at("stringcat nearest " + x);
        str_t r = d.nearest(x);
        int best = 1 << 20;
        for (auto& n : names) best = std::min(best, edit_dist(n, x));
        ++S.states; ++S.transitions;
        if (std::find(names.begin(), names.end(), r) == names.end() || edit_dist(r, x) != best) violation("S01:nearest:stringcat", "nearest to " + show(x) + " among [" + join(names, "|") + "] is " + show(r), x);
      }
    }
  }
  {  // digit strings
    for (size_t L : {0, 2, 3}) {
      StringNat d(L);
      for (auto& x : strings_upto('8', ';', 5)) {  // '8','9' are digits, ':' and ';' are not
        at("string_nat nearest " + x);
        str_t r = d.nearest(x);
        bool sup = L == 0 || x.size() <= L;
        size_t digits = 0;
        for (char c : x) { if (c > '9') sup = false; else ++digits; }
        bool rs = L == 0 || r.size() <= L;
        for (char c : r) if (c < '0' || c > '9') rs = false;
        // a supported string must drop or replace every non-digit and be short enough
        int best = int(x.size() - digits);
        if (L && x.size() > L) best = std::max<int>(best, x.size() - L);
        ++S.states; ++S.transitions;
        if (sup ? r != x : !rs || edit_dist(r, x) > best) violation("S01:nearest:string_nat", "nearest to " + show(x) + " with maximum length " + std::to_string(L) + " is " + show(r), x);
      }
    }
  }
  {  // bigram over a..b
    for (size_t L : {0, 2}) {
      Bigram d(L, 'a', 'b');
      for (auto& x : strings_upto('a', 'c', pick(4, 5, 7))) {
        at("bigram nearest " + x);
        str_t r = d.nearest(x);
        int bad = std::count(x.begin(), x.end(), 'c');
        bool sup = !bad && (L == 0 || x.size() <= L);
        bool rs = L == 0 || r.size() <= L;
        for (char c : r) if (c < 'a' || c > 'b') rs = false;
        int best = bad;
        if (L && x.size() > L) best = std::max<int>(best, x.size() - L);
        ++S.states; ++S.transitions;
        if (sup ? r != x : !rs || edit_dist(r, x) > best) violation("S01:nearest:bigram", "nearest to " + show(x) + " with maximum length " + std::to_string(L) + " is " + show(r), x);
      }
    }
  }
  { Normal n; BetaBernoulli b; Skellam s;
    for (double x : {0.0, -1.5, 1e9}) if (n.nearest(x) != x) violation("S01:nearest:normal", num(x), num(x));
    for (bool x : {true, false}) if (b.nearest(x) != x) violation("S01:nearest:bernoulli", num(x), num(x));
    for (int x : {0, -5, 100}) if (s.nearest(x) != x) violation("S01:nearest:skellam", num(x), num(x));
    S.transitions += 8;
  }
}
static void s01_text() {
  DistributionAdapter<double> d(new Normal);
  DistributionAdapter<int> k(new Skellam);
  for (double x : {0.0, 1.0, -2.5, 0.1, 1234567.0, 1e-7, 3.14159265358979, 1e300, -1e-300, 123456789.125}) {
    at("text of " + num(x));
    ++S.states; ++S.transitions;
    double y = d.from_string(d.to_string(x));
    if (y != x) violation("S01:text:double", "value " + num(x) + " becomes " + d.to_string(x) + " = " + num(y), num(x));
    std::ostringstream o; o.precision(17); o << x;
    if (d.from_string(o.str()) != x) violation("S01:text:parse-double", o.str(), num(x));
  }
  for (int x : {0, 1, -1, 42, -1000000, 2147483647, -2147483647 - 1}) {
    ++S.states; ++S.transitions;
    if (k.from_string(k.to_string(x)) != x || k.to_string(x) != std::to_string(x)) violation("S01:text:int", k.to_string(x), std::to_string(x));
  }
}

struct Reg {
  Reg() {
    for_all_e([](auto f) {
      typedef typename decltype(f.cleans)::value_type T;
      if (f.invertible) add_shard("E01", f.name, [f] { e01<T>(f); });
      if constexpr (std::is_same_v<T, double>) {
        if (f.name == "identity_double") add_shard("E02", f.name, [f] { e02_discrete<T>(f); });
        else add_shard("E02", f.name, [f] { e02_gauss(f, f.name[0] == 's'); });
      } else if (f.name != "simple_string") add_shard("E02", f.name, [f] { e02_discrete<T>(f); });
      std::vector<T> vals = f.cleans;
      if constexpr (std::is_same_v<T, double>) vals = {0.5, -3, 10};
      if constexpr (std::is_same_v<T, str_t>) vals = {"", "ab", "b", "aa"};
      int L = std::is_same_v<T, bool> ? 5 : 4;
      if (f.name == "bitflip") L = 3;
      if (f.name.substr(0, 8) != "identity" || true) add_shard("E03", f.name, [f, vals, L] { e03<T>(f, vals, L + level()); });
    });
    add_shard("E01", "simple_string_decisions", e01_simple_string_counts);
    add_shard("E01", "sometimes_categorical", [] { e01_split(false); });
    add_shard("E01", "sometimes_categorical_weighted", [] { e01_split(true); });
    add_shard("E02", "simple_string", e02_simple);
    add_shard("E02", "simple_string_certain", e02_simple_certain);
    add_shard("E02", "simple_string_chars", e02_simple_chars);
    add_shard("A01", "edit", [] { a01("edit distance", [](const AlignPiece& p, size_t, size_t) { return p.index() == 3 ? 0.0 : 1.0; }); });
    add_shard("A01", "weighted", [] { a01("insert 1.3, delete 0.7, substitute 1.1, match 0", [](const AlignPiece& p, size_t, size_t) { return p.index() == 3 ? 0.0 : p.index() == 2 ? 1.1 : p.index() == 1 ? 1.3 : 0.7; }); });
    add_shard("A01", "match-costly", [] { a01("match 3, substitute 2, else 1", [](const AlignPiece& p, size_t, size_t) { return p.index() == 3 ? 3.0 : p.index() == 2 ? 2.0 : 1.0; }); });
    add_shard("A01", "zero", [] { a01("all free", [](const AlignPiece&, size_t, size_t) { return 0.0; }); });
    add_shard("A01", "positional", [] { a01("position dependent", [](const AlignPiece& p, size_t i, size_t j) { return 0.1 + 0.37 * ((i * 3 + j * 5 + p.index() * 2) % 7); }); });
    add_shard("A01", "per-character", [] { a01("character dependent", [](const AlignPiece& p, size_t, size_t) { std::string k = piece_key(p); double c = 0.05 * p.index(); for (char x : k) c += 0.013 * (x % 11); return c; }); });
    add_shard("E04", "incorporate", e04_incorporate);
    add_shard("E04", "removal", e04_removal);
    add_shard("E04", "score", e04_score);
    add_shard("E04", "sample", [] { e04_sample("E04"); });
    add_shard("E02", "context_string", [] { e04_sample("E02:context_string"); });
    add_shard("E04", "vote", e04_vote);
    add_shard("D04", "e_sometimes_bitflip", [] { d04e(e_sometimes_bitflip(), -1); });
    add_shard("D04", "e_categorical2", [] { d04e(e_categorical(2), -1); });
    add_shard("D04", "e_gaussian", [] { d04e(e_gaussian(), -1); });
    add_shard("D04", "e_sometimes_gaussian", [] { d04e(e_sometimes_gaussian(), 1); });
    add_shard("D04", "e_simple_string", [] { d04e(e_simple_string(), 1); });
    add_shard("S01", "distributions", s01_spec);
    add_shard("S01", "emissions", s01_emission);
    add_shard("S01", "nearest", s01_nearest);
    add_shard("S01", "text", s01_text);
  }
} reg;
