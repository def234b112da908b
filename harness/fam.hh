// Value-distribution families with small alphabets and reference formulas.
#pragma once
#include <deque>
#include "vp.hh"
#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"

namespace fam {
using vp::num;
typedef std::vector<double> H;  // hyperparameters (and latents, for Skellam)
template <class T> std::string show(const T& x) { return vp::str(x); }
inline std::string show(const std::string& s) { return vp::quote(s); }
inline std::string show(const double& x) { return num(x); }
inline std::string hs(const H& h) { std::string s; for (double x : h) s += (s.empty() ? "" : "/") + num(x); return s; }

template <class T> struct Fam {
  std::string name;
  std::function<Distribution<T>*(const H&)> make;
  std::function<H(Distribution<T>&)> hyp;
  std::vector<H> hypers;          // hyperparameter settings explored
  std::vector<T> vals;            // values added and removed
  std::vector<T> probes;          // values whose predictive is observed
  std::vector<double> weights;    // weights a value may be added with
  int depth_q = 5, depth_t = 6;   // history depth explored exhaustively
  typedef std::map<T, double> Data;
  std::function<double(const Data&, const H&)> ref_score;
  std::function<double(const Data&, const H&, const T&)> ref_logp;
  // discrete support, with the exact sampling law given the data (if discrete)
  std::function<std::map<std::string, double>(const Data&, const H&, std::function<double(const T&)>)> law;
  bool continuous = false;
  double tol = 1e-8;
  std::function<T(double)> from_double;   // continuous families
  std::function<double(const T&)> to_double;
};

inline double lg(double x) { return std::lgamma(x); }
inline double dm_score(const std::vector<double>& c, double a) {  // Dirichlet-multinomial
  double n = 0, s = 0, k = c.size();
  for (double x : c) { n += x; s += lg(x + a) - lg(a); }
  return lg(k * a) - lg(k * a + n) + s;
}

inline Fam<bool> bernoulli() {
  Fam<bool> f;
  f.name = "bernoulli";
  f.make = [](const H& h) { auto* d = new BetaBernoulli; d->alpha = h[0]; d->beta = h[1]; return d; };
  f.hyp = [](Distribution<bool>& d) { auto& b = dynamic_cast<BetaBernoulli&>(d); return H{b.alpha, b.beta}; };
  f.hypers = {{1, 1}, {0.5, 3}, {1e-3, 20}};
  f.vals = {false, true};
  f.probes = {false, true};
  f.weights = {1, 2, 0.5, 0.25};
  f.depth_q = 5; f.depth_t = 6;
  auto cnt = [](const std::map<bool, double>& d, bool v) { return d.count(v) ? d.at(v) : 0.0; };
  f.ref_score = [=](const std::map<bool, double>& d, const H& h) {
    double s = cnt(d, true), n = s + cnt(d, false);
    return lg(s + h[0]) + lg(n - s + h[1]) - lg(n + h[0] + h[1]) - (lg(h[0]) + lg(h[1]) - lg(h[0] + h[1]));
  };
  f.ref_logp = [=](const std::map<bool, double>& d, const H& h, const bool& x) {
    double s = cnt(d, true), n = s + cnt(d, false);
    double p = (s + h[0]) / (n + h[0] + h[1]);
    return std::log(x ? p : ((n - s + h[1]) / (n + h[0] + h[1])));
  };
  f.law = [](const std::map<bool, double>&, const H&, std::function<double(const bool&)> lp) {
    return std::map<std::string, double>{{"0", std::exp(lp(false))}, {"1", std::exp(lp(true))}};
  };
  return f;
}
inline Fam<int> categorical(int k) {
  Fam<int> f;
  f.name = "categorical" + std::to_string(k);
  f.make = [k](const H& h) { auto* d = new DirichletCategorical(k); d->alpha = h[0]; return d; };
  f.hyp = [](Distribution<int>& d) { return H{dynamic_cast<DirichletCategorical&>(d).alpha}; };
  f.hypers = {{1}, {0.1}, {10}};
  for (int i = 0; i < k; ++i) f.vals.push_back(i);
  f.probes = f.vals;
  f.weights = {1, 0.5, 2.5};
  f.depth_q = k > 3 ? 3 : 4; f.depth_t = k > 3 ? 4 : 5;
  auto cv = [k](const std::map<int, double>& d) { std::vector<double> c(k, 0.0); for (auto& [v, w] : d) c[v] = w; return c; };
  f.ref_score = [=](const std::map<int, double>& d, const H& h) { return dm_score(cv(d), h[0]); };
  f.ref_logp = [=](const std::map<int, double>& d, const H& h, const int& x) {
    auto c = cv(d); double n = 0; for (double y : c) n += y;
    return std::log((c[x] + h[0]) / (n + k * h[0]));
  };
  f.law = [k](const std::map<int, double>&, const H&, std::function<double(const int&)> lp) {
    std::map<std::string, double> m; for (int i = 0; i < k; ++i) m[show(i)] = std::exp(lp(i)); return m;
  };
  return f;
}
inline Fam<std::string> stringcat() {
  Fam<std::string> f;
  f.name = "stringcat";
  static std::vector<std::string> names = {"yes", "no", ""};
  f.make = [](const H& h) { auto* d = new StringCat(names); d->dc.alpha = h[0]; return d; };
  f.hyp = [](Distribution<std::string>& d) { return H{dynamic_cast<StringCat&>(d).dc.alpha}; };
  f.hypers = {{1}, {0.1}, {10}};
  f.vals = names;
  f.probes = names;
  f.weights = {1, 0.5, 2.5};
  f.depth_q = 4; f.depth_t = 5;
  auto cv = [](const std::map<std::string, double>& d) { std::vector<double> c; for (auto& s : names) c.push_back(d.count(s) ? d.at(s) : 0); return c; };
  f.ref_score = [=](const std::map<std::string, double>& d, const H& h) { return dm_score(cv(d), h[0]); };
  f.ref_logp = [=](const std::map<std::string, double>& d, const H& h, const std::string& x) {
    double n = 0; for (auto& [v, w] : d) n += w;
    return std::log(((d.count(x) ? d.at(x) : 0) + h[0]) / (n + names.size() * h[0]));
  };
  f.law = [](const std::map<std::string, double>&, const H&, std::function<double(const std::string&)> lp) {
    std::map<std::string, double> m; for (auto& s : names) m[show(s)] = std::exp(lp(s)); return m;
  };
  return f;
}
// reference bigram model over characters lo..hi
struct BigramRef {
  int n; char lo;
  std::vector<std::vector<double>> c;
  BigramRef(char lo, char hi) : n(hi - lo + 2), lo(lo), c(n, std::vector<double>(n, 0.0)) {}
  int ix(char ch) const { return ch - lo; }
  void add(const std::string& s, double w) {
    int prev = n - 1;
    for (char ch : s) { c[prev][ix(ch)] += w; prev = ix(ch); }
    c[prev][n - 1] += w;
  }
  double row(int i) const { double t = 0; for (double x : c[i]) t += x; return t; }
  double score(double a) const { double s = 0; for (auto& r : c) s += dm_score(r, a); return s; }
  // log probability of emitting s (and then stopping, unless !stop)
  double logp(const std::string& s, double a, bool stop) const {
    BigramRef b = *this;
    double lp = 0;
    int prev = n - 1;
    for (size_t i = 0; i <= s.size(); ++i) {
      if (i == s.size() && !stop) break;
      int nx = i < s.size() ? ix(s[i]) : n - 1;
      lp += std::log((b.c[prev][nx] + a) / (b.row(prev) + n * a));
      b.c[prev][nx] += 1;
      prev = nx;
    }
    return lp;
  }
};
inline std::vector<std::string> strings_upto(char lo, char hi, size_t L) {
  std::vector<std::string> out = {""};
  for (size_t i = 0, b = 0; i < L; ++i) {
    size_t e = out.size();
    for (; b < e; ++b) for (char c = lo; c <= hi; ++c) out.push_back(out[b] + c);
  }
  return out;
}
template <class D> Fam<std::string> bigram_like(const std::string& name, char lo, char hi, size_t L, std::function<D*()> mk,
                                                std::vector<std::string> vals, std::vector<std::string> probes) {
  Fam<std::string> f;
  f.name = name;
  f.make = [mk](const H& h) { D* d = mk(); d->set_alpha(h[0]); return d; };
  f.hyp = [](Distribution<std::string>& d) { return H{dynamic_cast<D&>(d).alpha}; };
  f.hypers = {{1}, {0.1}, {10}};
  f.vals = vals;
  f.probes = probes;
  f.weights = {1, 0.5, 2.5};
  f.depth_q = 4; f.depth_t = 5;
  auto ref = [lo, hi](const std::map<std::string, double>& d) { BigramRef b(lo, hi); for (auto& [s, w] : d) b.add(s, w); return b; };
  f.ref_score = [ref](const std::map<std::string, double>& d, const H& h) { return ref(d).score(h[0]); };
  f.ref_logp = [ref](const std::map<std::string, double>& d, const H& h, const std::string& x) { return ref(d).logp(x, h[0], true); };
  f.law = [ref, lo, hi, L](const std::map<std::string, double>& d, const H& h, std::function<double(const std::string&)> lp) {
    std::map<std::string, double> m;
    BigramRef b = ref(d);
    for (auto& s : strings_upto(lo, hi, L))
      m[show(s)] = s.size() < L ? std::exp(lp(s)) : std::exp(b.logp(s, h[0], false));
    return m;
  };
  return f;
}
inline Fam<std::string> bigram() {
  return bigram_like<Bigram>("bigram", 'a', 'b', 3, [] { return new Bigram(3, 'a', 'b'); },
                             {"", "a", "ab", "bbb", "aba"}, {"", "a", "b", "aa", "aab", "bba", "bbb"});
}
inline Fam<std::string> bigram_unbounded() {
  auto f = bigram_like<Bigram>("bigram_nolimit", 'a', 'b', 0, [] { return new Bigram(0, 'a', 'b'); },
                             {"", "ab", "bbaab"}, {"", "b", "aa", "bbbabab"});
  f.law = nullptr;
  return f;
}
inline Fam<std::string> bigram_default() {
  auto f = bigram_like<Bigram>("bigram_default", ' ', '~', 0, [] { return new Bigram(); },
                             {"", " ", "~a Z"}, {"", "~", " a", "~a Z"});
  f.law = nullptr;
  f.depth_q = 3; f.depth_t = 4;
  return f;
}
inline Fam<std::string> string_nat() {
  auto f = bigram_like<StringNat>("string_nat", '0', '9', 2, [] { return new StringNat(2); },
                                  {"", "0", "09", "11"}, {"", "0", "9", "90", "11", "01"});
  f.depth_q = 3; f.depth_t = 4;
  return f;
}
struct Mom { double n = 0, s = 0, ss = 0, c = 0, mean = 0; };
inline Mom moments(const std::map<double, double>& d) {
  Mom m;
  for (auto& [x, w] : d) { m.n += w; m.s += w * x; m.ss += w * x * x; }
  m.mean = m.n ? m.s / m.n : 0;
  for (auto& [x, w] : d) m.c += w * (x - m.mean) * (x - m.mean);
  return m;
}
inline double nig_score(const std::map<double, double>& d, const H& h) {
  double r = h[0], v = h[1], m = h[2], s = h[3];
  Mom q = moments(d);
  double rn = r + q.n, vn = v + q.n, sn = s + q.c + r * q.n / rn * (q.mean - m) * (q.mean - m);
  return -q.n / 2 * std::log(M_PI) + 0.5 * std::log(r / rn) + lg(vn / 2) - lg(v / 2) + v / 2 * std::log(s) - vn / 2 * std::log(sn);
}
inline double nig_logp(const std::map<double, double>& d, const H& h, double x) {  // Student t
  double r = h[0], v = h[1], m = h[2], s = h[3];
  Mom q = moments(d);
  double rn = r + q.n, vn = v + q.n, mn = (r * m + q.s) / rn;
  double sn = s + q.c + r * q.n / rn * (q.mean - m) * (q.mean - m);
  double sc2 = sn * (rn + 1) / (rn * vn);
  return lg((vn + 1) / 2) - lg(vn / 2) - 0.5 * std::log(M_PI * vn * sc2) - (vn + 1) / 2 * std::log1p((x - mn) * (x - mn) / (vn * sc2));
}
inline Fam<double> normal() {
  Fam<double> f;
  f.name = "normal";
  f.make = [](const H& h) { auto* d = new Normal; d->r = h[0]; d->v = h[1]; d->m = h[2]; d->s = h[3]; return d; };
  f.hyp = [](Distribution<double>& d) { auto& n = dynamic_cast<Normal&>(d); return H{n.r, n.v, n.m, n.s}; };
  f.hypers = {{1, 1, 0, 1}, {0.1, 5, -1, 2}, {10, 0.5, 1, 0.5}};
  f.vals = {0.0, 1.0, -2.5, 100.0};
  f.probes = {0.0, 0.3, -7.0, 100.0};
  f.weights = {1, 0.5};
  f.depth_q = 4; f.depth_t = 5;
  f.ref_score = nig_score;
  f.ref_logp = [](const auto& d, const H& h, const double& x) { return nig_logp(d, h, x); };
  f.continuous = true;
  f.from_double = [](double x) { return x; };
  f.to_double = [](const double& x) { return x; };
  f.tol = 1e-7;
  return f;
}
inline double zmn_score(const std::map<double, double>& d, const H& h) {
  Mom q = moments(d);
  double an = h[0] + q.n / 2, bn = h[1] + q.ss / 2;
  return h[0] * std::log(h[1]) - lg(h[0]) + lg(an) - an * std::log(bn) - q.n / 2 * std::log(2 * M_PI);
}
inline double zmn_logp(const std::map<double, double>& d, const H& h, double x) {
  Mom q = moments(d);
  double an = h[0] + q.n / 2, bn = h[1] + q.ss / 2;
  double v = 2 * an, s2 = bn / an;
  return lg((v + 1) / 2) - lg(v / 2) - 0.5 * std::log(M_PI * v * s2) - (v + 1) / 2 * std::log1p(x * x / (v * s2));
}
inline Fam<double> zero_mean_normal() {
  Fam<double> f;
  f.name = "zero_mean_normal";
  f.make = [](const H& h) { auto* d = new ZeroMeanNormal; d->alpha = h[0]; d->beta = h[1]; return d; };
  f.hyp = [](Distribution<double>& d) { auto& n = dynamic_cast<ZeroMeanNormal&>(d); return H{n.alpha, n.beta}; };
  f.hypers = {{1, 1}, {10, 0.1}, {2, 100}};
  f.vals = {0.0, 1.0, -2.5, 30.0};
  f.probes = {0.0, 0.3, -7.0, 30.0};
  f.weights = {1, 0.5};
  f.depth_q = 4; f.depth_t = 5;
  f.ref_score = zmn_score;
  f.ref_logp = [](const auto& d, const H& h, const double& x) { return zmn_logp(d, h, x); };
  f.continuous = true;
  f.from_double = [](double x) { return x; };
  f.to_double = [](const double& x) { return x; };
  f.tol = 1e-7;
  return f;
}
inline double skellam_logp(int x, double m1, double m2) {
  std::vector<double> t;
  double peak = (std::sqrt(double(x) * x + 4 * m1 * m2) - x) / 2, half = 14 * std::sqrt(peak + 1) + 60;
  for (int k = int(std::max({0.0, double(-x), std::floor(peak - half)})); k < peak + half; ++k)
    t.push_back(-m1 - m2 + (k + x) * std::log(m1) - lg(k + x + 1.0) + k * std::log(m2) - lg(k + 1.0));
  return vp::lse(t);
}
inline Fam<int> skellam() {
  Fam<int> f;
  f.name = "skellam";
  f.make = [](const H& h) {
    auto* d = new Skellam;
    d->mean1 = h[0]; d->mean2 = h[1]; d->stddev1 = h[2]; d->stddev2 = h[3]; d->mu1 = h[4]; d->mu2 = h[5];
    return d;
  };
  f.hyp = [](Distribution<int>& d) { auto& s = dynamic_cast<Skellam&>(d); return H{s.mean1, s.mean2, s.stddev1, s.stddev2, s.mu1, s.mu2}; };
  f.hypers = {{0, 0, 1, 1, 1, 1}, {0, 10, 1, 0.1, 2.5, 0.4}, {-10, 0, 10, 1, 0.05, 6}};
  f.vals = {0, 2, -3};
  f.probes = {0, 1, -1, 5, -4};
  f.weights = {1, 0.5};
  f.depth_q = 4; f.depth_t = 6;
  f.ref_score = [](const std::map<int, double>& d, const H& h) { double s = 0; for (auto& [x, w] : d) if (w != 0) s += w * skellam_logp(x, h[4], h[5]); return s; };
  f.ref_logp = [](const auto&, const H& h, const int& x) { return skellam_logp(x, h[4], h[5]); };
  f.law = [](const std::map<int, double>&, const H& h, std::function<double(const int&)> lp) {
    std::map<std::string, double> m;
    for (int x = -60; x <= 60; ++x) m[show(x)] = std::exp(lp(x));
    return m;
  };
  return f;
}
// rates as large as the hyperparameter grid makes them
inline Fam<int> skellam_large() {
  Fam<int> f = skellam();
  f.name = "skellam_large";
  f.hypers = {{10, 10, 0.1, 0.1, 22000, 22100}, {0, 0, 10, 1, 500, 330}, {10, -10, 1, 10, 30000, 0.01}, {10, 10, 10, 10, 1e6, 1.001e6}};
  f.vals = {0, 170, -900};
  f.probes = {0, -100, 30000, 1500};
  f.tol = 1e-6;
  f.depth_q = 3;
  return f;
}
template <class S> Fam<std::string> adapted(const Fam<S>& g, const std::string& name) {
  Fam<std::string> f;
  auto conv = [](const std::string& s) { std::istringstream i(s); S x; i >> x; return x; };
  f.name = name;
  f.make = [g](const H& h) { return new DistributionAdapter<S>(g.make(h)); };
  f.hyp = [g](Distribution<std::string>& d) { return g.hyp(*dynamic_cast<DistributionAdapter<S>&>(d).d); };
  f.hypers = {g.hypers[0], g.hypers[1]};
  for (auto& v : g.vals) f.vals.push_back(vp::str(v));
  for (auto& v : g.probes) f.probes.push_back(vp::str(v));
  f.weights = g.weights;
  f.depth_q = 3; f.depth_t = 4;
  auto back = [conv](const std::map<std::string, double>& d) { std::map<S, double> r; for (auto& [s, w] : d) r[conv(s)] += w; return r; };
  f.ref_score = [g, back](const std::map<std::string, double>& d, const H& h) { return g.ref_score(back(d), h); };
  f.ref_logp = [g, back, conv](const std::map<std::string, double>& d, const H& h, const std::string& x) { return g.ref_logp(back(d), h, conv(x)); };
  if (g.law) f.law = [g, back](const std::map<std::string, double>& d, const H& h, std::function<double(const std::string&)> lp) {
    std::map<std::string, double> m;
    for (auto& [k, p] : g.law(back(d), h, [lp](const S& x) { return lp(vp::str(x)); })) m[vp::quote(k)] = p;
    return m;
  };
  f.continuous = g.continuous;
  if (g.from_double) f.from_double = [](double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); };
  if (g.to_double) f.to_double = [conv, g](const std::string& s) { return g.to_double(conv(s)); };
  f.tol = g.tol;
  return f;
}

template <class F> void for_all(F f) {
  f(bernoulli()); f(categorical(3)); f(categorical(2)); f(categorical(1)); f(categorical(4)); f(stringcat());
  f(bigram()); f(bigram_unbounded()); f(bigram_default()); f(string_nat());
  f(normal()); f(zero_mean_normal()); f(skellam());
  f(adapted<double>(normal(), "string_normal")); f(adapted<int>(skellam(), "string_skellam"));
}

template <class T> struct Op { int v; double w; bool un; };  // un: unincorporate() (unit weight)
template <class T> std::string show_op(const Fam<T>& f, const Op<T>& o) {
  if (o.un) return "remove(" + show(f.vals[o.v]) + ")";
  return "add(" + show(f.vals[o.v]) + (o.w == 1 ? "" : ",weight=" + num(o.w)) + ")";
}
template <class T> void apply(const Fam<T>& f, Distribution<T>& d, const Op<T>& o) {
  T v = f.vals[o.v];
  if (o.un) d.unincorporate(v); else if (o.w == 1) d.incorporate(v); else d.incorporate(v, o.w);
}
template <class T> std::string show_hist(const Fam<T>& f, const H& h, const std::vector<Op<T>>& hist) {
  std::string s = f.name + "[hypers=" + hs(h) + "]";
  for (auto& o : hist) s += " " + show_op(f, o);
  return s;
}
template <class T> std::unique_ptr<Distribution<T>> fresh(const Fam<T>& f, const H& h, const std::map<T, double>& data) {
  std::unique_ptr<Distribution<T>> d(f.make(h));
  for (auto& [v, w] : data) if (w != 0) { T x = v; d->incorporate(x, w); }
  return d;
}
struct Obs { double n, score; std::vector<double> lp; };
template <class T> Obs observe(const Fam<T>& f, const Distribution<T>& d) {
  Obs o;
  o.n = d.N;
  o.score = d.logp_score();
  for (T p : f.probes) o.lp.push_back(d.logp(p));
  return o;
}
inline std::string diff(const Obs& a, const Obs& b, double tol) {
  if (!vp::close(a.n, b.n, 1e-9)) return "held count " + num(a.n) + " vs " + num(b.n);
  if (!vp::close(a.score, b.score, tol)) return "score " + num(a.score) + " vs " + num(b.score);
  for (size_t i = 0; i < a.lp.size(); ++i)
    if (!vp::close(a.lp[i], b.lp[i], tol)) return "predictive of probe #" + std::to_string(i) + " " + num(a.lp[i]) + " vs " + num(b.lp[i]);
  return "";
}
}  // namespace fam
