// Reference model ("world") of relations, domains and noisy relations, and the
// comparison of real relations with it.
#pragma once
#include "vp.hh"
#include <deque>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include "clean_relation.hh"
#include "noisy_relation.hh"
#include "transition_latent_value.hh"
#include "emissions/sometimes.hh"
#include "emissions/bitflip.hh"
#include "emissions/gaussian.hh"
#include "emissions/categorical.hh"
#include "emissions/simple_string.hh"
#include "distributions/get_distribution.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/normal.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/stringcat.hh"
#include "distributions/bigram.hh"
#include "distributions/skellam.hh"

namespace mdl {
using vp::num;
using vp::close;
typedef std::vector<int> Items;
typedef std::map<int, int> Seat;                 // entity -> table
struct RSpec {
  std::string name, spec;
  std::map<std::string, std::string> args;
  std::vector<std::string> doms;
  int base = -1;                                  // index of the base relation, -1: clean
};
inline std::string show_items(const Items& i) { return "(" + vp::join(i, ",") + ")"; }
inline std::string show_v(const std::string& s) { return vp::quote(s); }
inline std::string show_v(double x) { return num(x); }
inline std::string show_v(int x) { return std::to_string(x); }
inline std::string show_v(bool x) { return x ? "T" : "F"; }
template <class A> std::string show_v(const std::pair<A, A>& p) { return show_v(p.first) + "->" + show_v(p.second); }
inline std::string show_seat(const Seat& s) { std::string r; for (auto& [i, t] : s) r += std::to_string(i) + "@" + std::to_string(t) + " "; return r; }

// copies hyperparameters between distributions of the same family
template <class T> void copy_hyp(const Distribution<T>* a, Distribution<T>* b) {
  if constexpr (std::is_same_v<T, bool>) {
    if (auto* x = dynamic_cast<const BetaBernoulli*>(a)) { auto* y = dynamic_cast<BetaBernoulli*>(b); y->alpha = x->alpha; y->beta = x->beta; }
  } else if constexpr (std::is_same_v<T, int>) {
    if (auto* x = dynamic_cast<const DirichletCategorical*>(a)) dynamic_cast<DirichletCategorical*>(b)->alpha = x->alpha;
    if (auto* x = dynamic_cast<const Skellam*>(a)) {
      auto* y = dynamic_cast<Skellam*>(b);
      y->mean1 = x->mean1; y->mean2 = x->mean2; y->stddev1 = x->stddev1; y->stddev2 = x->stddev2; y->mu1 = x->mu1; y->mu2 = x->mu2;
    }
  } else if constexpr (std::is_same_v<T, double>) {
    if (auto* x = dynamic_cast<const Normal*>(a)) { auto* y = dynamic_cast<Normal*>(b); y->m = x->m; y->r = x->r; y->s = x->s; y->v = x->v; }
  } else if constexpr (std::is_same_v<T, std::string>) {
    if (auto* x = dynamic_cast<const Bigram*>(a)) dynamic_cast<Bigram*>(b)->set_alpha(x->alpha);
    if (auto* x = dynamic_cast<const StringCat*>(a)) dynamic_cast<StringCat*>(b)->dc.alpha = x->dc.alpha;
  } else if constexpr (std::is_same_v<T, std::pair<bool, bool>>) {
    if (auto* x = dynamic_cast<const Sometimes<bool>*>(a)) copy_hyp<bool>(&x->bb, &dynamic_cast<Sometimes<bool>*>(b)->bb);
  } else if constexpr (std::is_same_v<T, std::pair<double, double>>) {
    auto z = [](const ZeroMeanNormal& p, ZeroMeanNormal& q) { q.alpha = p.alpha; q.beta = p.beta; };
    if (auto* x = dynamic_cast<const Sometimes<double>*>(a)) {
      auto* y = dynamic_cast<Sometimes<double>*>(b);
      copy_hyp<bool>(&x->bb, &y->bb);
      z(dynamic_cast<GaussianEmission*>(x->be)->zmn, dynamic_cast<GaussianEmission*>(y->be)->zmn);
    }
    if (auto* x = dynamic_cast<const GaussianEmission*>(a)) z(x->zmn, dynamic_cast<GaussianEmission*>(b)->zmn);
  } else if constexpr (std::is_same_v<T, std::pair<std::string, std::string>>) {
    if (auto* x = dynamic_cast<const SimpleStringEmission*>(a)) {
      auto* y = dynamic_cast<SimpleStringEmission*>(b);
      copy_hyp<bool>(&x->substitutions, &y->substitutions);
      copy_hyp<bool>(&x->insertions, &y->insertions);
      copy_hyp<bool>(&x->deletions, &y->deletions);
    }
  }
}
template <class T> struct is_pair : std::false_type {};
template <class A> struct is_pair<std::pair<A, A>> : std::true_type {};
template <class T> std::unique_ptr<Distribution<T>> prior_of(const RSpec& s) {
  vp::Greedy g;
  if constexpr (is_pair<T>::value) {
    auto v = get_prior(EmissionSpec(s.spec, s.args), nullptr_prng());
    Distribution<T>* d = nullptr;
    std::visit([&](auto* e) { if constexpr (std::is_convertible_v<decltype(e), Distribution<T>*>) d = e; }, v);
    return std::unique_ptr<Distribution<T>>(d);
  } else {
    auto v = get_prior(DistributionSpec(s.spec, s.args), nullptr_prng());
    return std::unique_ptr<Distribution<T>>(std::get<Distribution<T>*>(v));
  }
}
template <class T> std::unique_ptr<Distribution<T>> dist_of(const RSpec& s, const std::vector<T>& vals, const Distribution<T>* hyp = nullptr) {
  auto d = prior_of<T>(s);
  if (hyp) copy_hyp<T>(hyp, d.get());
  for (const T& v : vals) d->incorporate(v);
  return d;
}
template <class T> struct Vals;
template <> struct Vals<bool> { static std::vector<bool> v() { return {false, true}; } };
template <> struct Vals<int> { static std::vector<int> v() { return {0, 1, 2}; } };
template <> struct Vals<double> { static std::vector<double> v() { return {0, 1.5, -2}; } };
template <> struct Vals<std::string> { static std::vector<std::string> v() { return {"a", "b"}; } };
template <class A> struct Vals<std::pair<A, A>> {
  static std::vector<std::pair<A, A>> v() { std::vector<std::pair<A, A>> r; for (A a : Vals<A>::v()) for (A b : Vals<A>::v()) r.push_back({a, b}); return r; }
};

// Compares the cells of a clean relation (or of the noise part of a noisy one)
// with the facts that should be in them.
template <class T>
std::string check_clean(const CleanRelation<T>& r, const RSpec& spec, const std::map<std::string, Seat>& seat,
                        const std::map<Items, T>& facts, double tol = 1e-7) {
  std::map<Items, T> d(r.data.begin(), r.data.end());
  if (d.size() != facts.size()) return spec.name + " holds " + std::to_string(d.size()) + " facts, expected " + std::to_string(facts.size());
  for (auto& [i, v] : facts) {
    auto it = d.find(i);
    if (it == d.end()) return spec.name + " lost fact " + show_items(i);
    if (!(it->second == v)) return spec.name + show_items(i) + " is " + show_v(it->second) + ", expected " + show_v(v);
  }
  // reverse index
  std::map<std::string, std::map<int, std::set<Items>>> rr, want;
  for (auto& [dn, m] : r.data_r) for (auto& [e, s] : m) for (auto& i : s) rr[dn][e].insert(i);
  for (auto& [i, v] : facts) for (size_t k = 0; k < i.size(); ++k) want[spec.doms[k]][i[k]].insert(i);
  if (rr != want) return spec.name + ": reverse index does not list exactly the facts of each entity";
  for (auto& [dn, m] : r.data_r) for (auto& [e, s] : m) if (s.empty()) return spec.name + ": reverse index keeps entity " + std::to_string(e) + " of " + dn + " without facts";
  // cells
  std::map<Items, std::vector<T>> cells;
  for (auto& [i, v] : facts) {
    Items z;
    for (size_t k = 0; k < i.size(); ++k) {
      auto& s = seat.at(spec.doms[k]);
      if (!s.count(i[k])) return "entity " + std::to_string(i[k]) + " of " + spec.doms[k] + " is in a fact of " + spec.name + " but not seated";
      z.push_back(s.at(i[k]));
    }
    cells[z].push_back(v);
  }
  size_t n = 0;
  double score = 0;
  for (auto& [z, c] : r.clusters) {
    if (!cells.count(z)) {
      if (c->N != 0) return spec.name + ": cell " + show_items(z) + " holds " + num(c->N) + " values but no fact belongs there";
      return spec.name + ": empty cell " + show_items(z) + " kept";
    }
    ++n;
    auto f = dist_of<T>(spec, cells.at(z), c);
    if (!close(c->N, f->N)) return spec.name + ": cell " + show_items(z) + " holds " + num(c->N) + " values, expected " + num(f->N);
    double a = c->logp_score(), b = f->logp_score();
    if (!close(a, b, tol)) return spec.name + ": cell " + show_items(z) + " has score " + num(a) + ", its facts have " + num(b);
    score += b;
    for (T v : Vals<T>::v()) if (!close(c->logp(v), f->logp(v), tol)) return spec.name + ": cell " + show_items(z) + " gives " + show_v(v) + " log probability " + num(c->logp(v)) + ", its facts imply " + num(f->logp(v));
  }
  if (n != cells.size()) return spec.name + ": a cell with facts is missing";
  if (!close(r.logp_score(), score, tol)) return spec.name + ": score " + num(r.logp_score()) + ", the cells' scores sum to " + num(score);
  return "";
}
template <class T> double score_clean(const RSpec& spec, const std::map<std::string, Seat>& seat, const std::map<Items, T>& facts) {
  std::map<Items, std::vector<T>> cells;
  for (auto& [i, v] : facts) {
    Items z;
    for (size_t k = 0; k < i.size(); ++k) z.push_back(seat.at(spec.doms[k]).at(i[k]));
    cells[z].push_back(v);
  }
  double s = 0;
  for (auto& [z, vs] : cells) s += dist_of<T>(spec, vs)->logp_score();
  return s;
}
template <class T> std::map<Items, std::pair<T, T>> pairs_of(const std::map<Items, T>& base, const std::map<Items, T>& noisy) {
  std::map<Items, std::pair<T, T>> r;
  for (auto& [i, v] : noisy) {
    size_t a = base.empty() ? 0 : base.begin()->first.size();
    r[i] = {base.at(Items(i.begin(), i.begin() + a)), v};
  }
  return r;
}
template <class T>
std::string check_noisy(NoisyRelation<T>& r, const RSpec& spec, const std::map<std::string, Seat>& seat,
                        const std::map<Items, T>& facts, const std::map<Items, T>& base, double tol = 1e-7) {
  std::map<Items, T> d(r.data.begin(), r.data.end());
  if (d != facts) return spec.name + " does not hold exactly its facts";
  std::map<Items, std::set<Items>> b2n, want;
  for (auto& [b, s] : r.base_to_noisy_items) for (auto& i : s) b2n[b].insert(i);
  for (auto& [i, v] : facts) want[Items(i.begin(), i.begin() + base.begin()->first.size())].insert(i);
  if (b2n != want) return spec.name + ": base facts do not list exactly their noisy facts";
  for (auto& [i, v] : facts) if (!(r.get_base_value(i) == pairs_of(base, facts).at(i).first)) return spec.name + show_items(i) + " reads a stale base value";
  RSpec es = spec;
  std::string e = check_clean<std::pair<T, T>>(r.emission_relation, es, seat, pairs_of(base, facts), tol);
  if (!e.empty()) return e;
  if (!close(r.logp_score(), r.emission_relation.logp_score())) return spec.name + ": score is not that of its noise cells";
  return "";
}
inline std::string check_domain(const Domain& d, const Seat& seat) {
  std::set<int> it(d.items.begin(), d.items.end()), w;
  for (auto& [i, t] : seat) w.insert(i);
  if (it != w) return "domain " + d.name + " has entities {" + vp::join(it) + "}, expected {" + vp::join(w) + "}";
  std::map<int, int> a(d.crp.assignments.begin(), d.crp.assignments.end());
  if (a != seat) return "domain " + d.name + " is clustered " + show_seat(a) + ", expected " + show_seat(seat);
  if (d.crp.N != int(seat.size())) return "domain " + d.name + " counts " + std::to_string(d.crp.N) + " customers";
  std::map<int, std::set<int>> t, tw;
  for (auto& [k, s] : d.crp.tables) t[k] = std::set<int>(s.begin(), s.end());
  for (auto& [i, k] : seat) tw[k].insert(i);
  if (t != tw) return "domain " + d.name + ": tables disagree with assignments";
  return "";
}
inline double eppf(const Seat& s, double alpha) {
  std::map<int, int> c;
  for (auto& [i, t] : s) ++c[t];
  double r = std::lgamma(alpha) - std::lgamma(alpha + s.size());
  for (auto& [t, n] : c) r += std::log(alpha) + std::lgamma(double(n));
  return r;
}
inline int fresh_table(const Seat& s) { int m = -1; for (auto& [i, t] : s) m = std::max(m, t); return m + 1; }
inline std::set<int> tables(const Seat& s) { std::set<int> r; for (auto& [i, t] : s) r.insert(t); return r; }
}  // namespace mdl
