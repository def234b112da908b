// Reference model of relational models (one or several submodels) with
// relations of mixed types, and the comparison of a real IRM with it.
#pragma once
#include "rel.hh"
#include "irm.hh"

namespace mdl {
typedef std::map<Items, ObservationVariant> VFacts;
typedef std::map<std::string, Seat> Seats;
typedef std::map<std::string, RSpec> Specs;           // base by name below
struct MRel { RSpec s; std::string base; char type; bool observed = true; };   // type: b d i s
typedef std::map<std::string, MRel> Rels;
typedef std::map<std::string, VFacts> Facts;

inline std::string show_vv(const ObservationVariant& v) { return std::visit([](const auto& x) { return show_v(x); }, v); }
inline std::string show_facts(const VFacts& f) { std::string s; for (auto& [i, v] : f) s += show_items(i) + "=" + show_vv(v) + " "; return s; }
template <class T> std::map<Items, T> conv(const VFacts& f) { std::map<Items, T> r; for (auto& [i, v] : f) r[i] = std::get<T>(v); return r; }
template <class F> auto with_type(char t, F f) {
  switch (t) {
    case 'b': return f(bool());
    case 'd': return f(double());
    case 'i': return f(int());
    default: return f(std::string());
  }
}
inline T_relation t_rel(const MRel& m) {
  if (m.base.empty()) return T_clean_relation{m.s.doms, m.observed, DistributionSpec(m.s.spec, m.s.args)};
  return T_noisy_relation{m.s.doms, m.observed, EmissionSpec(m.s.spec, m.s.args), m.base};
}
inline MRel cr(const std::string& n, const std::string& spec, std::vector<std::string> d, char type, std::map<std::string, std::string> a = {}, bool obs = true) { return {{n, spec, a, d, -1}, "", type, obs}; }
inline MRel nr(const std::string& n, const std::string& spec, std::vector<std::string> d, const std::string& base, char type, std::map<std::string, std::string> a = {}) { return {{n, spec, a, d, 0}, base, type, true}; }
inline std::vector<ObservationVariant> vals_of(const MRel& m) {
  switch (m.type) {
    case 'b': return {false, true};
    case 'd': return {1.5, -2.0};
    case 'i': return {0, 2};
    default: return {std::string("a"), std::string("b")};
  }
}
// Compares one relation of a model.
inline std::string check_relation(RelationVariant rv, const Rels& rels, const std::string& name, const Seats& seat, const Facts& facts, double tol = 1e-7) {
  auto& m = rels.at(name);
  static const VFacts none;
  auto get = [&](const std::string& n) -> const VFacts& { auto it = facts.find(n); return it == facts.end() ? none : it->second; };
  return with_type(m.type, [&](auto tag) -> std::string {
    using T = decltype(tag);
    auto* pp = std::get_if<Relation<T>*>(&rv);
    if (!pp) return name + " has the wrong value type";
    if (m.base.empty()) {
      auto* c = dynamic_cast<CleanRelation<T>*>(*pp);
      if (!c) return name + " is not a clean relation";
      if (c->name != name) return name + " is called " + c->name;
      std::vector<std::string> dn;
      for (auto* d : c->domains) dn.push_back(d->name);
      if (dn != m.s.doms) return name + " has the wrong domains";
      return check_clean<T>(*c, m.s, seat, conv<T>(get(name)), tol);
    }
    auto* c = dynamic_cast<NoisyRelation<T>*>(*pp);
    if (!c) return name + " is not a noisy relation";
    if (c->name != name) return name + " is called " + c->name;
    std::vector<std::string> dn;
    for (auto* d : c->domains) dn.push_back(d->name);
    if (dn != m.s.doms) return name + " has the wrong domains";
    return check_noisy<T>(*c, m.s, seat, conv<T>(get(name)), conv<T>(get(m.base)), tol);
  });
}
inline double score_relation(const Rels& rels, const std::string& name, const Seats& seat, const Facts& facts) {
  auto& m = rels.at(name);
  return with_type(m.type, [&](auto tag) -> double {
    using T = decltype(tag);
    if (!facts.count(name)) return 0;
    if (m.base.empty()) return score_clean<T>(m.s, seat, conv<T>(facts.at(name)));
    return score_clean<std::pair<T, T>>(m.s, seat, facts.at(name).empty() ? std::map<Items, std::pair<T, T>>() : pairs_of(conv<T>(facts.at(m.base)), conv<T>(facts.at(name))));
  });
}
// entities that occur in the facts of the given relations, per domain
inline std::map<std::string, std::set<int>> entities(const Rels& rels, const std::set<std::string>& in, const Facts& facts) {
  std::map<std::string, std::set<int>> r;
  for (auto& n : in) {
    for (auto& d : rels.at(n).s.doms) r[d];
    if (facts.count(n)) for (auto& [it, v] : facts.at(n)) for (size_t k = 0; k < it.size(); ++k) r[rels.at(n).s.doms[k]].insert(it[k]);
  }
  return r;
}
// reads the clustering off a model (only used where a draw decided it)
inline Seats seats_of(const IRM& m) {
  Seats s;
  for (auto& [d, dom] : m.domains) { s[d]; for (auto& [i, t] : dom->crp.assignments) s[d][i] = t; }
  return s;
}
// Compares a model (or submodel) holding the relations `in`.
inline std::string check_irm(IRM& m, const Rels& rels, const std::set<std::string>& in, const Seats& seat, const Facts& facts, double tol = 1e-7) {
  std::set<std::string> a, b;
  for (auto& [n, r] : m.relations) a.insert(n);
  if (a != in) return "the model has relations {" + vp::join(a) + "}, expected {" + vp::join(in) + "}";
  for (auto& [n, r] : m.schema) b.insert(n);
  if (b != in) return "the model's schema lists {" + vp::join(b) + "}, expected {" + vp::join(in) + "}";
  auto ents = entities(rels, in, facts);
  std::set<std::string> d1, d2;
  for (auto& [d, dom] : m.domains) { d1.insert(d); if (dom->name != d) return "domain " + d + " is called " + dom->name; }
  for (auto& [d, s] : ents) d2.insert(d);
  if (d1 != d2) return "the model has domains {" + vp::join(d1) + "}, expected {" + vp::join(d2) + "}";
  double score = 0;
  for (auto& [d, es] : ents) {
    std::set<int> have;
    for (int i : m.domains.at(d)->items) have.insert(i);
    if (have != es) return "domain " + d + " holds entities {" + vp::join(have) + "}, its facts mention {" + vp::join(es) + "}";
    std::string e = check_domain(*m.domains.at(d), seat.at(d));
    if (!e.empty()) return e;
    score += eppf(seat.at(d), m.domains.at(d)->crp.alpha);
    std::set<std::string> rr, want;
    for (auto& r : m.domain_to_relations.at(d)) rr.insert(r);
    for (auto& r : in) if (std::count(rels.at(r).s.doms.begin(), rels.at(r).s.doms.end(), d)) want.insert(r);
    if (rr != want) return "domain " + d + " lists relations {" + vp::join(rr) + "}, expected {" + vp::join(want) + "}";
    for (int i = 0; i < 4; ++i) if (m.has_observation(d, i) != bool(es.count(i))) return "has_observation(" + d + "," + std::to_string(i) + ") is wrong";
  }
  if (m.domain_to_relations.size() != ents.size()) return "the model lists relations of a domain it does not have";
  for (auto& n : in) {
    auto rv = m.relations.at(n);
    std::string e = check_relation(rv, rels, n, seat, facts, tol);
    if (!e.empty()) return e;
    std::vector<Domain*> ds = std::visit([](auto r) { return r->get_domains(); }, rv);
    for (auto* d : ds) if (m.domains.at(d->name) != d) return n + " uses a domain object that is not the model's";
    score += std::visit([](auto r) { return r->logp_score(); }, rv);
  }
  std::map<std::string, std::set<std::string>> b2n, want;
  for (auto& [x, v] : m.base_to_noisy_relations) for (auto& r : v) b2n[x].insert(r);
  for (auto& n : in) if (!rels.at(n).base.empty()) want[rels.at(n).base].insert(n);
  if (b2n != want) {
    std::string s = "base relations do not list exactly the noisy relations that use them:";
    for (auto& [x, v] : b2n) s += " " + x + ":{" + vp::join(v) + "}";
    return s;
  }
  double got = m.logp_score();
  if (!close(got, score, tol)) return "model score " + num(got) + ", clusterings and relations sum to " + num(score);
  return "";
}
// total score from scratch with default hyperparameters
inline double score_irm(const Rels& rels, const std::set<std::string>& in, const Seats& seat, const Facts& facts, const std::map<std::string, double>& alpha) {
  double s = 0;
  for (auto& [d, st] : seat) s += eppf(st, alpha.count(d) ? alpha.at(d) : 1.0);
  for (auto& n : in) s += score_relation(rels, n, seat, facts);
  return s;
}
inline std::string canon(const Seat& s) {      // up to table names
  std::map<int, int> m; std::string r;
  for (auto& [i, t] : s) { if (!m.count(t)) { int k = m.size(); m[t] = k; } r += std::to_string(i) + ":" + std::to_string(m[t]) + " "; }
  return r;
}
inline std::string canon(const Seats& s) { std::string r; for (auto& [d, x] : s) r += d + "{" + canon(x) + "}"; return r; }
// all ways to cluster entities (restricted growth strings, tables named through `names`)
inline void all_seats(const std::vector<int>& ents, const std::vector<int>& names, const std::function<void(const Seat&)>& f) {
  std::function<void(size_t, int, Seat)> go = [&](size_t k, int used, Seat s) {
    if (k == ents.size()) { f(s); return; }
    for (int t = 0; t <= used; ++t) { Seat x = s; x[ents[k]] = names[t]; go(k + 1, std::max(used, t + 1), x); }
  };
  go(0, 0, {});
}
inline void all_tuples(const std::vector<std::string>& doms, const std::map<std::string, int>& n, const std::function<void(const Items&)>& f) {
  Items t(doms.size(), 0);
  for (;;) {
    f(t);
    size_t k = 0;
    while (k < t.size() && ++t[k] == n.at(doms[k])) t[k++] = 0;
    if (k == t.size()) return;
  }
}
// all fact sets with at most `max_per` facts per relation; values cycle through
// all combinations of the first two values
inline void all_facts(const Rels& rels, const std::map<std::string, int>& n, int max_per, const std::function<void(const Facts&)>& f) {
  std::vector<std::string> names, order;
  for (auto& [r, m] : rels) if (m.base.empty()) order.push_back(r);
  for (size_t guard = 0; order.size() < rels.size() && guard < 10; ++guard)
    for (auto& [r, m] : rels) if (!m.base.empty() && !std::count(order.begin(), order.end(), r) && std::count(order.begin(), order.end(), m.base)) order.push_back(r);
  std::function<void(size_t, Facts)> go = [&](size_t k, Facts fa) {
    if (k == order.size()) { f(fa); return; }
    auto& m = rels.at(order[k]);
    std::vector<Items> ts;
    all_tuples(m.s.doms, n, [&](const Items& t) {
      if (!m.base.empty() && !fa[m.base].count(Items(t.begin(), t.begin() + rels.at(m.base).s.doms.size()))) return;
      ts.push_back(t);
    });
    auto vs = vals_of(m);
    std::function<void(size_t, VFacts)> add = [&](size_t from, VFacts cur) {
      Facts g = fa;
      g[order[k]] = cur;
      go(k + 1, g);
      if (int(cur.size()) >= max_per) return;
      for (size_t i = from; i < ts.size(); ++i) for (auto& v : vs) { VFacts c2 = cur; c2[ts[i]] = v; add(i + 1, c2); }
    };
    add(0, {});
  };
  go(0, {});
}
}  // namespace mdl
