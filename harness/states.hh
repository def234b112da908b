// States of relational models.
#pragma once
#include "icfg.hh"

static std::unique_ptr<IRM> build_irm(const Rels& rels, const Seats& seat, const Facts& facts, const std::map<std::string, double>& alpha) {
  auto m = std::make_unique<IRM>(schema_of(rels));
  for (auto& [d, a] : alpha) if (m->domains.count(d)) m->domains.at(d)->crp.alpha = a;
  for (auto& [d, s] : seat) for (auto& [e, t] : s) m->domains.at(d)->incorporate(nullptr, e, t);
  for (auto& n : dep_order(rels, all_names(rels))) if (facts.count(n)) for (auto& [it, v] : facts.at(n)) m->incorporate(nullptr_prng(), n, it, v);
  return m;
}
// every (fact set, clustering) of a configuration
static void all_states(const ICfg& c, const std::vector<int>& names, int stride, std::function<void(const Seats&, const Facts&)> f) {
  long k = 0;
  if (stride > 1) { S.exhaustive = false; cap(c.name + ": every " + std::to_string(stride) + "th fact set"); }
  all_facts(c.rels, c.ents, c.max_facts, [&](const Facts& facts) {
    if (k++ % stride) return;
    auto es = entities(c.rels, all_names(c.rels), facts);
    std::vector<std::string> ds;
    for (auto& [d, s] : es) ds.push_back(d);
    std::function<void(size_t, Seats)> go = [&](size_t i, Seats s) {
      if (too_many()) return;
      if (i == ds.size()) { f(s, facts); return; }
      all_seats(std::vector<int>(es[ds[i]].begin(), es[ds[i]].end()), names, [&](const Seat& x) { Seats y = s; y[ds[i]] = x; go(i + 1, y); });
    };
    go(0, {});
  });
}

// hyperparameters enter the state (as the model's own score sees them)
static std::string hyper_of(IRM& m) {
  std::string s;
  std::map<std::string, double> r;
  for (auto& [d, x] : m.domains) r[d] = x->crp.alpha;
  for (auto& [n, x] : m.relations) r[n] = std::visit([](auto q) { return q->logp_score(); }, x);
  for (auto& [n, v] : r) s += n + "=" + num(std::round(v * 1e6) / 1e6) + " ";
  return s;
}
