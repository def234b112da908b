// Reference checks of hierarchical models and construction of a given state.
#pragma once
#include "icfg.hh"
#include "hirm.hh"
#undef exit

static std::string check_hirm(HIRM& h, const Rels& rels, const std::set<std::string>& in, const Facts& facts, double tol = 1e-6) {
  std::set<std::string> a, b;
  for (auto& [n, r] : h.schema) a.insert(n);
  if (a != in) return "the schema lists {" + join(a) + "}, expected {" + join(in) + "}";
  for (auto& [n, c] : h.relation_to_code) {
    b.insert(n);
    if (!h.code_to_relation.count(c) || h.code_to_relation.at(c) != n) return "code of " + n + " does not lead back to it";
  }
  if (b != in) return "codes exist for {" + join(b) + "}, expected {" + join(in) + "}";
  if (h.code_to_relation.size() != in.size()) return "some code has no relation";
  Seat cs(h.crp.assignments.begin(), h.crp.assignments.end());
  if (cs.size() != in.size()) return std::to_string(cs.size()) + " relations are clustered, expected " + std::to_string(in.size());
  std::map<int, std::set<std::string>> groups;
  for (auto& n : in) {
    int c = h.relation_to_code.at(n);
    if (!cs.count(c)) return n + " is not clustered";
    groups[cs.at(c)].insert(n);
    if (h.relation_to_table(n) != cs.at(c)) return n + " reports the wrong cluster";
  }
  std::set<int> t1, t2, t3;
  for (auto& [t, m] : h.irms) t1.insert(t);
  for (auto& [t, g] : groups) t2.insert(t);
  for (auto& [t, g] : h.crp.tables) t3.insert(t);
  if (t1 != t2) return "submodels {" + join(t1) + "} exist for relation clusters {" + join(t2) + "}";
  if (t3 != t2) return "the relation clustering has tables {" + join(t3) + "}, in use are {" + join(t2) + "}";
  if (h.crp.N != int(in.size())) return "the relation clustering counts " + std::to_string(h.crp.N);
  double score = eppf(cs, h.crp.alpha);
  for (auto& [t, m] : h.irms) {
    std::string e = check_irm(*m, rels, groups.at(t), seats_of(*m), facts, tol);
    if (!e.empty()) return "submodel " + std::to_string(t) + " {" + join(groups.at(t)) + "}: " + e;
    score += m->logp_score();
  }
  for (auto& n : in) {
    if (h.relation_to_irm(n) != h.irms.at(cs.at(h.relation_to_code.at(n)))) return n + " is looked up in the wrong submodel";
    if (!(h.get_relation(n) == h.relation_to_irm(n)->relations.at(n))) return n + " is looked up wrongly";
    auto& m = rels.at(n);
    if (m.base.empty()) continue;
    std::string e = with_type(m.type, [&](auto tag) -> std::string {
      using T = decltype(tag);
      auto* nr = dynamic_cast<NoisyRelation<T>*>(std::get<Relation<T>*>(h.get_relation(n)));
      if (nr->base_relation != std::get<Relation<T>*>(h.get_relation(m.base))) return n + " reads a base relation that is not the live " + m.base;
      return "";
    });
    if (!e.empty()) return e;
  }
  std::map<std::string, std::set<std::string>> b2n, want;
  for (auto& [x, v] : h.base_to_noisy_relations) for (auto& r : v) b2n[x].insert(r);
  for (auto& n : in) if (!rels.at(n).base.empty()) want[rels.at(n).base].insert(n);
  if (b2n != want) {
    std::string s = "base relations do not list exactly the noisy relations that use them:";
    for (auto& [x, v] : b2n) s += " " + x + ":{" + join(v) + "}";
    return s;
  }
  double got = h.logp_score();
  if (!close(got, score, tol)) return "model score " + num(got) + ", relation clustering and submodels sum to " + num(score);
  return "";
}
// which relation sits where, with explicit entity clusters
struct HState { std::map<std::string, int> table; std::map<int, Seats> seat; Facts facts; };
static std::string show_h(const HState& w) {
  std::map<int, std::string> g;
  for (auto& [n, t] : w.table) g[t] += n;
  std::string s;
  for (auto& [t, x] : g) { s += "#" + std::to_string(t) + ":" + x + " "; if (w.seat.count(t)) for (auto& [d, q] : w.seat.at(t)) s += d + "[" + show_seat(q) + "]"; }
  for (auto& [n, f] : w.facts) if (!f.empty()) s += " " + n + "{" + show_facts(f) + "}";
  return s;
}
// a real model in exactly this state (no draws)
static std::unique_ptr<HIRM> build_hirm(const Rels& rels, const HState& w, double crp_alpha, double dom_alpha) {
  std::unique_ptr<HIRM> h;
  {
    Greedy g;
    h.reset(new HIRM(schema_of(rels), nullptr_prng()));
    // park every relation away from the target tables first
    int park = 50;
    for (auto& [n, t] : w.table) h->set_cluster_assignment_gibbs(nullptr_prng(), n, park++);
    for (auto& [n, t] : w.table) h->set_cluster_assignment_gibbs(nullptr_prng(), n, t);
    for (auto& [t, ss] : w.seat) for (auto& [d, s] : ss) for (auto& [e, tab] : s) if (h->irms.count(t) && h->irms.at(t)->domains.count(d)) h->irms.at(t)->domains.at(d)->incorporate(nullptr, e, tab);
    h->crp.alpha = crp_alpha;
    for (auto& [t, m] : h->irms) for (auto& [d, x] : m->domains) x->crp.alpha = dom_alpha;
    for (auto& n : dep_order(rels, all_names(rels))) if (w.facts.count(n)) for (auto& [it, v] : w.facts.at(n)) h->incorporate(nullptr_prng(), n, it, v);
  }
  return h;
}
