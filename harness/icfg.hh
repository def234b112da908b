// Model shapes explored by the model-level harnesses.
#pragma once
#include "irmw.hh"
#undef exit
using namespace vp;
using namespace mdl;

struct ICfg {
  std::string name;
  Rels rels;
  std::map<std::string, int> ents;
  int max_facts = 2;
  int stride = 1;          // quick tier: every stride-th fact set
};
static Rels mk(std::vector<MRel> v) { Rels r; for (auto& m : v) r[m.s.name] = m; return r; }
static std::vector<ICfg> configs() {
  std::vector<ICfg> c;
  c.push_back({"U(D),B(D,E) bool", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("B", "bernoulli", {"D", "E"}, 'b')}), {{"D", 2}, {"E", 2}}, 2, 1});
  c.push_back({"S(D,D) bool,W(D) real", mk({cr("S", "bernoulli", {"D", "D"}, 'b'), cr("W", "normal", {"D"}, 'd')}), {{"D", 3}}, 2, 3});
  c.push_back({"T(D,E,D) categorical", mk({cr("T", "categorical", {"D", "E", "D"}, 'i', {{"k", "3"}})}), {{"D", 2}, {"E", 2}}, 3, 1});
  c.push_back({"P(D) string,Q(E) real,R(D,E) categorical", mk({cr("P", "stringcat", {"D"}, 's', {{"strings", "a b"}}), cr("Q", "normal", {"E"}, 'd'), cr("R", "categorical", {"D", "E"}, 'i', {{"k", "3"}})}), {{"D", 2}, {"E", 2}}, 2, 5});
  c.push_back({"noisy M(D),N(D,E) over B(D) bool", mk({cr("B", "bernoulli", {"D"}, 'b', {}, false), nr("M", "sometimes_bitflip", {"D"}, "B", 'b'), nr("N", "sometimes_bitflip", {"D", "E"}, "B", 'b')}), {{"D", 2}, {"E", 2}}, 2, 3});
  c.push_back({"chain Z(D) <- B(D,E) <- A(D,E,F) bool", mk({cr("Z", "bernoulli", {"D"}, 'b', {}, false), nr("B", "sometimes_bitflip", {"D", "E"}, "Z", 'b'), nr("A", "sometimes_bitflip", {"D", "E", "F"}, "B", 'b')}), {{"D", 2}, {"E", 1}, {"F", 2}}, 2, 2});
  c.push_back({"noisy N(D,D) over B(D) real", mk({cr("B", "normal", {"D"}, 'd', {}, false), nr("N", "sometimes_gaussian", {"D", "D"}, "B", 'd')}), {{"D", 2}}, 2, 1});
  return c;
}
static T_schema schema_of(const Rels& r) { T_schema s; for (auto& [n, m] : r) s[n] = t_rel(m); return s; }
static std::set<std::string> all_names(const Rels& r) { std::set<std::string> s; for (auto& [n, m] : r) s.insert(n); return s; }
// bases first
static std::vector<std::string> dep_order(const Rels& rels, const std::set<std::string>& in) {
  std::vector<std::string> o;
  while (o.size() < in.size()) {
    size_t b = o.size();
    for (auto& n : in) if (!std::count(o.begin(), o.end(), n) && (rels.at(n).base.empty() || !in.count(rels.at(n).base) || std::count(o.begin(), o.end(), rels.at(n).base))) o.push_back(n);
    if (o.size() == b) break;
  }
  return o;
}
// every way three relations can name bases among themselves (or an absent one); ok says whether each leads to a clean relation
static void base_graphs(std::function<void(const Rels&, bool ok, const std::string&)> f) {
  std::vector<std::string> names = {"B", "A", "C"}, bases = {"", "A", "B", "C", "X"};
  for (int k = 0; k < 125; ++k) {
    std::vector<MRel> v;
    std::map<std::string, std::string> base;
    std::string label;
    for (int i = 0, q = k; i < 3; ++i, q /= 5) {
      base[names[i]] = bases[q % 5];
      label += names[i] + (base[names[i]].empty() ? "" : " over " + base[names[i]]) + "; ";
      v.push_back(base[names[i]].empty() ? cr(names[i], "bernoulli", {"D"}, 'b') : nr(names[i], "sometimes_bitflip", {"D"}, base[names[i]], 'b'));
    }
    bool ok = true;
    for (auto& n : names) { std::string x = n; for (int s = 0; s < 4 && base.count(x) && !base[x].empty(); ++s) x = base[x]; ok &= base.count(x) && base[x].empty(); }
    f(mk(v), ok, label);
  }
}
static std::string show_state(const Seats& s, const Facts& f) {
  std::string r;
  for (auto& [d, x] : s) r += d + "[" + show_seat(x) + "] ";
  for (auto& [n, x] : f) if (!x.empty()) r += n + "{" + show_facts(x) + "} ";
  return r;
}
