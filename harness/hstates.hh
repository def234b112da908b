// States of hierarchical models.
#pragma once
#include "hirmw.hh"
#undef exit

static std::vector<ICfg> hconfigs() {
  std::vector<ICfg> c;
  c.push_back({"U(D),B(D,E) bool", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("B", "bernoulli", {"D", "E"}, 'b')}), {{"D", 2}, {"E", 2}}, 2, 3});
  c.push_back({"U(D),V(D) bool,W(D) real", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("V", "bernoulli", {"D"}, 'b'), cr("W", "normal", {"D"}, 'd')}), {{"D", 2}}, 2, 6});
  c.push_back({"S(D,D) bool,P(D) string", mk({cr("S", "bernoulli", {"D", "D"}, 'b'), cr("P", "stringcat", {"D"}, 's', {{"strings", "a b"}})}), {{"D", 2}}, 2, 2});
  c.push_back({"noisy M(D),N(D,E) over B(D) bool", mk({cr("B", "bernoulli", {"D"}, 'b', {}, false), nr("M", "sometimes_bitflip", {"D"}, "B", 'b'), nr("N", "sometimes_bitflip", {"D", "E"}, "B", 'b')}), {{"D", 2}, {"E", 1}}, 2, 4});
  c.push_back({"chain Z(D) <- B(D,E) <- A(D,E,F) bool", mk({cr("Z", "bernoulli", {"D"}, 'b', {}, false), nr("B", "sometimes_bitflip", {"D", "E"}, "Z", 'b'), nr("A", "sometimes_bitflip", {"D", "E", "F"}, "B", 'b')}), {{"D", 2}, {"E", 1}, {"F", 1}}, 2, 4});
  c.push_back({"noisy N(D,D) over B(D) real", mk({cr("B", "normal", {"D"}, 'd', {}, false), nr("N", "sometimes_gaussian", {"D", "D"}, "B", 'd')}), {{"D", 2}}, 2, 2});
  return c;
}
static void all_hstates(const ICfg& c, int stride, int seat_stride, const std::vector<int>& names, std::function<void(const HState&)> f) {
  std::vector<int> idx;
  std::vector<std::string> rn;
  for (auto& [n, m] : c.rels) { idx.push_back(rn.size()); rn.push_back(n); }
  long k = 0, q = 0;
  if (stride > 1) { S.exhaustive = false; cap(c.name + ": every " + std::to_string(stride) + "th fact set, every " + std::to_string(seat_stride) + "th clustering"); }
  all_facts(c.rels, c.ents, c.max_facts, [&](const Facts& facts) {
    if (k++ % stride) return;
    all_seats(idx, {3, 0, 7, 1}, [&](const Seat& part) {
      HState w;
      w.facts = facts;
      std::map<int, std::set<std::string>> g;
      for (size_t i = 0; i < rn.size(); ++i) { w.table[rn[i]] = part.at(i); g[part.at(i)].insert(rn[i]); }
      std::vector<std::pair<int, std::string>> slots;
      std::map<std::pair<int, std::string>, std::vector<int>> es;
      for (auto& [t, in] : g) for (auto& [d, s] : entities(c.rels, in, facts)) { slots.push_back({t, d}); es[{t, d}] = std::vector<int>(s.begin(), s.end()); w.seat[t][d]; }
      std::function<void(size_t)> go = [&](size_t i) {
        if (too_many()) return;
        if (i == slots.size()) { if (q++ % seat_stride == 0) f(w); return; }
        all_seats(es[slots[i]], names, [&](const Seat& s) { w.seat[slots[i].first][slots[i].second] = s; go(i + 1); });
      };
      go(0);
    });
  });
}

