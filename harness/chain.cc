// T01: sweeps over a model as transition kernels, computed exactly from every
// state by enumerating every outcome of every draw.
#include "hstates.hh"
#include "states.hh"
#undef exit

// A kernel over canonical states, with the weight of each state from scratch.
struct Chain {
  std::string label;
  std::map<std::string, int> id;
  std::vector<std::string> name;
  std::vector<double> lw;
  std::vector<std::map<std::string, double>> row;      // row[i]: where state i goes
  void add(const std::string& key, double w) { if (!id.count(key)) { id[key] = name.size(); name.push_back(key); lw.push_back(w); row.push_back({}); } }
  // pi K = pi over the whole state space, rows are laws, and (full) every state follows every state
  std::string check(bool full, std::string* where) {
    double z = lse(lw);
    std::map<std::string, double> out;
    for (size_t i = 0; i < row.size(); ++i) {
      double t = 0;
      for (auto& [k, p] : row[i]) {
        t += p;
        if (!id.count(k)) { *where = name[i]; return "a sweep leads to " + k + ", which is no state of this model"; }
        out[k] += std::exp(lw[i] - z) * p;
      }
      if (!close(t, 1.0, 1e-7)) { *where = name[i]; return "outcomes of one sweep have total probability " + num(t); }
      if (full) for (auto& n : name) if (!row[i].count(n) || row[i].at(n) <= 0) { *where = name[i]; return "one sweep cannot lead to " + n; }
    }
    for (size_t i = 0; i < row.size(); ++i) {
      double p = std::exp(lw[i] - z);
      if (!close(out[name[i]], p, 1e-7)) { *where = name[i]; return "its posterior probability is " + num(p) + ", one sweep from the posterior gives it " + num(out[name[i]]); }
    }
    return "";
  }
};
static bool only_changed(const Seats& a, const Seats& b, const std::string& d, int e) {
  for (auto& [dd, s] : a) for (auto& [i, t] : s) {
    if (!b.count(dd) || !b.at(dd).count(i)) return false;
    if ((b.at(dd).at(i) != t) != (dd == d && i == e)) return false;
  }
  return true;
}

// ---- relational model -----------------------------------------------------------------
static void t01_irm(const ICfg& c, double al, int stride) {
  auto in = all_names(c.rels);
  std::map<std::string, double> alpha;
  std::vector<std::string> doms;
  for (auto& [d, n] : c.ents) { alpha[d] = al; doms.push_back(d); }
  // sweeps: everything, one domain, two domains in either order
  std::vector<std::vector<std::string>> lists{{}};
  for (auto& d : doms) lists.push_back({d});
  if (doms.size() > 1) { lists.push_back({doms[0], doms[1]}); lists.push_back({doms[1], doms[0]}); }
  std::vector<Facts> all;
  std::map<int, std::vector<Seats>> seats;
  long k = 0;
  all_states(c, {1, 0, 3, 2}, stride, [&](const Seats& s, const Facts& f) {
    if (all.empty() || all.back() != f) all.push_back(f);
    seats[all.size() - 1].push_back(s);
  });
  for (size_t q = 0; q < all.size() && !too_many(); ++q) {
    auto& facts = all[q];
    for (size_t l = 0; l < lists.size(); ++l) {
      Chain ch;
      bool full = l == 0, bad = false;
      std::string what = l ? "a sweep over {" + join(lists[l]) + "}" : "a sweep over everything";
      for (auto& s : seats[q]) ch.add(canon(s), score_irm(c.rels, in, s, facts, alpha));
      std::map<std::pair<std::string, int>, bool> alone;
      for (auto& s : seats[q]) {
        std::string tr = c.name + ": alpha " + num(al) + " " + show_state(s, facts) + "; " + what;
        at(tr);
        ++S.states;
        auto& row = ch.row[ch.id[canon(s)]];
        for (auto& [d, x] : s) if (x.size() > 1) for (auto& [e, t] : x) alone[{d, e}];      // a lone entity has nowhere to go
        std::unique_ptr<IRM> m;
        std::string err = guarded([&] {
          enumerate(Opts(), [&] {
            if (m) m.reset();
            m = build_irm(c.rels, s, facts, alpha);
            if (l) m->transition_cluster_assignments(nullptr_prng(), lists[l]);
            else m->transition_cluster_assignments_all(nullptr_prng());
          }, [&](const Exec& x) {
            ++S.transitions;
            Seats s2 = seats_of(*m);
            row[canon(s2)] += x.prob;
            for (auto& [de, b] : alone) if (!b && x.prob > 0 && only_changed(s, s2, de.first, de.second)) b = true;
            if (l) for (auto& [d, y] : s) if (!std::count(lists[l].begin(), lists[l].end(), d) && s2[d] != y) violation("T01:" + c.name + ":other-domain", "entities of " + d + " moved", tr);
          });
        });
        if (!err.empty()) { violation("T01:" + c.name + ":error", err, tr); if (m) m.release(); bad = true; break; }
      }
      ++S.traces;
      if (bad) break;
      std::string where, e = ch.check(full, &where);
      if (!e.empty()) violation("T01:" + c.name + ":law", e, c.name + ": alpha " + num(al) + " " + show_state({}, facts) + " clustering " + where + "; " + what);
      for (auto& [de, b] : alone) {
        bool named = !l || std::count(lists[l].begin(), lists[l].end(), de.first);
        if (named && !b) violation("T01:" + c.name + ":entity-skipped", "from no state does the sweep move entity " + str(de.second) + " of " + de.first + " alone", c.name + ": " + show_state({}, facts) + "; " + what);
      }
    }
  }
  sample(c.name + " alpha " + num(al) + ": " + str(S.states) + " rows of kernels over " + str(all.size()) + " fact sets");
}

// ---- hierarchical model -----------------------------------------------------------------
static std::string canon_h(const std::map<std::string, int>& table, const std::map<int, Seats>& seat) {
  std::map<int, std::string> g;
  for (auto& [n, t] : table) g[t] += n + ",";
  std::set<std::string> out;
  for (auto& [t, n] : g) out.insert(n + (seat.count(t) ? canon(seat.at(t)) : ""));
  return join(out, " | ");
}
static double weight_h(const ICfg& c, const HState& w, double ca) {
  std::map<int, int> sz;
  std::map<int, std::set<std::string>> in;
  Seat rs;
  int i = 0;
  for (auto& [n, t] : w.table) { rs[i++] = t; in[t].insert(n); }
  double s = eppf(rs, ca);
  for (auto& [t, names] : in) s += score_irm(c.rels, names, w.seat.at(t), w.facts, {});
  return s;
}
// concentrations of entity clusterings stay at their default, as those of a fresh submodel are
static void t01_hirm(const ICfg& c, double ca, int stride, size_t max_states) {
  std::vector<std::string> rn;
  for (auto& [n, m] : c.rels) rn.push_back(n);
  std::vector<Facts> all;
  std::map<int, std::vector<HState>> hs;
  all_hstates(c, stride, 1, {0, 2, 1, 3}, [&](const HState& w) {
    if (all.empty() || all.back() != w.facts) all.push_back(w.facts);
    hs[all.size() - 1].push_back(w);
  });
  // one relation each, all of them, a list in reverse
  std::vector<std::vector<std::string>> lists{{}};
  for (auto& n : rn) lists.push_back({n});
  lists.push_back(std::vector<std::string>(rn.rbegin(), rn.rend()));
  size_t used = 0;
  for (size_t q = 0; q < all.size() && !too_many(); ++q) {
    if (hs[q].size() > max_states) { S.exhaustive = false; cap(c.name + ": fact sets with at most " + str(max_states) + " clusterings"); continue; }
    ++used;
    for (size_t l = 0; l < lists.size(); ++l) {
      bool single = l && lists[l].size() == 1;
      if (!single && rn.size() > 2 && hs[q].size() > (thorough() ? 24u : 12u)) { cap(c.name + ": sweeps over three relations with at most " + str(thorough() ? 24 : 12) + " clusterings"); S.exhaustive = false; continue; }
      Chain ch;
      bool bad = false;
      std::string what = !l ? "a sweep over all relations" : "a sweep over {" + join(lists[l]) + "}";
      for (auto& w : hs[q]) ch.add(canon_h(w.table, w.seat), weight_h(c, w, ca));
      std::map<std::string, bool> alone;
      for (auto& n : (l ? lists[l] : rn)) alone[n];
      for (auto& w : hs[q]) {
        std::string tr = c.name + ": alpha " + num(ca) + " " + show_h(w) + "; " + what;
        at(tr);
        ++S.states;
        auto& row = ch.row[ch.id[canon_h(w.table, w.seat)]];
        std::unique_ptr<HIRM> h;
        std::string err = guarded([&] {
          enumerate(Opts(), [&] {
            if (h) h.reset();
            h = build_hirm(c.rels, w, ca, 1.0);
            if (!l) h->transition_cluster_assignments_all(nullptr_prng());
            else if (single) h->transition_cluster_assignment_relation(nullptr_prng(), lists[l][0]);
            else h->transition_cluster_assignments(nullptr_prng(), lists[l]);
          }, [&](const Exec& x) {
            ++S.transitions;
            std::map<std::string, int> tab;
            std::map<int, Seats> st;
            for (auto& n : rn) tab[n] = h->relation_to_table(n);
            for (auto& [t, m] : h->irms) st[t] = seats_of(*m);
            row[canon_h(tab, st)] += x.prob;
            std::string moved;
            int k = 0;
            for (auto& n : rn) if (tab[n] != w.table.at(n)) { moved = n; ++k; }
            if (k == 1 && alone.count(moved)) alone[moved] = true;
            for (auto& n : rn) if (tab[n] != w.table.at(n) && !alone.count(n)) violation("T01:" + c.name + ":other-relation", n + " moved", tr);
          });
        });
        if (!err.empty()) { violation("T01:" + c.name + ":error", err, tr); if (h) h.release(); bad = true; break; }
      }
      ++S.traces;
      if (bad) break;
      std::string where, e = ch.check(false, &where);
      if (!e.empty()) violation("T01:" + c.name + ":law", e, c.name + ": alpha " + num(ca) + " " + show_state({}, all[q]) + " clustering " + where + "; " + what);
      for (auto& [n, b] : alone) if (!b) violation("T01:" + c.name + ":relation-skipped", "from no state does the sweep move relation " + n + " alone", c.name + ": " + show_state({}, all[q]) + "; " + what);
    }
  }
  sample(c.name + " alpha " + num(ca) + ": " + str(S.states) + " rows of kernels over " + str(used) + " fact sets");
}

// larger shapes, a few facts each
static std::vector<ICfg> wide() {
  std::vector<ICfg> c;
  c.push_back({"four entities, U(D),W(D)", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("W", "normal", {"D"}, 'd')}), {{"D", 4}}, 3, 4});
  c.push_back({"three by two, B(D,E),U(D)", mk({cr("B", "bernoulli", {"D", "E"}, 'b'), cr("U", "bernoulli", {"D"}, 'b')}), {{"D", 3}, {"E", 2}}, 3, 60});
  c.push_back({"three entities, S(D,D)", mk({cr("S", "bernoulli", {"D", "D"}, 'b')}), {{"D", 3}}, 4, 3});
  c.push_back({"three entities, T(D,D,D)", mk({cr("T", "bernoulli", {"D", "D", "D"}, 'b')}), {{"D", 3}}, 3, 60});
  return c;
}
static std::vector<ICfg> hwide() {
  std::vector<ICfg> c;
  c.push_back({"three entities, U(D),B(D,E)", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("B", "bernoulli", {"D", "E"}, 'b')}), {{"D", 3}, {"E", 1}}, 3, 8});
  c.push_back({"three entities, S(D,D),P(D)", mk({cr("S", "bernoulli", {"D", "D"}, 'b'), cr("P", "bernoulli", {"D"}, 'b')}), {{"D", 3}}, 3, 40});
  return c;
}
struct Reg {
  Reg() {
    for (auto& c : configs()) for (double al : {1.0, 2.5})
      add_shard("T01", c.name + " alpha " + num(al), [c, al] { t01_irm(c, al, c.stride); });
    for (auto& c : wide())
      add_shard("T01", c.name, [c] { t01_irm(c, 1.5, (thorough() ? 1 : 5) * c.stride); });
    for (auto& c : hconfigs()) for (double ca : {1.0, 2.5})
      add_shard("T01", "submodels of " + c.name + " alpha " + num(ca), [c, ca] { t01_hirm(c, ca, (thorough() ? 1 : 4) * c.stride, thorough() ? 100 : 40); });
    for (auto& c : hwide())
      add_shard("T01", "submodels of " + c.name, [c] { t01_hirm(c, 1.5, (thorough() ? 1 : 5) * c.stride, 120); });
  }
} reg;
