// R01, R02, R03, N01, N02: relations and noisy relations.
#include "rel.hh"
#undef exit
using namespace vp;
using namespace mdl;

template <class T> struct Cfg {
  std::string name;
  std::vector<RSpec> rels;             // bases before the relations that use them
  std::map<std::string, int> ents;     // entities per domain
  std::vector<T> vals;
  bool split = false;                  // every relation has its own domain objects (separate submodels)
  int max_label = 2;
  size_t max_states = 4000;
  int max_facts = 3;
  int path_limit = 12;
};
struct Op { char k; int rel; Items items; int val; std::string dom; int ent, table; };
template <class T> struct World {
  std::vector<std::map<std::string, Seat>> seat;    // one entry, or one per relation
  std::vector<std::map<Items, T>> facts;            // per relation
  std::string key() const {
    std::string s;
    for (auto& m : seat) for (auto& [d, x] : m) s += d + ":" + show_seat(x) + ";";
    for (auto& f : facts) { s += "|"; for (auto& [i, v] : f) s += show_items(i) + "=" + show_v(v) + " "; }
    return s;
  }
};
template <class T> struct Sys {
  const Cfg<T>& c;
  std::vector<std::map<std::string, std::unique_ptr<Domain>>> doms;
  std::vector<Relation<T>*> rel;
  CleanRelation<T>* clean(int i) { return static_cast<CleanRelation<T>*>(rel[i]); }
  NoisyRelation<T>* noisy(int i) { return static_cast<NoisyRelation<T>*>(rel[i]); }
  explicit Sys(const Cfg<T>& c_) : c(c_) {
    doms.resize(c.split ? c.rels.size() : 1);
    for (size_t i = 0; i < c.rels.size(); ++i) {
      auto& r = c.rels[i];
      std::vector<Domain*> ds;
      for (auto& d : r.doms) {
        auto& p = doms[gi(i)][d];
        if (!p) p.reset(new Domain(d));
        ds.push_back(p.get());
      }
      if (r.base < 0) rel.push_back(new CleanRelation<T>(r.name, DistributionSpec(r.spec, r.args), ds));
      else rel.push_back(new NoisyRelation<T>(r.name, EmissionSpec(r.spec, r.args), ds, rel[r.base]));
    }
  }
  int gi(int i) const { return c.split ? i : 0; }
  ~Sys() { for (size_t i = rel.size(); i-- > 0;) delete rel[i]; }
  Sys(const Sys&) = delete;
  void apply(const Op& o) {
    switch (o.k) {
      case 'S': doms[o.rel].at(o.dom)->incorporate(nullptr, o.ent, o.table); break;
      case 'A': rel[o.rel]->incorporate(nullptr_prng(), o.items, c.vals[o.val]); break;
      case 'R': rel[o.rel]->unincorporate(o.items); break;
      case 'U': rel[o.rel]->update_value(o.items, c.vals[o.val]); break;
      case 'P': rel[o.rel]->unincorporate_from_cluster(o.items); rel[o.rel]->incorporate_to_cluster(o.items, T(rel[o.rel]->get_value(o.items))); break;
      case 'Q': rel[o.rel]->unincorporate_from_cluster(o.items); rel[o.rel]->cleanup_data(o.items); rel[o.rel]->cleanup_clusters(); break;
      case 'M': {
        Domain* d = doms[o.rel].at(o.dom).get();
        for (size_t i = 0; i < rel.size(); ++i)
          if (gi(i) == o.rel && std::count(c.rels[i].doms.begin(), c.rels[i].doms.end(), o.dom) && rel[i]->has_observation(*d, o.ent))
            rel[i]->set_cluster_assignment_gibbs(*d, o.ent, o.table, nullptr_prng());
        d->set_cluster_assignment_gibbs(o.ent, o.table);
        break;
      }
      case 'D': doms[o.rel].at(o.dom)->unincorporate(o.ent); break;
    }
  }
  void dispatch(const Op& o, World<T>& w) {
    switch (o.k) {
      case 'S': w.seat[o.rel][o.dom][o.ent] = o.table; break;
      case 'A': case 'U': w.facts[o.rel][o.items] = c.vals[o.val]; break;
      case 'R': case 'Q': w.facts[o.rel].erase(o.items); break;
      case 'M': w.seat[o.rel][o.dom][o.ent] = o.table; break;
      case 'D': w.seat[o.rel][o.dom].erase(o.ent); break;
    }
  }
};
static std::string show_op(const Op& o, const std::string& rn) {
  switch (o.k) {
    case 'S': return "seat(" + o.dom + (o.rel ? "#" + std::to_string(o.rel) : "") + "," + std::to_string(o.ent) + ")@" + std::to_string(o.table);
    case 'A': return rn + ".add" + show_items(o.items) + "=v" + std::to_string(o.val);
    case 'R': return rn + ".remove" + show_items(o.items);
    case 'U': return rn + ".update" + show_items(o.items) + "=v" + std::to_string(o.val);
    case 'P': return rn + ".out-and-in" + show_items(o.items);
    case 'Q': return rn + ".withdraw" + show_items(o.items);
    case 'M': return "move(" + o.dom + (o.rel ? "#" + std::to_string(o.rel) : "") + "," + std::to_string(o.ent) + ")@" + std::to_string(o.table);
    default: return "unseat(" + o.dom + "," + std::to_string(o.ent) + ")";
  }
}
template <class T> std::string check(Sys<T>& s, const World<T>& w) {
  for (size_t g = 0; g < s.doms.size(); ++g)
    for (auto& [n, d] : s.doms[g]) {
      std::string e = check_domain(*d, w.seat[g].at(n));
      if (!e.empty()) return e;
    }
  for (size_t i = 0; i < s.rel.size(); ++i) {
    auto& sp = s.c.rels[i];
    auto& seat = w.seat[s.gi(i)];
    std::string e;
    if (sp.base < 0) e = check_clean<T>(*s.clean(i), sp, seat, w.facts[i]);
    else e = check_noisy<T>(*s.noisy(i), sp, seat, w.facts[i], w.facts[sp.base]);
    if (!e.empty()) return e;
    // the query interface
    for (auto& [it, v] : w.facts[i]) {
      if (!(s.rel[i]->get_value(it) == v)) return sp.name + show_items(it) + " reads back as " + show_v(s.rel[i]->get_value(it));
      Items z;
      for (size_t k = 0; k < it.size(); ++k) z.push_back(seat.at(sp.doms[k]).at(it[k]));
      if (s.rel[i]->get_cluster_assignment(it) != z) return sp.name + show_items(it) + " reports the wrong cell";
      if (!s.rel[i]->clusters_contains(it)) return sp.name + show_items(it) + ": its cell is reported missing";
    }
    if (s.rel[i]->get_data().size() != w.facts[i].size()) return sp.name + " reports a wrong number of facts";
    for (auto& [dn, st] : seat) {
      if (!s.doms[s.gi(i)].count(dn) || !std::count(sp.doms.begin(), sp.doms.end(), dn)) continue;
      for (auto& [e2, t] : st) {
        bool want = false;
        for (auto& [it, v] : w.facts[i]) for (size_t k = 0; k < it.size(); ++k) want |= sp.doms[k] == dn && it[k] == e2;
        if (s.rel[i]->has_observation(*s.doms[s.gi(i)].at(dn), e2) != want) return sp.name + ": has_observation(" + dn + "," + std::to_string(e2) + ") is wrong";
      }
    }
  }
  return "";
}
template <class T> World<T> empty_world(const Cfg<T>& c) {
  World<T> w;
  w.seat.resize(c.split ? c.rels.size() : 1);
  w.facts.resize(c.rels.size());
  for (size_t i = 0; i < c.rels.size(); ++i) for (auto& d : c.rels[i].doms) w.seat[c.split ? i : 0][d];
  return w;
}
static void tuples(const std::vector<std::string>& doms, const std::map<std::string, int>& ents, std::function<void(const Items&)> f) {
  Items t(doms.size(), 0);
  for (;;) {
    f(t);
    size_t k = 0;
    while (k < t.size() && ++t[k] == ents.at(doms[k])) t[k++] = 0;
    if (k == t.size()) break;
  }
}
template <class T> std::vector<Op> ops_of(const Cfg<T>& c, const World<T>& w, bool pairs_only_leaf = true) {
  std::vector<Op> out;
  int groups = w.seat.size();
  for (int g = 0; g < groups; ++g)
    for (auto& [d, st] : w.seat[g]) {
      int n = c.ents.at(d);
      std::set<int> tb = tables(st);
      tb.insert(std::min(fresh_table(st), c.max_label));
      for (int e = 0; e < n; ++e) {
        if (!st.count(e)) { for (int t : tb) out.push_back({'S', g, {}, 0, d, e, t}); continue; }
        for (int t : tb) if (t != st.at(e)) out.push_back({'M', g, {}, 0, d, e, t});
        bool used = false;
        for (size_t i = 0; i < c.rels.size(); ++i) {
          if ((c.split ? int(i) : 0) != g) continue;
          for (auto& [it, v] : w.facts[i]) for (size_t k = 0; k < it.size(); ++k) used |= c.rels[i].doms[k] == d && it[k] == e;
        }
        if (!used) out.push_back({'D', g, {}, 0, d, e, 0});
      }
    }
  for (size_t i = 0; i < c.rels.size(); ++i) {
    auto& r = c.rels[i];
    bool is_base = false;
    for (auto& q : c.rels) is_base |= q.base == int(i);
    auto& seat = w.seat[c.split ? i : 0];
    tuples(r.doms, c.ents, [&](const Items& it) {
      bool has = w.facts[i].count(it);
      if (!has) {
        if (int(w.facts[i].size()) >= c.max_facts) return;
        for (size_t k = 0; k < it.size(); ++k) if (!seat.at(r.doms[k]).count(it[k])) return;   // seated first, by 'S'
        if (r.base >= 0 && !w.facts[r.base].count(Items(it.begin(), it.begin() + c.rels[r.base].doms.size()))) return;
        for (size_t v = 0; v < c.vals.size(); ++v) out.push_back({'A', int(i), it, int(v), "", 0, 0});
        return;
      }
      bool needed = false;   // some noisy fact reads this one
      for (size_t j = 0; j < c.rels.size(); ++j)
        if (c.rels[j].base == int(i)) for (auto& [q, v] : w.facts[j]) needed |= Items(q.begin(), q.begin() + it.size()) == it;
      out.push_back({'P', int(i), it, 0, "", 0, 0});
      if (needed) return;
      out.push_back({'R', int(i), it, 0, "", 0, 0});
      out.push_back({'Q', int(i), it, 0, "", 0, 0});
      for (size_t v = 0; v < c.vals.size(); ++v) if (!(c.vals[v] == w.facts[i].at(it))) out.push_back({'U', int(i), it, int(v), "", 0, 0});
    });
  }
  return out;
}
// Explicit-state exploration. Every transition out of every reached state is run
// on the real objects (rebuilt along the state's path) and compared.
template <class T>
void explore(const Cfg<T>& c, const std::string& prop, bool check_transitions,
             std::function<void(Sys<T>&, const World<T>&, const std::string&, const std::vector<Op>&)> at_state) {
  struct Node { World<T> w; std::vector<Op> path; };
  std::deque<Node> q;
  std::set<std::string> seen;
  World<T> w0 = empty_world(c);
  q.push_back({w0, {}});
  seen.insert(w0.key());
  size_t cap_states = c.max_states * (thorough() ? 40 : 5);
  bool capped = false;
  auto trace = [&](const std::vector<Op>& p) {
    std::string s = c.name + ":";
    for (auto& o : p) s += " " + show_op(o, c.rels[o.k == 'S' || o.k == 'M' || o.k == 'D' ? 0 : o.rel].name);
    return s;
  };
  auto run = [&](const std::vector<Op>& p, std::string* err) {
    auto s = std::make_unique<Sys<T>>(c);
    *err = guarded([&] { for (auto& o : p) s->apply(o); });
    return s;
  };
  while (!q.empty() && !too_many()) {
    Node n = std::move(q.front());
    q.pop_front();
    ++S.states;
    std::string tr = trace(n.path), err;
    at(tr);
    if (at_state) {
      auto s = run(n.path, &err);
      if (err.empty()) at_state(*s, n.w, tr, n.path); else violation(prop + ":" + c.name + ":error", err, tr);
    }
    for (auto& o : ops_of(c, n.w)) {
      World<T> w = n.w;
      std::vector<Op> p = n.path;
      p.push_back(o);
      {
        Sys<T>* dummy = nullptr; (void)dummy;
        switch (o.k) {
          case 'S': case 'M': w.seat[o.rel][o.dom][o.ent] = o.table; break;
          case 'A': case 'U': w.facts[o.rel][o.items] = c.vals[o.val]; break;
          case 'R': case 'Q': w.facts[o.rel].erase(o.items); break;
          case 'D': w.seat[o.rel][o.dom].erase(o.ent); break;
        }
      }
      if (check_transitions) {
        std::string t2 = trace(p);
        at(t2);
        auto s = run(p, &err);
        ++S.transitions;
        std::string e = err.empty() ? check(*s, w) : err;
        if (!e.empty()) { violation(prop + ":" + c.name + ":" + o.k, e, t2); s.release(); continue; }
      }
      if (seen.size() >= cap_states) { capped = true; continue; }
      if (int(p.size()) > c.path_limit) { capped = true; continue; }
      if (seen.insert(w.key()).second) q.push_back({w, p});
    }
    ++S.traces;
  }
  sample(c.name + ": " + std::to_string(seen.size()) + " states" + (capped ? " (cut by the state limit)" : " (all)"));
  if (capped) { cap(c.name + ": first " + std::to_string(seen.size()) + " states in breadth-first order"); S.exhaustive = false; }
}

// ---- configurations -----------------------------------------------------------
static RSpec clean_spec(const std::string& n, const std::string& sp, std::vector<std::string> d, std::map<std::string, std::string> a = {}) { return {n, sp, a, d, -1}; }
static RSpec noisy_spec(const std::string& n, const std::string& sp, std::vector<std::string> d, int base, std::map<std::string, std::string> a = {}) { return {n, sp, a, d, base}; }
static Cfg<bool> c_unary() { return {"bool D", {clean_spec("R", "bernoulli", {"D"})}, {{"D", 3}}, {false, true}, false, 2, 3000, 3}; }
static Cfg<bool> c_binary() { return {"bool D,E", {clean_spec("R", "bernoulli", {"D", "E"})}, {{"D", 2}, {"E", 2}}, {false, true}, false, 1, 3000, 4}; }
static Cfg<bool> c_self() { return {"bool D,D", {clean_spec("R", "bernoulli", {"D", "D"})}, {{"D", 3}}, {false, true}, false, 2, 2500, 3}; }
static Cfg<double> c_normal_self() { return {"normal D,D", {clean_spec("R", "normal", {"D", "D"})}, {{"D", 2}}, {1.5, -2}, false, 1, 2500, 4}; }
static Cfg<int> c_ternary() { return {"categorical D,E,D", {clean_spec("R", "categorical", {"D", "E", "D"}, {{"k", "3"}})}, {{"D", 2}, {"E", 2}}, {0, 2}, false, 1, 2500, 3}; }
static Cfg<std::string> c_string() { return {"stringcat D,E", {clean_spec("R", "stringcat", {"D", "E"}, {{"strings", "a b"}})}, {{"D", 2}, {"E", 2}}, {"a", "b"}, false, 1, 2000, 3}; }
static Cfg<bool> n_same() { return {"noisy bool D over D", {clean_spec("B", "bernoulli", {"D"}), noisy_spec("N", "sometimes_bitflip", {"D"}, 0)}, {{"D", 2}}, {false, true}, false, 1, 2500, 2}; }
static Cfg<bool> n_larger() { return {"noisy bool D,E over D", {clean_spec("B", "bernoulli", {"D"}), noisy_spec("N", "sometimes_bitflip", {"D", "E"}, 0)}, {{"D", 2}, {"E", 2}}, {false, true}, false, 1, 3000, 3}; }
static Cfg<double> n_gauss() { return {"noisy real D,E over D", {clean_spec("B", "normal", {"D"}), noisy_spec("N", "sometimes_gaussian", {"D", "E"}, 0), noisy_spec("M", "gaussian", {"D"}, 0)}, {{"D", 2}, {"E", 2}}, {0, 1.5}, false, 1, 3000, 2}; }
static Cfg<bool> n_chain() { return {"chain bool D <- D,E <- D,E,F", {clean_spec("B", "bernoulli", {"D"}), noisy_spec("N", "sometimes_bitflip", {"D", "E"}, 0), noisy_spec("O", "sometimes_bitflip", {"D", "E", "F"}, 1)}, {{"D", 1}, {"E", 2}, {"F", 2}}, {false, true}, false, 1, 3000, 2}; }
static Cfg<double> n_split() { return {"noisy real in a separate submodel", {clean_spec("B", "normal", {"D"}), noisy_spec("N", "sometimes_gaussian", {"D", "E"}, 0)}, {{"D", 2}, {"E", 1}}, {0, 1.5}, true, 1, 3000, 2}; }
static Cfg<bool> n_self() { return {"noisy bool D,D over D", {clean_spec("B", "bernoulli", {"D"}), noisy_spec("N", "sometimes_bitflip", {"D", "D"}, 0)}, {{"D", 2}}, {false, true}, false, 1, 2500, 3}; }
// every way the dimensions of a relation can share domains: D, DD, DE, DDD, DDE, ...
static std::vector<std::vector<std::string>> patterns(int lo, int hi) {
  std::vector<std::vector<std::string>> out;
  std::function<void(std::vector<int>)> go = [&](std::vector<int> p) {
    if (int(p.size()) >= lo) { std::vector<std::string> d; for (int x : p) d.push_back(std::string(1, char('D' + x))); out.push_back(d); }
    if (int(p.size()) == hi) return;
    int m = -1;
    for (int x : p) m = std::max(m, x);
    for (int x = 0; x <= m + 1; ++x) { auto q = p; q.push_back(x); go(q); }
  };
  go({});
  return out;
}
static std::string joined(const std::vector<std::string>& d) { std::string s; for (auto& x : d) s += (s.empty() ? "" : ",") + x; return s; }
static std::vector<Cfg<bool>> clean_patterns() {
  std::vector<Cfg<bool>> out;
  for (auto& d : patterns(3, thorough() ? 4 : 3)) {
    std::map<std::string, int> n;
    for (auto& x : d) n[x] = 2;
    out.push_back({"pattern " + joined(d), {clean_spec("R", "bernoulli", d)}, n, {false, true}, false, 1, thorough() ? 3000 : 1500, 2});
  }
  return out;
}
static std::vector<Cfg<bool>> noisy_patterns() {
  std::vector<Cfg<bool>> out;
  for (auto& d : patterns(2, 3))
    for (size_t b = 1; b < d.size(); ++b) {
      std::map<std::string, int> n;
      for (auto& x : d) n[x] = 2;
      std::vector<std::string> bd(d.begin(), d.begin() + b);
      out.push_back({"pattern " + joined(d) + " over " + joined(bd), {clean_spec("B", "bernoulli", bd), noisy_spec("N", "sometimes_bitflip", d, 0)}, n, {false, true}, false, 1, thorough() ? 3000 : 1500, 2});
    }
  return out;
}
template <class F> void clean_cfgs(F f) { f(c_unary()); f(c_binary()); f(c_self()); f(c_normal_self()); f(c_ternary()); f(c_string()); for (auto& c : clean_patterns()) f(c); }
template <class F> void noisy_cfgs(F f) { f(n_same()); f(n_larger()); f(n_gauss()); f(n_chain()); f(n_split()); f(n_self()); for (auto& c : noisy_patterns()) f(c); }

// plain histories without state merging: hidden state would show up here
template <class T> void histories(const Cfg<T>& c, const std::string& prop, int depth) {
  std::vector<Op> path;
  std::function<void(const World<T>&, int)> go = [&](const World<T>& w, int left) {
    if (too_many()) return;
    std::string tr = c.name + ":";
    for (auto& o : path) tr += " " + show_op(o, c.rels[o.k == 'S' || o.k == 'M' || o.k == 'D' ? 0 : o.rel].name);
    at(tr);
    if (left == 0) {
      Sys<T>* s = new Sys<T>(c);
      ++S.traces; ++S.transitions;
      std::string e = guarded([&] { for (auto& o : path) s->apply(o); });
      if (e.empty()) e = check(*s, w);
      if (!e.empty()) { violation(prop + ":" + c.name + ":history", e, tr); return; }
      delete s;
      return;
    }
    for (auto& o : ops_of(c, w)) {
      World<T> x = w;
      switch (o.k) {
        case 'S': case 'M': x.seat[o.rel][o.dom][o.ent] = o.table; break;
        case 'A': case 'U': x.facts[o.rel][o.items] = c.vals[o.val]; break;
        case 'R': case 'Q': x.facts[o.rel].erase(o.items); break;
        case 'D': x.seat[o.rel][o.dom].erase(o.ent); break;
      }
      path.push_back(o);
      go(x, left - 1);
      path.pop_back();
    }
  };
  // from a loaded state: everything seated at one table per domain, two facts
  World<T> w = empty_world(c);
  for (size_t g = 0; g < w.seat.size(); ++g)
    for (auto& [d, st] : w.seat[g]) for (int e = 0; e < c.ents.at(d); ++e) { path.push_back({'S', int(g), {}, 0, d, e, 0}); st[e] = 0; }
  for (size_t i = 0; i < c.rels.size(); ++i) {
    int k = 0;
    tuples(c.rels[i].doms, c.ents, [&](const Items& it) {
      if (k >= 2) return;
      if (c.rels[i].base >= 0 && !w.facts[c.rels[i].base].count(Items(it.begin(), it.begin() + c.rels[c.rels[i].base].doms.size()))) return;
      path.push_back({'A', int(i), it, k % 2, "", 0, 0});
      w.facts[i][it] = c.vals[k % 2];
      ++k;
    });
  }
  go(w, depth);
}

// ---- R02 ---------------------------------------------------------------------------
// the fast approximation: each fact on its own, against the other facts of the target cell
template <class T> double approx_ref(const RSpec& sp, const std::map<std::string, Seat>& seat, const std::map<Items, T>& facts, const std::string& dn, int e, int t) {
  auto cell = [&](const Items& i, bool moved) {
    Items z;
    for (size_t k = 0; k < i.size(); ++k) z.push_back(moved && sp.doms[k] == dn && i[k] == e ? t : seat.at(sp.doms[k]).at(i[k]));
    return z;
  };
  double s = 0;
  for (auto& [i, v] : facts) {
    bool has = false;
    for (size_t k = 0; k < i.size(); ++k) has |= sp.doms[k] == dn && i[k] == e;
    if (!has) continue;
    std::vector<T> vals;
    for (auto& [j, u] : facts) if (j != i && cell(j, false) == cell(i, true)) vals.push_back(u);
    s += dist_of<T>(sp, vals)->logp(v);
  }
  return s;
}
template <class T> void r02_at(const Cfg<T>& c, Sys<T>& s, const World<T>& w, const std::string& tr) {
  for (size_t g = 0; g < s.doms.size(); ++g)
    for (auto& [dn, d] : s.doms[g])
      for (auto& [e, t0] : w.seat[g].at(dn)) {
        std::vector<int> tabs;
        for (auto& [t, wt] : d->tables_weights_gibbs(e)) tabs.push_back(t);
        // any order, and tables nobody sits at
        std::reverse(tabs.begin(), tabs.end());
        for (size_t i = 0; i < s.rel.size(); ++i) {
          if (s.gi(i) != int(g) || !std::count(c.rels[i].doms.begin(), c.rels[i].doms.end(), dn)) continue;
          if (!s.rel[i]->has_observation(*d, e)) continue;
          auto& sp = c.rels[i];
          auto truth = [&](int t) {
            auto seat = w.seat[g];
            seat[dn][e] = t;
            return sp.base < 0 ? score_clean<T>(sp, seat, w.facts[i])
                               : score_clean<std::pair<T, T>>(sp, seat, pairs_of(w.facts[sp.base], w.facts[i]));
          };
          std::vector<double> lp;
          std::string err = guarded([&] { lp = s.rel[i]->logp_gibbs_exact(*d, e, tabs, nullptr_prng()); });
          ++S.transitions;
          std::string q = tr + " ; " + sp.name + ": move " + dn + " " + std::to_string(e);
          if (!err.empty()) { violation("R02:" + c.name + ":error", err, q); return; }
          if (lp.size() != tabs.size()) { violation("R02:" + c.name + ":count", "one score per table expected", q); return; }
          for (size_t k = 1; k < tabs.size(); ++k) {
            double got = lp[k] - lp[0], want = truth(tabs[k]) - truth(tabs[0]);
            if (!close(got, want, 1e-7)) violation("R02:" + c.name + ":score", "table " + std::to_string(tabs[k]) + " against table " + std::to_string(tabs[0]) + ": reported " + num(got) + ", true " + num(want), q);
          }
          for (size_t k = 0; k < tabs.size(); ++k) {
            double got = sp.base < 0 ? s.clean(i)->logp_gibbs_approx(*d, e, tabs[k], nullptr_prng()) : s.noisy(i)->logp_gibbs_approx(*d, e, tabs[k], nullptr_prng());
            double want = sp.base < 0 ? approx_ref<T>(sp, w.seat[g], w.facts[i], dn, e, tabs[k])
                                      : approx_ref<std::pair<T, T>>(sp, w.seat[g], pairs_of(w.facts[sp.base], w.facts[i]), dn, e, tabs[k]);
            if (!close(got, want, 1e-7)) violation("R02:" + c.name + ":approximate", "table " + std::to_string(tabs[k]) + ": approximate score " + num(got) + ", fact by fact " + num(want), q);
          }
          std::string e2 = check(s, w);
          if (!e2.empty()) violation("R02:" + c.name + ":changes-state", e2, q);
        }
      }
}
// many observations per cell and non-default hyperparameters
template <class T> void r02_big(Cfg<T> c, int reps) {
  int n = 6;
  for (auto& [d, k] : c.ents) k = n;
  for (int shift = 0; shift < (thorough() ? 12 : 6); ++shift)
    for (int hyp = 0; hyp < 2; ++hyp) {
      Sys<T> s(c);
      World<T> w = empty_world(c);
      for (size_t g = 0; g < w.seat.size(); ++g)
        for (auto& [d, st] : w.seat[g]) for (int e = 0; e < n; ++e) { int t = ((e * (shift + 1)) / 2) % 3; s.apply({'S', int(g), {}, 0, d, e, t}); st[e] = t; }
      int k = 0;
      for (size_t i = 0; i < c.rels.size(); ++i)
        tuples(c.rels[i].doms, c.ents, [&](const Items& it) {
          if ((++k * 7 + shift) % 5 > 2) return;
          if (c.rels[i].base >= 0 && !w.facts[c.rels[i].base].count(Items(it.begin(), it.begin() + c.rels[c.rels[i].base].doms.size()))) return;
          int v = (k + shift) % c.vals.size();
          s.apply({'A', int(i), it, v, "", 0, 0});
          w.facts[i][it] = c.vals[v];
        });
      std::string tr = c.name + ": " + std::to_string(n) + " entities per domain, pattern " + std::to_string(shift);
      at(tr);
      ++S.states;
      if (hyp) continue;
      r02_at(c, s, w, tr);
      (void)reps;
    }
}

// ---- R03 ---------------------------------------------------------------------------
template <class T> void r03_at(const Cfg<T>& c, Sys<T>& s, const World<T>& w, const std::string& tr) {
  for (size_t i = 0; i < s.rel.size(); ++i) {
    auto& sp = c.rels[i];
    auto& seat = w.seat[s.gi(i)];
    auto ents = c.ents;
    for (auto& [d, n] : ents) n += 1;     // one entity that is never seated
    for (double alpha : {1.0, 2.5}) {
      for (auto& [dn, d] : s.doms[s.gi(i)]) d->crp.alpha = alpha;
      tuples(sp.doms, ents, [&](const Items& it) {
        if (w.facts[i].count(it)) return;
        std::map<std::string, std::set<int>> unseen;
        int slots = 0;
        for (size_t k = 0; k < it.size(); ++k) if (!seat.at(sp.doms[k]).count(it[k])) { unseen[sp.doms[k]].insert(it[k]); ++slots; }
        for (auto& [d, u] : unseen) {
          size_t used = 0;
          for (size_t k = 0; k < it.size(); ++k) used += sp.doms[k] == d && u.count(it[k]);
          if (used > 1) return;    // two unseen slots of one domain: outside the property
        }
        T bv{};
        if (sp.base >= 0) {
          Items b(it.begin(), it.begin() + c.rels[sp.base].doms.size());
          if (!w.facts[sp.base].count(b)) return;
          bv = w.facts[sp.base].at(b);
        }
        std::string q = tr + " ; alpha " + num(alpha) + " logp of " + sp.name + show_items(it);
        double total = 0;
        for (T v : Vals<T>::v()) {
          // reference mixture
          std::vector<double> terms;
          std::function<void(size_t, Items, double)> go = [&](size_t k, Items z, double lw) {
            if (k == it.size()) {
              double lp;
              if (sp.base < 0) {
                std::vector<T> cell;
                for (auto& [f, x] : w.facts[i]) { Items zz; for (size_t m = 0; m < f.size(); ++m) zz.push_back(seat.at(sp.doms[m]).at(f[m])); if (zz == z) cell.push_back(x); }
                lp = dist_of<T>(sp, cell)->logp(v);
              } else {
                std::vector<std::pair<T, T>> cell;
                for (auto& [f, x] : pairs_of(w.facts[sp.base], w.facts[i])) { Items zz; for (size_t m = 0; m < f.size(); ++m) zz.push_back(seat.at(sp.doms[m]).at(f[m])); if (zz == z) cell.push_back(x); }
                lp = dist_of<std::pair<T, T>>(sp, cell)->logp({bv, v});
              }
              terms.push_back(lw + lp);
              return;
            }
            auto& st = seat.at(sp.doms[k]);
            if (st.count(it[k])) { Items y = z; y.push_back(st.at(it[k])); go(k + 1, y, lw); return; }
            std::map<int, int> sz;
            for (auto& [e, t] : st) ++sz[t];
            for (auto& [t, n] : sz) { Items y = z; y.push_back(t); go(k + 1, y, lw + std::log(n / (st.size() + alpha))); }
            Items y = z; y.push_back(-77); go(k + 1, y, lw + std::log(alpha / (st.size() + alpha)));
          };
          go(0, {}, 0);
          double want = lse(terms), got = 0;
          std::string err = guarded([&] { got = s.rel[i]->logp(it, v, nullptr_prng()); });
          ++S.transitions;
          if (!err.empty()) { violation("R03:" + c.name + ":error", err, q); return; }
          if (!close(got, want, 1e-7)) { violation("R03:" + c.name + ":logp", show_v(v) + ": " + num(got) + ", the mixture is " + num(want), q); return; }
          total += std::exp(got);
          // known cell: the cell-wise query agrees
          if (!slots && sp.base < 0) {
            double a = s.rel[i]->cluster_or_prior_logp_from_items(nullptr_prng(), it, v);
            if (!close(a, want, 1e-7)) violation("R03:" + c.name + ":cell", "the cell query gives " + num(a) + ", expected " + num(want), q);
            Items z;
            for (size_t m = 0; m < it.size(); ++m) z.push_back(seat.at(sp.doms[m]).at(it[m]));
            double b = s.rel[i]->cluster_or_prior_logp(nullptr_prng(), z, v);
            if (!close(b, want, 1e-7)) violation("R03:" + c.name + ":cell", "the cell query gives " + num(b) + ", expected " + num(want), q);
          } else if (!slots) {
            double a = s.rel[i]->cluster_or_prior_logp_from_items(nullptr_prng(), it, v);
            if (!close(a, want, 1e-7)) violation("R03:" + c.name + ":cell", "the cell query gives " + num(a) + ", expected " + num(want), q);
          }
        }
        if (!std::is_same_v<T, double> && !close(total, 1, 1e-7)) violation("R03:" + c.name + ":sum", "probabilities of all values sum to " + num(total), q);
      });
    }
    for (auto& [dn, d] : s.doms[s.gi(i)]) d->crp.alpha = 1;
  }
  std::string e = check(s, w);
  if (!e.empty()) violation("R03:" + c.name + ":changes-state", e, tr);
}

// ---- drawn facts (N01, R01) ----------------------------------------------------------
template <class T> void drawn_at(const Cfg<T>& c, Sys<T>&, const World<T>& w, const std::string& tr, const std::vector<Op>& path, const std::string& prop) {
  if constexpr (!std::is_same_v<T, double>)
    for (size_t i = 0; i < c.rels.size(); ++i) {
      auto& sp = c.rels[i];
      auto& seat = w.seat[c.split ? i : 0];
      tuples(sp.doms, c.ents, [&](const Items& it) {
        if (w.facts[i].count(it)) return;
        for (size_t k = 0; k < it.size(); ++k) if (!seat.at(sp.doms[k]).count(it[k])) return;
        if (sp.base >= 0 && !w.facts[sp.base].count(Items(it.begin(), it.begin() + c.rels[sp.base].doms.size()))) return;
        std::map<std::string, double> got, law;
        std::unique_ptr<Sys<T>> s;
        T v{};
        std::string q = tr + " ; draw " + sp.name + show_items(it);
        at(q);
        std::string err = guarded([&] {
          enumerate(Opts(), [&] {
            s.reset(new Sys<T>(c));
            for (auto& o : path) s->apply(o);
            v = s->rel[i]->sample_and_incorporate(nullptr_prng(), it);
          }, [&](const Exec& x) {
            ++S.transitions;
            got[show_v(v)] += x.prob;
            World<T> w2 = w;
            w2.facts[i][it] = v;
            std::string e = check(*s, w2);
            if (!e.empty()) violation(prop + ":" + c.name + ":drawn", e, q + " -> " + show_v(v));
          });
        });
        if (!err.empty()) { violation(prop + ":" + c.name + ":drawn-error", err, q); return; }
        if (sp.base < 0) {
          Items z;
          for (size_t m = 0; m < it.size(); ++m) z.push_back(seat.at(sp.doms[m]).at(it[m]));
          std::vector<T> cell;
          for (auto& [f, x] : w.facts[i]) { Items zz; for (size_t m = 0; m < f.size(); ++m) zz.push_back(seat.at(sp.doms[m]).at(f[m])); if (zz == z) cell.push_back(x); }
          for (T x : Vals<T>::v()) law[show_v(x)] = std::exp(dist_of<T>(sp, cell)->logp(x));
        } else {
          T bv = w.facts[sp.base].at(Items(it.begin(), it.begin() + c.rels[sp.base].doms.size()));
          Items z;
          for (size_t m = 0; m < it.size(); ++m) z.push_back(seat.at(sp.doms[m]).at(it[m]));
          std::vector<std::pair<T, T>> cell;
          for (auto& [f, x] : pairs_of(w.facts[sp.base], w.facts[i])) { Items zz; for (size_t m = 0; m < f.size(); ++m) zz.push_back(seat.at(sp.doms[m]).at(f[m])); if (zz == z) cell.push_back(x); }
          for (T x : Vals<T>::v()) law[show_v(x)] = std::exp(dist_of<std::pair<T, T>>(sp, cell)->logp({bv, x}));
        }
        std::string why;
        if (!same_dist(got, law, 1e-8, &why)) violation(prop + ":" + c.name + ":drawn-law", "drawn " + why, q);
      });
    }
}

// ---- N02 -------------------------------------------------------------------------------
template <class T> void n02_at(const Cfg<T>& c, Sys<T>&, const World<T>& w, const std::string& tr, const std::vector<Op>& path, int repeat) {
  for (size_t b = 0; b < c.rels.size(); ++b) {
    std::vector<int> deps;
    for (size_t j = 0; j < c.rels.size(); ++j) if (c.rels[j].base == int(b)) deps.push_back(j);
    if (deps.empty()) continue;
    for (auto& [it, v0] : w.facts[b]) {
      // the observations of this base fact
      std::vector<T> obs;
      std::map<std::string, double> mult;
      for (int j : deps) for (auto& [q, v] : w.facts[j]) if (Items(q.begin(), q.begin() + it.size()) == it) obs.push_back(v);
      std::string tq = tr + " ; re-estimate " + c.rels[b].name + show_items(it);
      at(tq);
      // reference: candidates and their log weights. Ties in voting may break either way.
      std::vector<std::vector<T>> votes;
      std::set<T> modes;
      size_t mx = 0;
      for (T v : obs) mx = std::max<size_t>(mx, std::count(obs.begin(), obs.end(), v));
      for (T v : obs) if (size_t(std::count(obs.begin(), obs.end(), v)) == mx) modes.insert(v);
      auto score_with = [&](T v) {
        auto facts = w.facts;
        facts[b][it] = v;
        double sc = 0;
        for (int j : deps) sc += score_clean<std::pair<T, T>>(c.rels[j], w.seat[c.split ? j : 0], pairs_of(facts[b], facts[j]));
        return sc;
      };
      std::vector<std::map<std::string, double>> laws;
      std::map<std::string, T> byname;
      if (obs.empty()) { laws.push_back({{show_v(v0), 1.0}}); byname[show_v(v0)] = v0; }
      for (T mode : modes) {
        std::vector<T> cand;
        for (int j : deps) {
          std::set<Items> cells;
          for (auto& [f, x] : w.facts[j]) { Items z; for (size_t m = 0; m < f.size(); ++m) z.push_back(w.seat[c.split ? j : 0].at(c.rels[j].doms[m]).at(f[m])); cells.insert(z); }
          for (size_t k = 0; k < cells.size(); ++k) {
            T pr = mode;
            if constexpr (std::is_same_v<T, double>)
              if (c.rels[j].spec == "gaussian") { double m = 0; for (double o : obs) m += o; pr = m / obs.size(); }
            cand.push_back(pr);
          }
        }
        std::vector<double> lw;
        for (T v : cand) lw.push_back(score_with(v));
        double z = lse(lw);
        std::map<std::string, double> law;
        for (size_t k = 0; k < cand.size(); ++k) { law[show_v(cand[k])] += std::exp(lw[k] - z); byname[show_v(cand[k])] = cand[k]; }
        laws.push_back(law);
      }
      std::unique_ptr<Sys<T>> s;
      std::map<std::string, double> got;
      std::string err = guarded([&] {
        Opts o;
        enumerate(o, [&] {
          s.release();
          s.reset(new Sys<T>(c));
          for (auto& p : path) s->apply(p);
          std::unordered_map<std::string, NoisyRelation<T>*> nr;
          for (int j : deps) nr[c.rels[j].name] = s->noisy(j);
          for (int r = 0; r < repeat; ++r) transition_latent_value<T>(nullptr_prng(), it, s->rel[b], nr);
        }, [&](const Exec& x) {
          ++S.transitions;
          T v = s->rel[b]->get_value(it);
          got[show_v(v)] += x.prob;
          World<T> w2 = w;
          w2.facts[b][it] = v;
          std::string e = check(*s, w2);
          if (!e.empty()) violation("N02:" + c.name + ":state", e, tq + (repeat > 1 ? " (twice)" : "") + " -> " + show_v(v));
        });
      });
      if (!err.empty()) { violation("N02:" + c.name + ":error", err, tq); continue; }
      std::string why;
      bool ok = false;
      for (auto& l : laws) ok |= same_dist(got, l, 1e-7, &why);
      if (!ok) violation("N02:" + c.name + ":law", why, tq);
    }
  }
}

struct Reg {
  Reg() {
    clean_cfgs([](auto c) {
      typedef typename decltype(c.vals)::value_type T;
      add_shard("R01", c.name, [c] { explore<T>(c, "R01", true, nullptr); });
      add_shard("R01", c.name + " histories", [c] { histories<T>(c, "R01", thorough() ? 4 : 3); });
      add_shard("R01", c.name + " draws", [c] { auto d = c; d.max_states = 300; explore<T>(d, "R01", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>& p) { drawn_at<T>(c, s, w, tr, p, "R01"); }); });
      add_shard("R02", c.name, [c] { explore<T>(c, "R02", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>&) { r02_at<T>(c, s, w, tr); }); });
      add_shard("R02", c.name + " larger", [c] { r02_big<T>(c, 1); });
      add_shard("R03", c.name, [c] { auto d = c; d.max_states = 800; explore<T>(d, "R03", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>&) { r03_at<T>(c, s, w, tr); }); });
    });
    noisy_cfgs([](auto c) {
      typedef typename decltype(c.vals)::value_type T;
      add_shard("N01", c.name, [c] { explore<T>(c, "N01", true, nullptr); });
      add_shard("N01", c.name + " histories", [c] { histories<T>(c, "N01", thorough() ? 3 : 2); });
      add_shard("N01", c.name + " draws", [c] { auto d = c; d.max_states = 300; explore<T>(d, "N01", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>& p) { drawn_at<T>(c, s, w, tr, p, "N01"); }); });
      add_shard("R02", c.name, [c] { explore<T>(c, "R02", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>&) { r02_at<T>(c, s, w, tr); }); });
      add_shard("R03", c.name, [c] { auto d = c; d.max_states = 800; explore<T>(d, "R03", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>&) { r03_at<T>(c, s, w, tr); }); });
      for (int rep : {1, 2})
        add_shard("N02", c.name + (rep == 2 ? " twice" : ""), [c, rep] { auto d = c; d.max_states = 2500; explore<T>(d, "N02", false, [&](Sys<T>& s, const World<T>& w, const std::string& tr, const std::vector<Op>& p) { if (rep == 1) n02_at<T>(c, s, w, tr, p, 1); else if (thorough() || S.states % 4 == 0) n02_at<T>(c, s, w, tr, p, 2); }); });
    });
  }
} reg;
