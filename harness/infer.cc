// T02: the inference drivers.  Every single deviation from the most probable
// outcome of one iteration is run; each unknown must be what some run changes.
#include "gstates.hh"
#include "states.hh"
#include "hstates.hh"
#include "latent.hh"
#include "inference.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/stringcat.hh"
#undef exit
#include <ctime>

// the clock the drivers read belongs to the harness
static long g_clock = 0, g_calls = 0, g_jump_at = -1, g_jump = 0;
static std::function<void()> g_on_jump;
extern "C" clock_t clock() noexcept {
  if (g_calls++ == g_jump_at) { g_clock += g_jump; if (g_on_jump) g_on_jump(); }
  return clock_t(g_clock);
}
struct Clock {
  Clock(long at, long jump, std::function<void()> f = nullptr) { g_clock = 1000; g_calls = 0; g_jump_at = at; g_jump = jump; g_on_jump = f; }
  ~Clock() { g_jump_at = -1; g_on_jump = nullptr; }
};

// unknowns and their values: "rel r", "seat t d e", "fact r items", "ref c.f[i]" and the parameters "cell r z", "alpha t d"
typedef std::map<std::string, std::string> Snap;
template <class D> static std::string concentration(D* d) {
  if constexpr (std::is_convertible_v<DirichletCategorical*, D*>) { if (auto* c = dynamic_cast<DirichletCategorical*>(d)) return " " + num(c->alpha); }
  if constexpr (std::is_convertible_v<StringCat*, D*>) { if (auto* c = dynamic_cast<StringCat*>(d)) return " " + num(c->dc.alpha); }
  return "";
}
static void snap_rel(Snap& s, const std::string& n, RelationVariant rv, const MRel& m, bool latent) {
  with_type(m.type, [&](auto tag) {
    using T = decltype(tag);
    auto* r = std::get<Relation<T>*>(rv);
    if (latent) for (auto& [it, v] : r->get_data()) s["fact " + n + show_items(Items(it.begin(), it.end()))] = show_vv(ObservationVariant(T(v)));
    auto cells = [&](auto& cl) {
      for (auto& [z, d] : cl) {
        std::string v = num(d->logp_score());
        // one categorical value says nothing about the concentration, so its score does not show it
        v += concentration(d);
        s["cell " + n + show_items(Items(z.begin(), z.end()))] = v;
      }
    };
    if (m.base.empty()) cells(reinterpret_cast<CleanRelation<T>*>(r)->clusters);
    else cells(reinterpret_cast<NoisyRelation<T>*>(r)->emission_relation.clusters);
    return 0;
  });
}
static bool latent_in(const Rels& rels, const std::string& n) {
  if (rels.at(n).observed) return false;
  for (auto& [k, m] : rels) if (m.base == n) return true;
  return false;
}
static void snap_irm(Snap& s, const std::string& pre, IRM& m, const Rels& rels) {
  for (auto& [d, dom] : m.domains) {
    s["alpha " + pre + d] = num(dom->crp.alpha);
    for (auto& [e, t] : dom->crp.assignments) s["seat " + pre + d + " " + str(e)] = str(t);
  }
  for (auto& [n, r] : m.relations) snap_rel(s, n, r, rels.at(n), latent_in(rels, n));
}
static Snap snap(IRM& m, const Rels& rels) { Snap s; snap_irm(s, "", m, rels); return s; }
static Snap snap(HIRM& h, const Rels& rels) {
  Snap s;
  for (auto& [t, m] : h.irms) snap_irm(s, "#" + str(t) + " ", *m, rels);
  for (auto& [n, m] : rels) s["rel " + n] = str(h.relation_to_table(n));
  return s;
}
static Snap snap(GenDB& g, const Rels& rels) {
  Snap s = snap(*g.hirm, rels);
  for (auto& [k, v] : refs_of(g)) s["ref " + show(k)] = str(v);
  return s;
}
static std::string kind(const std::string& k) { return k.substr(0, k.find(' ')); }
static std::set<std::string> diff(const Snap& a, const Snap& b, const std::set<std::string>& kinds) {
  std::set<std::string> d;
  for (auto& [k, v] : a) if (kinds.count(kind(k)) && (!b.count(k) || b.at(k) != v)) d.insert(k);
  for (auto& [k, v] : b) if (kinds.count(kind(k)) && !a.count(k)) d.insert(k);
  return d;
}
static const std::set<std::string> REF{"ref"}, STRUCT{"rel", "seat", "fact", "ref"}, PARAM{"cell", "alpha"};

// One driver on one starting state.
template <class M> struct Driver {
  std::string label;                                       // configuration and start
  Rels rels;
  std::function<std::unique_ptr<M>()> start;               // the starting state, no enumerated choice
  std::function<void(M&, int iters, int timeout, bool verbose)> run;
  std::function<std::string(M&, const Snap&)> consistent;
  bool boundary = true;                                    // a stopped run ends between iterations
};
// Runs one iteration in every way that deviates in at most o.max_dev draws.
template <class M> static std::vector<Snap> outcomes(const Driver<M>& d, const std::string& key, const Opts& o, int iters = 1) {
  std::set<Snap> all;
  std::vector<Snap> out;
  std::unique_ptr<M> m;
  bool failed = false;
  at(d.label);
  std::string err = guarded([&] {
    enumerate(o, [&] {
      if (m) m.reset();
      m = d.start();
      Clock ck(-1, 0);
      d.run(*m, iters, 0, false);
    }, [&](const Exec& x) {
      ++S.transitions;
      Snap s = snap(*m, d.rels);
      if (!all.insert(s).second) return;
      out.push_back(s);
      std::string e = d.consistent(*m, s);
      if (!e.empty() && !failed) { failed = true; violation(key + ":state", e, d.label + " draws " + x.str()); }
    });
  });
  ++S.states; ++S.traces;
  if (!err.empty()) { violation(key + ":error", err, d.label); if (m) m.release(); out.clear(); }
  return out;
}
// unknowns u with two outcomes that agree on everything of `kinds` but u
static void lone(const std::vector<Snap>& runs, const std::string& of, const std::set<std::string>& kinds, std::set<std::string>& hit) {
  std::set<std::string> us;
  for (auto& s : runs) for (auto& [k, v] : s) if (kind(k) == of) us.insert(k);
  for (auto& u : us) {
    std::map<std::string, std::string> by;
    for (auto& s : runs) {
      if (!s.count(u)) continue;
      std::string rest;
      for (auto& [k, v] : s) if (k != u && kinds.count(kind(k))) rest += k + "=" + v + ";";
      auto [it, fresh] = by.insert({rest, s.at(u)});
      if (!fresh && it->second != s.at(u)) { hit.insert(u); break; }
    }
  }
}
// unknowns with an outcome other than their value at the start
template <class M> static void changed(const Driver<M>& d, const std::vector<Snap>& runs, const std::string& of, std::set<std::string>& hit) {
  auto m = d.start();
  Snap a = snap(*m, d.rels);
  for (auto& s : runs) for (auto& [k, v] : s) if (kind(k) == of && a.count(k) && a.at(k) != v) hit.insert(k);
}
// every parameter of the most probable outcome is what some single deviation changes
template <class M> static void parameters(const Driver<M>& d, const std::string& key) {
  Opts o;
  o.max_dev = 1; o.max_alts = 2; o.quantiles = 2; o.max_exec = 20000;
  auto runs = outcomes(d, key, o);
  if (runs.empty()) return;
  std::set<std::string> cells;
  for (auto& s : runs) if (diff(runs[0], s, STRUCT).empty()) { auto p = diff(runs[0], s, PARAM); if (p.size() == 1) cells.insert(*p.begin()); }
  for (auto& [k, v] : runs[0]) if (PARAM.count(kind(k)) && !cells.count(k)) {
    if (kind(k) == "alpha") {         // a domain without entities says nothing about its concentration
      bool any = false;
      for (auto& [k2, v2] : runs[0]) any |= k2.rfind("seat " + k.substr(6) + " ", 0) == 0;
      if (!any) continue;
    }
    violation(key + ":parameters-kept", "no outcome of one iteration changes just " + k, d.label);
  }
}
// zero iterations, n iterations, reporting, and time
template <class M> static void laws(const Driver<M>& d, const std::string& key, int max_paths) {
  at(d.label);
  std::string err = guarded([&] {
    auto m = d.start();
    Snap s0 = snap(*m, d.rels);
    { Greedy g; Record rec; Clock ck(-1, 0); d.run(*m, 0, 0, false); if (!rec.weights.empty()) violation(key + ":zero", "zero iterations make draws", d.label); }
    if (snap(*m, d.rels) != s0) violation(key + ":zero", "zero iterations change the model", d.label);
    // two iterations against two single ones, and with reports
    Opts o;
    o.max_dev = 1; o.max_alts = 2; o.quantiles = 2; o.max_exec = max_paths;
    std::vector<std::pair<std::vector<int>, Snap>> runs;
    std::unique_ptr<M> k;
    enumerate(o, [&] { if (k) k.reset(); k = d.start(); Clock ck(-1, 0); d.run(*k, 2, 0, false); }, [&](const Exec& x) { ++S.transitions; runs.push_back({x.picks, snap(*k, d.rels)}); });
    k.reset();
    for (auto& [p, want] : runs) {
      auto a = d.start();
      std::string e = guarded([&] { Forced f(p); Clock ck(-1, 0); d.run(*a, 1, 0, false); d.run(*a, 1, 0, false); });
      ++S.traces;
      if (!e.empty() || snap(*a, d.rels) != want) { violation(key + ":iterations", e.empty() ? "two iterations differ from one and then another" : e, d.label); break; }
      auto b = d.start();
      e = guarded([&] { Forced f(p); Clock ck(-1, 0); d.run(*b, 2, 0, true); });
      if (!e.empty() || snap(*b, d.rels) != want) { violation(key + ":reports", e.empty() ? "reporting scores changes what is inferred" : e, d.label); break; }
    }
    // draws made after n iterations
    std::vector<size_t> ends{0};
    for (int n = 1; n <= 4; ++n) { auto a = d.start(); Greedy g; Record rec; Clock ck(-1, 0); d.run(*a, n, 0, false); ends.push_back(rec.weights.size()); }
    if (ends[1] == 0 || ends[2] <= ends[1]) violation(key + ":iterations", "an iteration makes no draw", d.label);
    // the clock jumps at its k-th reading
    for (int verbose = 0; verbose < 2; ++verbose)
      for (int timeout : {0, 5}) for (double secs : {4.0, 7.0}) {
        for (long at_call = 0;; ++at_call) {
          auto a = d.start();
          Greedy g;
          Record rec;
          size_t at_draw = 0;
          bool jumped = false;
          long calls = 0;
          {
            Clock ck(at_call, long(secs * CLOCKS_PER_SEC), [&] { jumped = true; at_draw = rec.weights.size(); });
            d.run(*a, 3, timeout, verbose);
            calls = g_calls;
          }
          ++S.transitions;
          size_t n = rec.weights.size();
          std::string tr = d.label + " timeout " + str(timeout) + " s, " + num(secs) + " s pass at reading " + str(at_call) + " of the clock";
          bool over = jumped && timeout && secs > timeout && at_call > 0;
          if (!over && n != ends[3]) violation(key + ":stopped-early", "three iterations asked for, no time limit exceeded, but only " + str(n) + " of " + str(ends[3]) + " draws made", tr);
          if (over) {
            size_t j = 0;
            while (j + 1 < ends.size() && ends[j + 1] <= at_draw) ++j;
            if (j < 3 && n > ends[std::min<size_t>(j + 1, 3)]) violation(key + ":overrun", "time was up during iteration " + str(j + 1) + ", yet a later one was run", tr);
            if (d.boundary && !std::count(ends.begin(), ends.end(), n)) violation(key + ":partial", "the run stopped in the middle of an iteration", tr);
          }
          std::string e = d.consistent(*a, snap(*a, d.rels));
          if (!e.empty()) violation(key + ":state", e, tr);
          if (!jumped || too_many()) break;
          if (verbose && at_call > 60) at_call += 7;
          (void)calls;
        }
      }
  });
  ++S.states;
  if (!err.empty()) violation(key + ":error", err, d.label);
}
template <class F> static Facts facts_now(F& m, const Rels& rels, const Facts& facts, std::function<RelationVariant(const std::string&)> get) {
  Facts f = facts;
  for (auto& [n, mr] : rels) if (latent_in(rels, n)) with_type(mr.type, [&](auto tag) {
    using T = decltype(tag);
    auto& data = std::get<Relation<T>*>(get(n))->get_data();
    if (f.count(n)) for (auto& [it, v] : f[n]) if (data.count(it)) v = ObservationVariant(T(data.at(it)));
    return 0;
  });
  return f;
}
static void missing(const std::string& key, const std::set<std::string>& want, const std::set<std::string>& hit, const std::string& label) {
  for (auto& k : want) if (!hit.count(k)) violation(key + ":not-updated", "no outcome of one iteration changes just " + k, label);
}

static Opts structural(int dev) { Opts o; o.max_dev = dev; o.max_width = 12; o.quantiles = 2; o.max_exec = thorough() ? 60000 : 6000; return o; }
// ---- relational models --------------------------------------------------------------------
static bool any_fact(const Facts& f) { for (auto& [n, x] : f) if (!x.empty()) return true; return false; }
static void t02_irm(const ICfg& c, int stride, int lstride) {
  auto in = all_names(c.rels);
  std::map<std::string, double> alpha;
  for (auto& [d, n] : c.ents) alpha[d] = 2.5;
  Facts cur;
  std::set<std::string> hit, want;
  std::string key = "T02:relational", lab;
  long k = 0;
  auto flush = [&] { missing(key, want, hit, lab); hit.clear(); want.clear(); };
  all_states(c, {0, 1, 2, 3}, stride, [&](const Seats& s, const Facts& f) {
    if (!any_fact(f)) return;
    if (f != cur) { flush(); cur = f; lab = c.name + ": " + show_state({}, f); }
    Driver<IRM> d;
    d.label = c.name + ": " + show_state(s, f);
    d.rels = c.rels;
    d.start = [&] { return build_irm(c.rels, s, f, alpha); };
    d.run = [](IRM& m, int i, int t, bool v) { inference_irm(nullptr_prng(), &m, i, t, v); };
    d.consistent = [&](IRM& m, const Snap&) { return check_irm(m, c.rels, in, seats_of(m), facts_now(m, c.rels, f, [&](auto& n) { return m.relations.at(n); }), 1e-6); };
    parameters(d, key);
    auto runs = outcomes(d, key, structural(2));
    lone(runs, "seat", STRUCT, hit);
    lone(runs, "fact", STRUCT, hit);
    changed(d, runs, "fact", hit);
    if (k++ % lstride == 0) laws(d, key, thorough() ? 400 : 60);
    for (auto& [dd, x] : s) if (x.size() > 1) for (auto& [e, t] : x) want.insert("seat " + dd + " " + str(e));
    // latent values a re-estimation by itself can change
    for (auto& [n, m] : c.rels) if (latent_in(c.rels, n) && f.count(n)) {
      Driver<IRM> d2 = d;
      for (auto& [it, v] : f.at(n)) {
        d2.run = [&](IRM& m, int, int, bool) { reestimate_one(c.rels, [&](const std::string& q) { return m.relations.at(q); }, n, it, noisy_of(c.rels, n)); };
        auto one = outcomes(d2, key, structural(2));
        lone(one, "fact", STRUCT, want);
        changed(d, one, "fact", want);
      }
    }
  });
  flush();
  sample(c.name + ": " + str(S.states) + " starts");
}
// ---- hierarchical models --------------------------------------------------------------------
static void t02_hirm(const ICfg& c, int stride, int sstride, int lstride) {
  Facts cur;
  std::map<std::string, int> part;
  std::set<std::string> hit, want, rhit, rwant;
  std::string key = "T02:hierarchical", lab;
  long k = 0;
  auto flush = [&] { missing(key, want, hit, lab); hit.clear(); want.clear(); };
  auto rflush = [&] { missing(key, rwant, rhit, lab); rhit.clear(); rwant.clear(); };
  all_hstates(c, stride, sstride, {0, 1, 2, 3}, [&](const HState& w) {
    if (!any_fact(w.facts)) return;
    if (w.facts != cur || w.table != part) flush();
    if (w.facts != cur) rflush();
    cur = w.facts; part = w.table; lab = c.name + ": " + show_h({w.table, {}, w.facts});
    Driver<HIRM> d;
    d.label = c.name + ": " + show_h(w);
    d.rels = c.rels;
    // concentrations under which relations tend to stay, so that the rest can be watched
    std::set<int> tabs;
    for (auto& [n, t] : w.table) tabs.insert(t);
    bool together = tabs.size() == 1, apart = tabs.size() == w.table.size();
    double ca = together ? 0.1 : apart ? 12 : 2.5;
    d.start = [&c, &w, ca] { return build_hirm(c.rels, w, ca, 1.5); };
    d.run = [](HIRM& m, int i, int t, bool v) { inference_hirm(nullptr_prng(), &m, i, t, v); };
    d.consistent = [&](HIRM& m, const Snap&) { return check_hirm(m, c.rels, all_names(c.rels), facts_now(m, c.rels, w.facts, [&](auto& n) { return m.get_relation(n); })); };
    parameters(d, key);
    auto runs = outcomes(d, key, structural(2));
    for (auto& [n, t] : w.table) rwant.insert("rel " + n);
    lone(runs, "rel", {"rel"}, rhit);
    // relations stay: entities and latent values
    std::vector<Snap> stay;
    for (auto& s : runs) { bool ok = true; for (auto& [n, t] : w.table) ok &= s.at("rel " + n) == str(t); if (ok) stay.push_back(s); }
    lone(stay, "seat", STRUCT, hit);
    lone(runs, "fact", {"rel", "fact"}, hit);
    changed(d, runs, "fact", hit);
    if (k++ % lstride == 0) laws(d, key, thorough() ? 400 : 60);
    if (together || apart) for (auto& [t, ss] : w.seat) for (auto& [dd, x] : ss) if (x.size() > 1) for (auto& [e, q] : x) want.insert("seat #" + str(t) + " " + dd + " " + str(e));
    for (auto& [n, m] : c.rels) if (latent_in(c.rels, n) && w.facts.count(n)) {
      Driver<HIRM> d2 = d;
      for (auto& [it, v] : w.facts.at(n)) {
        d2.run = [&](HIRM& m, int, int, bool) { reestimate_one(c.rels, [&](const std::string& q) { return m.get_relation(q); }, n, it, noisy_of(c.rels, n)); };
        auto one = outcomes(d2, key, structural(2));
        lone(one, "fact", STRUCT, want);
        changed(d, one, "fact", want);
      }
    }
  });
  flush(); rflush();
  sample(c.name + ": " + str(S.states) + " starts");
}
// ---- entity models -----------------------------------------------------------------------------
static void t02_gendb(int cfg, int stride, int lstride) {
  auto s = eschemas()[cfg];
  // the error-rate categorical noise model scores by order, so its cells cannot be rebuilt
  for (auto& c : s.classes) std::erase_if(c.attrs, [](auto& a) { return a.joint == "categorical"; });
  std::erase_if(s.fields, [](auto& f) { return f.name == "C"; });
  std::string key = "T02:entities";
  long k = 0;
  for (int opt : {0, 3}) for (int how = 0; how < 2; ++how) {
    DCfg c{s, bool(opt & 1), !(opt & 2)};
    std::set<std::string> total;
    std::map<std::string, std::string> wanted;
    histories(s, 2, stride, [&](const std::vector<Row>& rows) {
      std::string lab = s.label + " options " + str(opt) + " submodels " + str(how) + ":";
      for (auto& r : rows) lab += " " + show(r);
      Cells cells;
      for (auto& r : rows) for (auto& [f, v] : r.second) cells[f][r.first] = v;
      World w;
      Driver<GenDB> d;
      d.label = lab;
      d.start = [&]() -> std::unique_ptr<GenDB> {
        Greedy g;
        std::string e;
        w.g.reset();
        if (!make_world(w, c, how, &e)) throw std::runtime_error(e);
        for (auto& r : rows) w.g->incorporate(nullptr_prng(), r, true);
        return std::move(w.g);
      };
      Snap s0;
      at(lab);
      std::map<RefKey, int> start_refs;
      std::string err = guarded([&] { auto m = d.start(); d.rels = w.rels; s0 = snap(*m, w.rels); start_refs = refs_of(*m); });
      if (!err.empty()) { violation(key + ":error", err, lab); return; }
      int hirm_iters = 0;
      d.run = [&](GenDB& m, int i, int t, bool v) { inference_gendb(nullptr_prng(), &m, i, hirm_iters, t, v); };
      d.consistent = [&](GenDB& m, const Snap&) { return check_db(s, w.ts, w.rels, m, cells, true); };
      d.boundary = false;
      // the references alone: each can change while all others of the two rows stay
      Opts o = structural(2);
      auto runs = outcomes(d, key, o);
      std::set<std::string> hit;
      for (auto& [u, from] : start_refs) {
        // a reference changes by being redrawn, or with an entity that is given up and made anew:
        // look at outcomes in which what leads to its entity is as at the start
        std::string un = "ref " + show(u);
        std::set<std::string> parents;
        for (auto& [k2, v2] : start_refs) for (auto& r : s.cls(k2.cls)->refs) if (r.name == k2.field && r.cls == u.cls && v2 == u.item) parents.insert("ref " + show(k2));
        std::set<std::string> vals;
        for (auto& r : runs) {
          if (!r.count(un)) continue;
          bool kept = true;
          for (auto& p : parents) kept &= r.count(p) && r.at(p) == s0.at(p);
          if (kept) vals.insert(r.at(un));
        }
        if (vals.size() > 1) hit.insert(un);
      }
      for (auto& u : hit) total.insert(u);
      // a reference can change if its entity is not the only one, or serves another reference too
      for (auto& [u, to] : start_refs) {
        auto target = [&](const RefKey& k) { for (auto& r : s.cls(k.cls)->refs) if (r.name == k.field) return r.cls; return std::string(); };
        bool can = false;
        for (auto& [k2, v2] : start_refs) if (target(k2) == target(u) && k2 != u) can = true;
        if (can) { count("references"); wanted["ref " + show(u)] = lab; }
      }
      // each outer iteration is so many iterations of the submodels, then the references
      for (int hi = 1; hi <= 2; ++hi) {
        hirm_iters = hi;
        Opts o2;
        o2.max_dev = 1; o2.max_alts = 2; o2.max_exec = thorough() ? 60 : 12; o2.quantiles = 2;
        std::unique_ptr<GenDB> m;
        std::vector<std::pair<std::vector<int>, Snap>> rs;
        std::string e = guarded([&] { enumerate(o2, [&] { m.reset(); m = d.start(); Clock ck(-1, 0); d.run(*m, 1, 0, false); }, [&](const Exec& x) { ++S.transitions; rs.push_back({x.picks, snap(*m, d.rels)}); }); });
        m.reset();
        for (auto& [p, want] : rs) {
          if (!e.empty()) break;
          auto a = d.start();
          e = guarded([&] { Forced f(p); Clock ck(-1, 0); inference_hirm(nullptr_prng(), a->hirm, hi, 0, false); a->transition_reference_class_and_ancestors(nullptr_prng(), s.record); });
          if (e.empty() && snap(*a, d.rels) != want) e = str(hi) + " iterations of the submodels and a pass over the references differ from one outer iteration";
        }
        if (!e.empty()) violation(key + ":composition", e, lab);
      }
      hirm_iters = 1;
      if (k++ % lstride == 0) laws(d, key, thorough() ? 200 : 20);
    });
    for (auto& [u, l] : wanted) if (!total.count(u)) violation(key + ":not-updated", "no outcome of one iteration changes just " + u + " in any database", s.label + " options " + str(opt) + " submodels " + str(how) + ", for example " + l);
  }
  sample(show(s) + ": " + str(S.states) + " databases");
}
struct Reg {
  Reg() {
    for (auto& c : configs()) add_shard("T02", c.name, [c] { t02_irm(c, (thorough() ? 2 : 12) * c.stride, thorough() ? 5 : 40); });
    for (auto& c : hconfigs()) add_shard("T02", "submodels of " + c.name, [c] { t02_hirm(c, (thorough() ? 8 : 40) * c.stride, 1, thorough() ? 9 : 30); });
    for (int i = 0; i < 9; ++i) if (i != 4) add_shard("T02", "entity model " + eschemas()[i].label, [i] { t02_gendb(i, thorough() ? 17 : 61, thorough() ? 11 : 40); });
  }
} reg;
