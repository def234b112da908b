// V03, G01, G02: entity models.
#include "gstates.hh"
#include "inference.hh"
#include "pclean/csv.hh"
#include "pclean/pclean_lib.hh"
#include <set>
#undef exit

// ---- V03 -------------------------------------------------------------------------------
static void check_v03(const ESchema& s, bool only_final, bool clean) {
  std::string tr = show(s) + (only_final ? " [only_final_emissions]" : "") + (clean ? "" : " [noisy record class]");
  at(tr);
  ++S.states; ++S.transitions;
  PCleanSchema p = pclean_of(s);
  std::unique_ptr<GenDB> g;
  TRels ts;
  Greedy gr;
  std::string err = guarded([&] { g.reset(new GenDB(nullptr_prng(), p, only_final, clean)); });
  if (!err.empty()) { violation("V03:error", err, tr); return; }
  ++S.traces;
  std::string e;
  err = guarded([&] { e = check_translation(s, *g, only_final, clean, ts); });
  if (!err.empty()) e = err;
  if (!e.empty()) { violation("V03:translation", e, tr); return; }
  if (S.states % 16 == 0) {      // the model built from it
    Rels rels = rels_of(s, ts);
    err = guarded([&] { e = check_hirm(*g->hirm, rels, all_names(rels), {}); });
    if (!err.empty()) e = err;
    if (!e.empty()) violation("V03:model", e, tr);
    count("V03 models checked");
  }
}
static const std::vector<EAttr>& attr_pool() {
  static const std::vector<EAttr> p{{"a", "bool", {}}, {"z", "real", {}}, {"m", "categorical", {{"k", "3"}}}, {"q", "stringcat", {{"strings", "x y"}}}, {"a", "string", {{"maxlength", "5"}}}, {"z", "typo_nat", {}}, {"b", "typo_real", {}}, {"y", "typo_int", {}}};
  return p;
}
// n classes in a topological order given by `perm` over their alphabetical names;
// mult[i][j] references from class i to class j, i before j
static void graphs(int n, int max_mult, int max_refs, const std::function<void(const ESchema&)>& f) {
  std::vector<std::pair<int, int>> pairs;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) pairs.push_back({i, j});
  std::vector<int> mult(pairs.size(), 0), perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  do {
    std::fill(mult.begin(), mult.end(), 0);
    for (;;) {
      int total = 0;
      for (int m : mult) total += m;
      if (total <= max_refs) {
        for (int order = 0; order < 2; ++order) {         // reference names against their targets
          ESchema s;
          for (int i = 0; i < n; ++i) s.classes.push_back({std::string(1, char('A' + perm[i])), {}, {}});
          std::map<int, int> k;
          for (size_t p = 0; p < pairs.size(); ++p) {
            auto [i, j] = pairs[p];
            for (int c = 0; c < mult[p]; ++c) { int x = k[i]++; s.classes[i].refs.push_back({order ? std::string(1, char('x' - x)) + s.classes[i].name : std::string(1, char('c' + x)), s.classes[j].name}); }
          }
          f(s);
          if (too_many()) return;
          if (total < 1) break;
        }
      }
      size_t q = 0;
      while (q < mult.size() && ++mult[q] > max_mult) mult[q++] = 0;
      if (q == mult.size()) break;
    }
  } while (std::next_permutation(perm.begin(), perm.end()));
}
static void all_options(const ESchema& s) { for (int o = 0; o < 4; ++o) check_v03(s, o & 1, !(o & 2)); }
static void queries(ESchema s, const std::string& record, int how) {
  s.record = record;
  auto ps = all_paths(s);
  auto named = [&](std::vector<EField> v) { s.fields = v; for (size_t i = 0; i < v.size(); ++i) s.fields[i].name = "Q" + str(i); all_options(s); };
  if (how == 0) { if (ps.size() <= 12) named(ps); else named(std::vector<EField>(ps.begin(), ps.begin() + 12)); if (ps.size() > 1) { auto r = ps; std::reverse(r.begin(), r.end()); if (r.size() > 12) r.resize(12); named(r); } return; }
  named({});
  for (auto& p : ps) named({p});
  if (how >= 2) for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ps.size(); ++j) {
    if (i == j) { if (ps[i].path.size() < 2) continue; s.fields = {ps[i], ps[i]}; s.fields[0].name = "Q0"; s.fields[1].name = "Q1"; all_options(s); continue; }
    if (i > j && how < 3) continue;
    named({ps[i], ps[j]});
  }
}
static void set_attrs(ESchema& s, int pattern) {
  auto& pool = attr_pool();
  int k = pattern;
  for (auto& c : s.classes) {
    int n = pattern == 0 ? 1 : (k % 3);
    for (int i = 0; i < n; ++i) { EAttr a = pool[(k + i) % pool.size()]; if (i && a.name == c.attrs[0].name) a.name += "2"; c.attrs.push_back(a); }
    k += 2 + pattern;
  }
  if (pattern == 1 && s.classes.size()) for (auto& c : s.classes) if (c.attrs.empty()) { c.attrs.push_back(pool[k++ % pool.size()]); break; }
}
SHARD("V03", "one and two classes") {
  for (int pat = 0; pat < 8; ++pat) for (int n = 1; n <= 2; ++n)
    graphs(n, 3, 3, [&](ESchema s) { set_attrs(s, pat); for (auto& c : s.classes) queries(s, c.name, 3); });
  sample("all graphs of two classes with up to three references, all records, all pairs of queried paths, all options");
}
static void three(int part, int of) {
  int n = 0;
  for (int pat = 0; pat < (thorough() ? 8 : 4); ++pat)
    graphs(3, 2, thorough() ? 6 : 5, [&](ESchema s) { if (n++ % of != part) return; set_attrs(s, pat); for (auto& c : s.classes) queries(s, c.name, thorough() ? 3 : pat < 2 ? 2 : 1); if (pat < 2) for (auto& c : s.classes) queries(s, c.name, 0); });
  sample("graphs of three classes with up to two references per pair in every alphabetical order");
}
SHARD("V03", "three classes (1/3)") { three(0, 3); }
SHARD("V03", "three classes (2/3)") { three(1, 3); }
SHARD("V03", "three classes (3/3)") { three(2, 3); }
static void four(int part, int of) {
  int n = 0;
  graphs(4, thorough() ? 2 : 1, thorough() ? 6 : 6, [&](ESchema s) { if (n++ % of != part) return; set_attrs(s, 0); auto rec = s.classes[0].name; queries(s, rec, 0); queries(s, rec, thorough() ? 2 : 1); });
  sample("graphs of four classes with up to five references in every alphabetical order");
}
SHARD("V03", "four classes (1/2)") { four(0, 2); }
SHARD("V03", "four classes (2/2)") { four(1, 2); }
SHARD("V03", "long chains and wide records") {
  for (int n = 2; n <= 6; ++n) for (int rev = 0; rev < 2; ++rev) for (int extra = 0; extra < 3; ++extra) {
    ESchema s;
    for (int i = 0; i < n; ++i) s.classes.push_back({std::string(1, char(rev ? 'F' - i : 'A' + i)), {attr_pool()[i]}, {}});
    for (int i = 0; i + 1 < n; ++i) s.classes[i].refs.push_back({rev ? "n" + str(i) : "n", s.classes[i + 1].name});
    if (extra >= 1) s.classes[0].refs.push_back({"d", s.classes[n - 1].name});
    if (extra >= 2 && n > 2) s.classes[1].refs.push_back({"x", s.classes[n - 1].name});
    queries(s, s.classes[0].name, 3);
    queries(s, s.classes[n / 2].name, 2);
    queries(s, s.classes[0].name, 0);
  }
  for (int w = 1; w <= 5; ++w) {
    ESchema s;
    s.classes.push_back({"Rec", {attr_pool()[0], attr_pool()[1]}, {}});
    s.classes.push_back({"Time", {{"time", "real", {}}}, {}});
    s.classes.push_back({"Flight", {{"id", "string", {}}}, {}});
    for (int i = 0; i < w; ++i) s.classes[2].refs.push_back({"t" + str(i), "Time"});
    s.classes[0].refs = {{"flight", "Flight"}, {"when", "Time"}};
    queries(s, "Rec", 2);
    queries(s, "Rec", 0);
  }
  sample("chains of up to six classes, a class referred to five times");
}
// schemas that make no sense must be refused, not translated
SHARD("V03", "meaningless queries are refused") {
  ESchema b;
  b.classes = {{"Rec", {{"x", "bool", {}}}, {{"r", "B"}}}, {"B", {{"y", "real", {}}}, {{"s", "C"}}}, {"C", {{"w", "bool", {}}}, {}}};
  b.record = "Rec";
  std::vector<std::string> words{"x", "r", "y", "s", "w", "nope"};
  std::set<std::vector<std::string>> good{{"x"}, {"r", "y"}, {"r", "s", "w"}};
  std::function<void(std::vector<std::string>)> go = [&](std::vector<std::string> p) {
    if (!p.empty()) for (int o = 0; o < 4; ++o) for (int with = 0; with < 2; ++with) {
      ESchema s = b;
      s.fields = {{"Q", p}};
      if (with) s.fields.push_back({"Good", {"r", "s", "w"}});
      if (good.count(p)) { if (with == 0) check_v03(s, o & 1, !(o & 2)); continue; }
      ++S.states; ++S.transitions; ++S.traces;
      std::string tr = show(s) + " options " + str(o);
      at(tr);
      Greedy gr;
      PCleanSchema ps = pclean_of(s);
      std::unique_ptr<GenDB> g;
      std::string err = guarded([&] { g.reset(new GenDB(nullptr_prng(), ps, o & 1, !(o & 2))); });
      if (err.empty()) violation("V03:meaningless-query", "a query that names no attribute was translated", tr);
    }
    if (p.size() < 4) for (auto& w : words) { auto q = p; q.push_back(w); go(q); }
  };
  go({});
  for (int which = 0; which < 3; ++which) {
    ESchema s = b;
    if (which == 0) s.record = "Nope";
    if (which == 1) s.classes[1].refs[0].cls = "Nope";
    if (which == 2) s.classes[2].attrs[0].joint = "nope";
    s.fields = {{"Q", {"r", "y"}}};
    ++S.states; ++S.transitions; ++S.traces;
    at(show(s));
    Greedy gr;
    PCleanSchema ps = pclean_of(s);
    std::unique_ptr<GenDB> g;
    std::string err = guarded([&] { g.reset(new GenDB(nullptr_prng(), ps)); });
    if (err.empty()) violation("V03:undeclared", "an undeclared class or distribution was accepted", show(s));
  }
  sample("all paths of up to four names over three classes, and undeclared names");
}

// ---- G01 -------------------------------------------------------------------------------
static void g01(const DCfg& c, int how, const std::vector<Row>& rows, bool unique, const Opts& o) {
  std::string tr = c.s.label + (c.only_final ? " only_final_emissions" : "") + (c.clean ? "" : " noisy record") + (unique ? " unique" : " sampled") + " submodels " + str(how) + ":";
  for (auto& r : rows) tr += " " + show(r);
  at(tr);
  std::string bad, key;
  World w;
  std::string last;
  uint64_t n = enumerate(o, [&] {
    bad.clear(); key.clear();
    w.g.reset();
    std::string e;
    if (!make_world(w, c, how, &e)) { bad = e; key = "G01:construction"; return; }
    Cells cells;
    for (auto& r : rows) {
      std::string err = guarded([&] { w.g->incorporate(nullptr_prng(), r, unique); });
      ++S.transitions;
      if (!err.empty()) { bad = err; key = "G01:error"; return; }
      for (auto& [f, v] : r.second) cells[f][r.first] = v;
      err = guarded([&] { bad = check_db(c.s, w.ts, w.rels, *w.g, cells, true); });
      ++S.states;
      if (!err.empty()) bad = err;
      if (!bad.empty()) { key = "G01:state"; return; }
      if (unique) {
        std::map<int, std::map<std::string, std::multiset<int>>> per;
        std::map<std::string, std::set<int>> seen;
        for (auto& q : rows) { per[q.first]; if (&q == &r) break; }
        for (auto& [id, m] : per) {
          reach(*w.g, c.s, c.s.record, id, m);
          for (auto& [cl, es] : m) {
            std::set<int> u(es.begin(), es.end());
            if (u.size() != es.size()) { bad = "row " + str(id) + " uses one " + cl + " in two places"; key = "G01:shared-in-row"; return; }
            for (int e2 : u) if (!seen[cl].insert(e2).second) { bad = "row " + str(id) + " shares " + cl + " " + str(e2) + " with another row"; key = "G01:shared"; return; }
          }
        }
      }
    }
  }, [&](const Exec& x) {
    ++S.traces;
    if (!bad.empty()) violation(key, bad, tr + " draws " + x.str());
  });
  (void)n;
}
static void g01_all(int cfg) {
  auto s = eschemas()[cfg];
  Opts o;
  for (int opt = 0; opt < 4; ++opt) for (int unique = 0; unique < 2; ++unique) for (int how = 0; how < 2; ++how) {
    DCfg c{s, bool(opt & 1), !(opt & 2)};
    o.max_dev = thorough() ? 3 : 2; o.max_alts = 3;
    histories(s, 1, 1, [&](auto& r) { g01(c, how, r, unique, o); });
    o.max_dev = thorough() ? 2 : 1;
    int nf = s.fields.size(), per = (1 << (nf + 1)) - 2;
    histories(s, 2, thorough() ? 1 : std::max(1, per * per / 300), [&](auto& r) { g01(c, how, r, unique, o); });
    o.max_dev = 1;
    histories(s, 3, std::max(1, per * per * per / (thorough() ? 600 : 60)), [&](auto& r) { g01(c, how, r, unique, o); });
    progress();
  }
  cap("histories of two and three rows with a stride, deviations from the most probable draws bounded");
  S.exhaustive = false;
  sample(show(s));
}
SHARD("G01", "chain") { g01_all(0); }
SHARD("G01", "twice") { g01_all(1); }
SHARD("G01", "diamond") { g01_all(2); }
SHARD("G01", "unqueried branch") { g01_all(3); }
SHARD("G01", "single class") { g01_all(4); }
SHARD("G01", "two branches") { g01_all(5); }
SHARD("G01", "shared time") { g01_all(6); }
SHARD("G01", "shortcut") { g01_all(7); }
SHARD("G01", "one attribute twice") { g01_all(8); }
// identifiers of references are distinct
SHARD("G01", "reference identifiers") {
  auto s = eschemas()[6];
  DCfg c{s};
  World w;
  std::string e;
  if (!make_world(w, c, 0, &e)) { violation("G01:construction", e, s.label); return; }
  int n = thorough() ? 300000 : 60000;
  std::map<int, RefKey> ids;
  std::string err = guarded([&] {
    for (auto& cl : s.classes) for (auto& r : cl.refs) for (int i = 0; i < n; ++i) {
      RefKey k{cl.name, r.name, i};
      int id = w.g->get_reference_id(cl.name, r.name, i);
      ++S.states; ++S.transitions;
      auto [it, fresh] = ids.insert({id, k});
      if (!fresh) { violation("G01:identifier", "references " + show(k) + " and " + show(it->second) + " have the same identifier " + str(id), "a table of " + str(n) + " rows"); return; }
      if (i % 997 == 0 && w.g->get_reference_id(cl.name, r.name, i) != id) { violation("G01:identifier", "the identifier of " + show(k) + " changes", ""); return; }
    }
  });
  if (!err.empty()) violation("G01:identifier", err, "");
  ++S.traces;
  sample("identifiers of " + str(ids.size()) + " references");
}
// ---- G02 -------------------------------------------------------------------------------
static void g02(const DCfg& c, int how, const std::vector<Row>& rows, bool unique, int steps, bool whole, const Opts& o) {
  std::string tr = c.s.label + (c.only_final ? " only_final_emissions" : "") + (c.clean ? "" : " noisy record") + (unique ? " unique" : " sampled") + " submodels " + str(how) + ":";
  for (auto& r : rows) tr += " " + show(r);
  at(tr);
  // the references there are depend on the draws: the choice of the reference is a draw too
  std::string bad, key, hist;
  World w;
  enumerate(o, [&] {
    bad.clear(); key.clear(); hist.clear();
    w.g.reset();
    std::string e;
    if (!make_world(w, c, how, &e)) { bad = e; key = "G02:construction"; return; }
    Cells cells;
    for (auto& r : rows) {
      std::string err = guarded([&] { w.g->incorporate(nullptr_prng(), r, unique); });
      if (!err.empty()) { bad = err; key = "G02:incorporate"; return; }
      for (auto& [f, v] : r.second) cells[f][r.first] = v;
    }
    for (int k = 0; k < steps; ++k) {
      std::string what;
      std::string err;
      if (whole) {
        what = "transition_reference_class_and_ancestors";
        hist += " " + what; at(tr + hist);
        err = guarded([&] { w.g->transition_reference_class_and_ancestors(nullptr_prng(), c.s.record); });
      } else {
        std::vector<RefKey> ks;
        for (auto& [kk, v] : refs_of(*w.g)) ks.push_back(kk);
        auto kk = ks.at(choose(int(ks.size())));
        what = show(kk);
        hist += " re-link " + what + "(" + str(w.g->reference_values.at(kk.cls).at({kk.field, kk.item})) + ")"; at(tr + hist);
        err = guarded([&] { w.g->transition_reference(nullptr_prng(), kk.cls, kk.field, kk.item); });
      }
      ++S.transitions;
      if (!err.empty()) { bad = err; key = "G02:error"; return; }
      err = guarded([&] { bad = check_db(c.s, w.ts, w.rels, *w.g, cells, true); });
      ++S.states;
      if (!err.empty()) bad = err;
      if (!bad.empty()) { key = "G02:state"; return; }
    }
  }, [&](const Exec& x) {
    ++S.traces;
    if (!bad.empty()) violation(key, bad, tr + hist + " draws " + x.str());
  });
}
static void g02_all(int cfg) {
  auto s = eschemas()[cfg];
  // the categorical noise model splits an observation between two explanations
  // by its state at that moment, so its cells are no function of their facts
  for (auto& c : s.classes) for (auto& a : c.attrs) if (a.joint == "categorical") a = {a.name, "real", {}};
  Opts o;
  for (int opt = 0; opt < 4; ++opt) for (int unique = 1; unique >= 0; --unique) for (int how = 0; how < 2; ++how) {
    DCfg c{s, bool(opt & 1), !(opt & 2)};
    o.max_dev = 2; o.max_alts = 3;
    int nf = s.fields.size(), per = (1 << (nf + 1)) - 2;
    o.max_dev = thorough() ? 3 : 2;
    histories(s, 2, std::max(1, per * per / (thorough() ? 40 : 10)), [&](auto& r) { g02(c, how, r, unique, 1, false, o); });
    o.max_dev = 2;
    histories(s, 2, std::max(1, per * per / (thorough() ? 10 : 2)), [&](auto& r) { g02(c, how, r, unique, 2, false, o); });
    histories(s, 3, std::max(1, per * per * per / (thorough() ? 10 : 2)), [&](auto& r) { g02(c, how, r, unique, 1, true, o); });
    progress();
  }
  sample(show(s));
}
SHARD("G02", "chain") { g02_all(0); }
SHARD("G02", "twice") { g02_all(1); }
SHARD("G02", "diamond") { g02_all(2); }
SHARD("G02", "unqueried branch") { g02_all(3); }
SHARD("G02", "two branches") { g02_all(5); }
SHARD("G02", "shared time") { g02_all(6); }
SHARD("G02", "shortcut") { g02_all(7); }
SHARD("G02", "one attribute twice") { g02_all(8); }
// ---- G03: the candidates and their weights ----------------------------------------------
// One re-linking from a complete database; executions that differ only in the
// final draw reach the states that were weighed against each other.
static void g03(const DCfg& c, int how, const std::vector<Row>& rows, bool unique, const Opts& o) {
  std::string tr = c.s.label + (c.only_final ? " only_final_emissions" : "") + (c.clean ? "" : " noisy record") + (unique ? " unique" : " sampled") + " submodels " + str(how) + ":";
  for (auto& r : rows) tr += " " + show(r);
  at(tr);
  std::string bad, key, hist;
  World w;
  struct Group { std::vector<double> w; std::map<int, double> score; std::string hist; std::vector<int> cand; std::map<int, int> chosen; };
  std::map<std::vector<int>, Group> groups;
  std::vector<double> last;
  double score = 0;
  int chosen = -1;
  std::vector<int> cand;
  size_t nchoices = 0;
  enumerate(o, [&] {
    bad.clear(); key.clear(); hist.clear(); last.clear();
    w.g.reset();
    std::string e;
    if (!make_world(w, c, how, &e)) { bad = e; key = "G03:construction"; return; }
    for (auto& r : rows) {
      std::string err = guarded([&] { w.g->incorporate(nullptr_prng(), r, unique); });
      if (!err.empty()) { bad = err; key = "G03:incorporate"; return; }
    }
    std::vector<RefKey> ks;
    for (auto& [kk, v] : refs_of(*w.g)) ks.push_back(kk);
    auto kk = ks.at(choose(int(ks.size())));
    std::string ref_class;
    for (auto& r : c.s.cls(kk.cls)->refs) if (r.name == kk.field) ref_class = r.cls;
    int cur = w.g->reference_values.at(kk.cls).at({kk.field, kk.item});
    // existing entities (the current one counts as the fresh one if nothing else refers to it)
    cand.clear();
    int top = -1;
    for (auto& [t, m] : w.g->entity_crps.at(ref_class).tables) { cand.push_back(t); top = std::max(top, t); }
    if (w.g->entity_crps.at(ref_class).tables.at(cur).size() > 1) cand.push_back(-1);
    hist = " re-link " + show(kk) + "(" + str(cur) + ")"; at(tr + hist);
    Record rec;
    std::string err = guarded([&] { w.g->transition_reference(nullptr_prng(), kk.cls, kk.field, kk.item); });
    ++S.transitions; ++S.states;
    if (!err.empty()) { bad = err; key = "G03:error"; return; }
    nchoices = rec.weights.size();
    if (!rec.weights.empty()) last = rec.weights.back();
    err = guarded([&] { score = w.g->logp_score(); });
    if (!err.empty()) { bad = err; key = "G03:error"; return; }
    chosen = w.g->reference_values.at(kk.cls).at({kk.field, kk.item});
    if (std::find(cand.begin(), cand.end(), chosen) == cand.end()) chosen = -1;
  }, [&](const Exec& x) {
    ++S.traces;
    if (!bad.empty()) { violation(key, bad, tr + hist + " draws " + x.str()); return; }
    if (cand.size() == 1) { if (nchoices) violation("G03:candidates", "there is one candidate but " + str(nchoices) + " draws", tr + hist); return; }
    if (last.size() != cand.size()) { violation("G03:candidates", str(last.size()) + " candidates are weighed, there are " + str(cand.size()), tr + hist + " draws " + x.str()); return; }
    auto pre = x.picks; int pick = pre.back(); pre.pop_back();
    auto& g = groups[pre];
    g.w = last; g.score[pick] = score; g.hist = hist; g.cand = cand; g.chosen[pick] = chosen;
  });
  for (auto& [pre, g] : groups) {
    std::set<int> ch;
    for (auto& [p, e] : g.chosen) if (!ch.insert(e).second) { violation("G03:candidates", "two different draws lead to the same entity", tr + g.hist); break; }
    for (auto it = std::next(g.score.begin()); it != g.score.end(); ++it) {
      count("G03 candidate scores compared");
      auto& [p0, s0] = *g.score.begin();
      auto& [p1, s1] = *it;
      double a = std::log(g.w[p1] / g.w[p0]), b = s1 - s0;
      if (!close(a, b, 1e-6)) { violation("G03:weights", "linking to " + str(g.chosen[p1]) + " instead of " + str(g.chosen[p0]) + " has log odds " + num(a) + ", the scores of the resulting states differ by " + num(b), tr + g.hist + " draws " + join(pre)); break; }
    }
  }
}
static void g03_all(int cfg) {
  auto s = eschemas()[cfg];
  for (auto& c : s.classes) for (auto& a : c.attrs) if (a.joint == "categorical") a = {a.name, "real", {}};
  Opts o;
  for (int opt = 0; opt < 4; ++opt) for (int unique = 1; unique >= 0; --unique) for (int how = 0; how < 2; ++how) {
    DCfg c{s, bool(opt & 1), !(opt & 2)};
    o.max_dev = thorough() ? 3 : 2; o.max_alts = 3;
    std::vector<Row> rows;
    for (int v = 0; v < 8; ++v) {
      rows.clear();
      for (int id = 0; id < 3; ++id) { Row r{id, {}}; for (size_t i = 0; i < s.fields.size(); ++i) r.second[s.fields[i].name] = value_of(s, s.fields[i], (v >> id & 1) + (i % 2) * id); rows.push_back(r); }
      if (v < 4) g03(c, how, {rows[0], rows[1]}, unique, o);
      if (v % 3 == 0) g03(c, how, rows, unique, o);
    }
    progress();
  }
  sample(show(s));
}
SHARD("G03", "chain") { g03_all(0); }
SHARD("G03", "twice") { g03_all(1); }
SHARD("G03", "diamond") { g03_all(2); }
SHARD("G03", "unqueried branch") { g03_all(3); }
SHARD("G03", "two branches") { g03_all(5); }
SHARD("G03", "shared time") { g03_all(6); }
SHARD("G03", "shortcut") { g03_all(7); }
SHARD("G03", "one attribute twice") { g03_all(8); }
// ---- G04: mixed histories ------------------------------------------------------------------
// ops: i incorporate a row with fresh entities, j with sampled ones, 0/1/2 re-link a
// reference, s sample a new row, c re-cluster entities and relations, f a whole step of inference
static void g04(const DCfg& c, int how, const std::string& ops, const Opts& o) {
  std::string tr = c.s.label + (c.only_final ? " only_final_emissions" : "") + (c.clean ? "" : " noisy record") + " submodels " + str(how) + " history " + ops + ":";
  at(tr);
  std::string bad, key, hist;
  World w;
  enumerate(o, [&] {
    bad.clear(); key.clear(); hist.clear();
    w.g.reset();
    std::string e;
    if (!make_world(w, c, how, &e)) { bad = e; key = "G04:construction"; return; }
    Cells cells;
    int next = 0, k = 0;
    for (char op : ops) {
      std::string err;
      int row = -1;
      std::map<std::string, std::string> drawn;
      ++k;
      if (op == 'i' || op == 'j') {
        Row r{next++, {}};
        for (size_t i = 0; i < c.s.fields.size(); ++i) if (k % 3 != 2 || i) r.second[c.s.fields[i].name] = value_of(c.s, c.s.fields[i], int(i) * k + k / 2);
        hist += " " + show(r) + (op == 'i' ? "fresh" : "sampled");
        at(tr + hist);
        err = guarded([&] { w.g->incorporate(nullptr_prng(), r, op == 'i'); });
        for (auto& [f, v] : r.second) cells[f][r.first] = v;
      } else if (op >= '0' && op <= '2') {
        std::vector<RefKey> ks;
        for (auto& [kk, v] : refs_of(*w.g)) ks.push_back(kk);
        if (ks.empty()) continue;
        auto kk = ks[op == '0' ? 0 : op == '1' ? ks.size() / 2 : ks.size() - 1];
        hist += " re-link " + show(kk);
        at(tr + hist);
        err = guarded([&] { w.g->transition_reference(nullptr_prng(), kk.cls, kk.field, kk.item); });
      } else if (op == 's') {
        row = next++;
        hist += " sample row " + str(row);
        at(tr + hist);
        DataFrame df;
        err = guarded([&] { df = make_pclean_samples(1, row, w.g.get(), nullptr_prng()); });
        if (err.empty()) {
          std::set<std::string> want;
          for (auto& f : c.s.fields) want.insert(f.name);
          if (std::set<std::string>(df.columns.begin(), df.columns.end()) != want || df.columns.size() != want.size()) { bad = "the sampled table has columns {" + join(df.columns) + "}"; key = "G04:sample"; return; }
          for (auto& f : want) {
            if (!df.data.count(f) || df.data.at(f).size() != 1) { bad = "the sampled table has no value of " + f; key = "G04:sample"; return; }
            drawn[f] = df.data.at(f)[0];
          }
        }
      } else if (op == 'c') {
        hist += " re-cluster";
        at(tr + hist);
        err = guarded([&] {
          w.g->hirm->transition_cluster_assignments_all(nullptr_prng());
          for (auto& [t, irm] : w.g->hirm->irms) irm->transition_cluster_assignments_all(nullptr_prng());
        });
      } else {
        hist += " inference";
        at(tr + hist);
        Greedy gr;
        err = guarded([&] { inference_gendb(nullptr_prng(), w.g.get(), 1, 1, 0, false); });
      }
      ++S.transitions; ++S.states;
      if (!err.empty()) { bad = err; key = "G04:error"; return; }
      if (row >= 0) {
        for (auto& [f, text] : drawn) {
          std::string why = "the sampled row holds no value of " + f;
          for (auto& [it, v] : facts_of(*w.g->hirm, f)) if (it.back() == row) {
            why.clear();
            if (auto* x = std::get_if<double>(&v)) { if (!close(std::atof(text.c_str()), *x, 1e-4)) why = "value " + text + " of " + f + " was reported, the row holds " + num(*x); }
            else if (auto* x = std::get_if<bool>(&v)) { if (text != (*x ? "1" : "0")) why = "value " + text + " of " + f + " was reported, the row holds " + str(*x); }
            else if (auto* x = std::get_if<int>(&v)) { if (text != std::to_string(*x)) why = "value " + text + " of " + f + " was reported, the row holds " + str(*x); }
            else if (text != std::get<std::string>(v)) why = "value " + text + " of " + f + " was reported, the row holds " + std::get<std::string>(v);
            cells[f][row] = v;
          }
          if (!why.empty()) { bad = why; key = "G04:sample"; return; }
        }
        count("G04 rows sampled");
      }
      err = guarded([&] { bad = check_db(c.s, w.ts, w.rels, *w.g, cells, true); });
      if (!err.empty()) bad = err;
      if (!bad.empty()) { key = "G04:state"; return; }
    }
  }, [&](const Exec& x) {
    ++S.traces;
    if (!bad.empty()) violation(key, bad, tr + hist + " draws " + x.str());
  });
}
static void g04_all(int cfg) {
  auto s = eschemas()[cfg];
  for (auto& c : s.classes) for (auto& a : c.attrs) if (a.joint == "categorical") a = {a.name, "real", {}};
  std::vector<std::string> hs;
  std::string cur;
  const std::string alphabet = "ij012scf";
  int depth = thorough() ? 6 : 5;
  std::function<void()> go = [&] {
    if (int(cur.size()) == depth) { hs.push_back(cur); return; }
    for (char ch : alphabet) {
      if (cur.empty() && ch != 'i' && ch != 's') continue;   // something has to be there
      cur.push_back(ch); go(); cur.pop_back();
    }
  };
  go();
  Opts o;
  o.max_alts = 2;
  int n = 0;
  for (auto& h : hs) {
    if (too_many()) return;
    int k = n++;
    o.max_dev = 0;
    for (int opt = 0; opt < 4; ++opt) g04({s, bool(opt & 1), !(opt & 2)}, (k + opt) % 2, h, o);
    if (k % 32 == 0 && h.find('f') == h.npos) { o.max_dev = 1; g04({s, bool(k / 32 & 1), !(k / 32 & 2)}, k / 128 % 2, h, o); }
    progress();
  }
  sample(show(s) + ": all histories of " + str(depth) + " operations out of " + alphabet);
  cap("draws: the most probable outcome everywhere, and one deviation on every thirty-second history");
  S.exhaustive = false;
}
SHARD("G04", "chain") { g04_all(0); }
SHARD("G04", "twice") { g04_all(1); }
SHARD("G04", "diamond") { g04_all(2); }
SHARD("G04", "unqueried branch") { g04_all(3); }
SHARD("G04", "single class") { g04_all(4); }
SHARD("G04", "two branches") { g04_all(5); }
SHARD("G04", "shared time") { g04_all(6); }
SHARD("G04", "shortcut") { g04_all(7); }
SHARD("G04", "one attribute twice") { g04_all(8); }
