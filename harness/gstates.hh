// Entity models, rows and databases explored by the entity-model harnesses.
#pragma once
#include "gdb.hh"
#undef exit

struct DCfg { ESchema s; bool only_final = false, clean = true; };
static EAttr B_(const char* n) { return {n, "bool", {}}; }
static std::vector<ESchema> eschemas() {
  std::vector<ESchema> v;
  v.push_back({"chain", {{"Rec", {B_("x")}, {{"r", "Bld"}}}, {"Bld", {B_("y")}, {{"s", "City"}}}, {"City", {B_("w")}, {}}}, "Rec", {{"X", {"x"}}, {"Y", {"r", "y"}}, {"W", {"r", "s", "w"}}}});
  v.push_back({"twice", {{"City", {B_("name")}, {}}, {"Person", {}, {{"birth", "City"}, {"home", "City"}}}}, "Person", {{"BirthCity", {"birth", "name"}}, {"HomeCity", {"home", "name"}}}});
  v.push_back({"diamond", {{"City", {B_("name")}, {}}, {"School", {}, {{"loc", "City"}}}, {"Practice", {}, {{"loc", "City"}}}, {"Phys", {}, {{"p", "Practice"}, {"s", "School"}}}}, "Phys", {{"PCity", {"p", "loc", "name"}}, {"SCity", {"s", "loc", "name"}}}});
  v.push_back({"unqueried branch", {{"School", {B_("n")}, {}}, {"Clinic", {B_("n")}, {}}, {"Phys", {B_("deg")}, {{"clinic", "Clinic"}, {"school", "School"}}}, {"Rec", {}, {{"phys", "Phys"}}}}, "Rec", {{"Deg", {"phys", "deg"}}, {"School", {"phys", "school", "n"}}}});
  v.push_back({"single class", {{"Rec", {B_("x"), {"z", "real", {}}}, {}}}, "Rec", {{"X", {"x"}}, {"Z", {"z"}}}});
  v.push_back({"two branches", {{"A", {B_("a")}, {}}, {"B", {B_("b"), {"c", "categorical", {{"k", "3"}}}}, {}}, {"Rec", {B_("x")}, {{"p", "A"}, {"q", "B"}}}}, "Rec", {{"A", {"p", "a"}}, {"B", {"q", "b"}}, {"C", {"q", "c"}}, {"X", {"x"}}}});
  v.push_back({"shared time", {{"Time", {B_("t")}, {}}, {"Flight", {B_("id")}, {{"dep", "Time"}, {"arr", "Time"}}}, {"Obs", {}, {{"flight", "Flight"}}}}, "Obs", {{"Arr", {"flight", "arr", "t"}}, {"Dep", {"flight", "dep", "t"}}, {"Id", {"flight", "id"}}}});
  v.push_back({"shortcut", {{"Rec", {}, {{"a", "Mid"}, {"z", "End"}}}, {"Mid", {B_("m")}, {{"e", "End"}}}, {"End", {{"v", "real", {}}}, {}}}, "Rec", {{"M", {"a", "m"}}, {"V1", {"a", "e", "v"}}, {"V2", {"z", "v"}}}});
  v.push_back({"one attribute twice", {{"A", {B_("a")}, {}}, {"Rec", {}, {{"p", "A"}}}}, "Rec", {{"P", {"p", "a"}}, {"Q", {"p", "a"}}}});
  return v;
}
static ObservationVariant value_of(const ESchema& s, const EField& f, int k) {
  std::string c = s.record;
  for (size_t i = 0; i + 1 < f.path.size(); ++i) for (auto& r : s.cls(c)->refs) if (r.name == f.path[i]) { c = r.cls; break; }
  for (auto& a : s.cls(c)->attrs) if (a.name == f.path.back()) {
    if (a.joint == "bool") return k % 2 == 0;
    if (a.joint == "real") return k % 2 ? 1.5 : -2.0;
    if (a.joint == "categorical") return k % 3;
    return std::string(k % 2 ? "a" : "b");
  }
  return false;
}
typedef std::pair<int, std::map<std::string, ObservationVariant>> Row;
static std::string show(const Row& r) { std::string s = "row " + str(r.first) + "{"; for (auto& [f, v] : r.second) s += f + "=" + show_vv(v) + " "; return s + "}"; }
// relations are spread over submodels: 0 all together, 1 all apart
static void place(HIRM& h, int how) {
  Greedy g;
  int k = 0;
  std::vector<std::string> names;
  for (auto& [n, r] : h.schema) names.push_back(n);
  for (auto& n : names) h.set_cluster_assignment_gibbs(nullptr_prng(), n, 40 + k++);
  k = 0;
  for (auto& n : names) h.set_cluster_assignment_gibbs(nullptr_prng(), n, how == 0 ? 3 : how == 1 ? k : k % 2), ++k;
}
// everything that is reachable from one row
static void reach(const GenDB& g, const ESchema& s, const std::string& c, int e, std::map<std::string, std::multiset<int>>& out) {
  for (auto& r : s.cls(c)->refs) {
    auto it = g.reference_values.at(c).find({r.name, e});
    if (it == g.reference_values.at(c).end()) continue;
    out[r.cls].insert(it->second);
    reach(g, s, r.cls, it->second, out);
  }
}
struct World { PCleanSchema p; std::unique_ptr<GenDB> g; TRels ts; Rels rels; };
static bool make_world(World& w, const DCfg& c, int how, std::string* err) {
  w.p = pclean_of(c.s);
  Greedy gr;
  std::string e;
  *err = guarded([&] { w.g.reset(new GenDB(nullptr_prng(), w.p, c.only_final, c.clean)); e = check_translation(c.s, *w.g, c.only_final, c.clean, w.ts); place(*w.g->hirm, how); });
  if (err->empty()) *err = e;
  if (!err->empty()) return false;
  w.rels = rels_of(c.s, w.ts);
  return true;
}
// all row sequences: each row any non-empty subset of the fields, one of two value patterns
static void histories(const ESchema& s, int rows, int stride, const std::function<void(const std::vector<Row>&)>& f) {
  int nf = s.fields.size();
  std::vector<Row> cur;
  long k = 0;
  std::function<void()> go = [&] {
    if (int(cur.size()) == rows) { if (k++ % stride == 0) f(cur); return; }
    for (int m = (1 << nf) - 1; m >= 1; --m) for (int v = 0; v < 2; ++v) {
      if (too_many()) return;
      Row r{int(cur.size()), {}};
      for (int i = 0; i < nf; ++i) if (m >> i & 1) r.second[s.fields[i].name] = value_of(s, s.fields[i], v + (i % 2) * int(cur.size()));
      cur.push_back(r);
      go();
      cur.pop_back();
    }
  };
  go();
}
