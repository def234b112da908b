// Entity models: construction of schemas, their reference structure, and the
// comparison of the relational translation with it.
#pragma once
#include "hirmw.hh"
#include "gendb.hh"
#include "pclean/schema.hh"
#undef exit
#include <algorithm>
#include <memory>

struct EAttr { std::string name, joint; std::map<std::string, std::string> params; };
struct ERef { std::string name, cls; };
struct ECls { std::string name; std::vector<EAttr> attrs; std::vector<ERef> refs; };
struct EField { std::string name; std::vector<std::string> path; };
struct ESchema {
  std::string label;
  std::vector<ECls> classes;
  std::string record;
  std::vector<EField> fields;
  const ECls* cls(const std::string& n) const { for (auto& c : classes) if (c.name == n) return &c; return nullptr; }
};
static std::string show(const ESchema& s) {
  std::string r;
  for (auto& c : s.classes) {
    r += c.name + "{";
    for (auto& x : c.refs) r += x.name + "->" + x.cls + " ";
    for (auto& a : c.attrs) r += a.name + "~" + a.joint + " ";
    r += "} ";
  }
  r += "from " + s.record + ":";
  for (auto& f : s.fields) r += " " + join(f.path, ".") + " as " + f.name;
  return r;
}
static PCleanSchema pclean_of(const ESchema& s) {
  PCleanSchema p;
  for (auto& c : s.classes) {
    PCleanClass k;
    k.name = c.name;
    for (auto& a : c.attrs) { PCleanVariable v; v.name = a.name; ScalarVar sv; sv.joint_name = a.joint; sv.params = a.params; v.spec = sv; k.vars[a.name] = v; }
    for (auto& x : c.refs) { PCleanVariable v; v.name = x.name; ClassVar cv; cv.class_name = x.cls; v.spec = cv; k.vars[x.name] = v; }
    p.classes[c.name] = k;
  }
  p.query.record_class = s.record;
  for (auto& f : s.fields) { QueryField q; q.name = f.name; q.class_path = f.path; p.query.fields[f.name] = q; }
  return p;
}
// joint name -> distribution, noise model, value type
struct Joint { const char* dist; const char* emis; char type; };
static const std::map<std::string, Joint>& joints() {
  static const std::map<std::string, Joint> j = {
    {"bool", {"bernoulli", "sometimes_bitflip", 'b'}}, {"categorical", {"categorical", "sometimes_categorical", 'i'}}, {"real", {"normal", "sometimes_gaussian", 'd'}},
    {"string", {"bigram", "bigram", 's'}}, {"stringcat", {"stringcat", "bigram", 's'}}, {"typo_int", {"string_skellam", "bigram", 's'}},
    {"typo_nat", {"string_nat", "bigram", 's'}}, {"typo_real", {"string_normal", "bigram", 's'}}};
  return j;
}
// A relation of the translation: its domains and, per slot, where each reference of the entity in the slot leads.
struct TRel { std::string name, base, joint, owner; std::vector<std::string> doms; std::map<int, std::map<std::string, int>> slots; };
typedef std::map<std::string, TRel> TRels;

static void slots_of(const GenDB& g, const std::string& rel, std::map<int, std::map<std::string, int>>& out) {
  if (!g.relation_reference_indices.count(rel)) return;
  for (auto& [i, m] : g.relation_reference_indices.at(rel)) if (!m.empty()) out[i] = m;
}
// the slots below `slot` are one slot per reference, recursively, each used once
static std::string tree(const ESchema& s, const std::vector<std::string>& doms, const std::map<int, std::map<std::string, int>>& slots, int slot, const std::string& cls, std::set<int>& seen) {
  if (slot < 0 || slot >= int(doms.size())) return "a reference leads to slot " + str(slot) + " of " + str(doms.size());
  if (!seen.insert(slot).second) return "slot " + str(slot) + " is used twice";
  if (doms[slot] != cls) return "slot " + str(slot) + " holds a " + doms[slot] + ", the reference leads to a " + cls;
  std::set<std::string> have, want;
  if (slots.count(slot)) for (auto& [f, t] : slots.at(slot)) have.insert(f);
  for (auto& r : s.cls(cls)->refs) want.insert(r.name);
  if (have != want) return "slot " + str(slot) + " (" + cls + ") resolves references {" + join(have) + "}, the class has {" + join(want) + "}";
  for (auto& r : s.cls(cls)->refs) {
    std::string e = tree(s, doms, slots, slots.at(slot).at(r.name), r.cls, seen);
    if (!e.empty()) return e;
  }
  return "";
}
static std::string full_tree(const ESchema& s, const std::vector<std::string>& doms, const std::map<int, std::map<std::string, int>>& slots, const std::string& cls) {
  std::set<int> seen;
  std::string e = tree(s, doms, slots, int(doms.size()) - 1, cls, seen);
  if (!e.empty()) return e;
  if (seen.size() != doms.size()) return "only " + str(seen.size()) + " of " + str(doms.size()) + " slots are reached through references";
  for (auto& [i, m] : slots) if (!seen.count(i)) return "references are listed for slot " + str(i);
  return "";
}
// Compares the translation with the schema; fills `out` with what was found.
static std::string check_translation(const ESchema& s, const GenDB& g, bool only_final, bool clean, TRels& out) {
  out.clear();
  auto& sch = g.hirm->schema;
  std::set<std::string> expected;
  auto get_clean = [&](const std::string& n, const ECls& c, const EAttr& a, bool observed) -> std::string {
    expected.insert(n);
    if (!sch.count(n)) return "relation " + n + " is missing";
    auto* r = std::get_if<T_clean_relation>(&sch.at(n));
    if (!r) return n + " is not a clean relation";
    DistributionSpec want(joints().at(a.joint).dist, a.params);
    if (r->distribution_spec.distribution != want.distribution || r->distribution_spec.observation_type != want.observation_type || r->distribution_spec.distribution_args != a.params) return n + " has the wrong distribution";
    if (r->is_observed != observed) return n + (observed ? " is not marked observed" : " is marked observed");
    TRel t{n, "", a.joint, c.name, r->domains, {}};
    slots_of(g, n, t.slots);
    std::string e = full_tree(s, t.doms, t.slots, c.name);
    if (!e.empty()) return n + "(" + join(t.doms) + "): " + e;
    out[n] = t;
    return "";
  };
  auto rename = [&](const std::string& cls, const std::string& attr) -> std::string {
    if (clean && cls == s.record) for (auto& f : s.fields) if (f.path.size() == 1 && f.path[0] == attr) return f.name;
    return "";
  };
  for (auto& c : s.classes) for (auto& a : c.attrs) {
    std::string q = rename(c.name, a.name);
    std::string e = get_clean(q.empty() ? c.name + ":" + a.name : q, c, a, !q.empty());
    if (!e.empty()) return e;
  }
  for (auto& f : s.fields) {
    // classes along the path
    std::vector<std::string> cl{s.record};
    for (size_t i = 0; i + 1 < f.path.size(); ++i) for (auto& r : s.cls(cl.back())->refs) if (r.name == f.path[i]) { cl.push_back(r.cls); break; }
    const EAttr* attr = nullptr;
    for (auto& a : s.cls(cl.back())->attrs) if (a.name == f.path.back()) attr = &a;
    std::string base = cl.back() + ":" + attr->name;
    if (!rename(cl.back(), attr->name).empty()) {
      if (cl.size() == 1) continue;                     // checked above
      return "the record class is reached through a reference";
    }
    auto noisy = [&](const std::string& n, const std::string& b, const std::vector<std::string>& add, const std::vector<std::string>& vars, bool observed) -> std::string {
      expected.insert(n);
      if (!sch.count(n)) return "relation " + n + " is missing";
      auto* r = std::get_if<T_noisy_relation>(&sch.at(n));
      if (!r) return n + " is not a noisy relation";
      if (r->base_relation != b) return n + " is a noisy version of " + r->base_relation + ", expected " + b;
      EmissionSpec want(joints().at(attr->joint).emis, attr->params);
      if (r->emission_spec.emission != want.emission || r->emission_spec.observation_type != want.observation_type || r->emission_spec.emission_args != attr->params) return n + " has the wrong noise model";
      if (r->is_observed != observed) return n + (observed ? " is not marked observed" : " is marked observed");
      TRel t{n, b, attr->joint, add.empty() ? out.at(b).owner : add.back(), r->domains, {}};
      slots_of(g, n, t.slots);
      auto& bd = out.at(b);
      auto wd = bd.doms;
      wd.insert(wd.end(), add.begin(), add.end());
      if (t.doms != wd) return n + " has domains {" + join(t.doms) + "}, expected {" + join(wd) + "}";
      auto ws = bd.slots;
      for (size_t i = 0; i < add.size(); ++i) ws[int(bd.doms.size() + i)][vars[i]] = int(bd.doms.size() + i) - 1;
      if (t.slots != ws) {
        auto sh = [](auto& m) { std::string x; for (auto& [i, y] : m) for (auto& [k, v] : y) x += str(i) + "." + k + "->" + str(v) + " "; return x; };
        return n + "(" + join(t.doms) + ") resolves references " + sh(t.slots) + ", expected " + sh(ws);
      }
      out[n] = t;
      return "";
    };
    std::string e;
    if (cl.size() == 1) e = noisy(f.name, base, {}, {}, true);
    else if (only_final) {
      std::vector<std::string> add, vars;
      for (int i = int(cl.size()) - 2; i >= 0; --i) { add.push_back(cl[i]); vars.push_back(f.path[i]); }
      e = noisy(f.name, base, add, vars, true);
    } else {
      std::string prev = base;
      for (int i = int(cl.size()) - 2; i >= 0 && e.empty(); --i) {
        std::string n = i ? cl[i] + "::" + f.name : f.name;
        e = noisy(n, prev, {cl[i]}, {f.path[i]}, i == 0);
        prev = n;
      }
    }
    if (!e.empty()) return e;
  }
  for (auto& [n, r] : sch) if (!expected.count(n)) return "there is a relation " + n + " that the schema does not state";
  for (auto& c : s.classes) {
    if (!g.domains.count(c.name)) return "class " + c.name + " has no list of domains";
    std::map<int, std::map<std::string, int>> sl;
    if (g.class_reference_indices.count(c.name)) sl = g.class_reference_indices.at(c.name);
    std::string e = full_tree(s, g.domains.at(c.name), sl, c.name);
    if (!e.empty()) return "class " + c.name + "(" + join(g.domains.at(c.name)) + "): " + e;
    for (auto& a : c.attrs) { std::string q = rename(c.name, a.name); if (out.at(q.empty() ? c.name + ":" + a.name : q).doms != g.domains.at(c.name)) return "attribute " + a.name + " of " + c.name + " and its class have different domains"; }
    if (!g.entity_crps.count(c.name)) return "class " + c.name + " has no clustering of entities";
    if (!g.reference_values.count(c.name)) return "class " + c.name + " has no table of references";
  }
  std::map<std::string, std::multiset<std::string>> c2r, w2r;
  for (auto& [c, v] : g.class_to_relations) for (auto& r : v) c2r[c].insert(r);
  for (auto& [n, t] : out) w2r[t.doms.back()].insert(n);
  if (c2r != w2r) return "classes do not list exactly the relations that end in them";
  return "";
}
// relations as the model-level reference sees them
static Rels rels_of(const ESchema& s, const TRels& ts) {
  Rels r;
  std::map<std::string, std::map<std::string, std::string>> params;
  for (auto& c : s.classes) for (auto& a : c.attrs) params[c.name + ":" + a.name] = a.params;
  std::function<std::map<std::string, std::string>(const TRel&)> par = [&](const TRel& t) {
    if (!t.base.empty()) return par(ts.at(t.base));
    if (params.count(t.name)) return params.at(t.name);
    for (auto& f : s.fields) if (f.name == t.name && f.path.size() == 1) return params.at(s.record + ":" + f.path[0]);
    return std::map<std::string, std::string>();
  };
  for (auto& [n, t] : ts) {
    auto& j = joints().at(t.joint);
    MRel m = t.base.empty() ? cr(n, j.dist, t.doms, j.type, par(t)) : nr(n, j.emis, t.doms, t.base, j.type, par(t));
    r[n] = m;
  }
  return r;
}
static std::vector<EField> all_paths(const ESchema& s) {
  std::vector<EField> out;
  std::vector<std::string> p;
  std::function<void(const std::string&)> go = [&](const std::string& c) {
    for (auto& a : s.cls(c)->attrs) { p.push_back(a.name); out.push_back({"", p}); p.pop_back(); }
    for (auto& r : s.cls(c)->refs) { p.push_back(r.name); go(r.cls); p.pop_back(); }
  };
  go(s.record);
  return out;
}

// ---- the state of an entity model -----------------------------------------------------------
struct Follow {
  const ESchema& s; const GenDB& g; const TRels& ts;
  std::string err;
  bool go(const TRel& t, int slot, int e, Items& out) {
    out[slot] = e;
    if (!t.slots.count(slot)) return true;
    for (auto& [f, to] : t.slots.at(slot)) {
      auto& rv = g.reference_values.at(t.doms[slot]);
      auto it = rv.find({f, e});
      if (it == rv.end()) { err = "reference " + f + " of " + t.doms[slot] + " " + str(e) + " has no value"; return false; }
      if (!go(t, to, it->second, out)) return false;
    }
    return true;
  }
  bool tuple(const std::string& rel, int e, Items& out) {
    auto& t = ts.at(rel);
    out.assign(t.doms.size(), -1);
    return go(t, int(t.doms.size()) - 1, e, out);
  }
};
static VFacts facts_of(HIRM& h, const std::string& rel) {
  VFacts f;
  std::visit([&](auto r) { for (auto& [i, v] : r->get_data()) f[Items(i.begin(), i.end())] = v; }, h.get_relation(rel));
  return f;
}
static Facts facts_of(HIRM& h) { Facts f; for (auto& [n, r] : h.schema) f[n] = facts_of(h, n); return f; }
typedef std::map<std::string, std::map<int, ObservationVariant>> Cells;      // field -> row -> value
struct RefKey { std::string cls, field; int item; auto operator<=>(const RefKey&) const = default; };
static std::string show(const RefKey& k) { return k.cls + "[" + str(k.item) + "]." + k.field; }
static std::map<RefKey, int> refs_of(const GenDB& g) { std::map<RefKey, int> r; for (auto& [c, m] : g.reference_values) for (auto& [k, v] : m) r[{c, k.first, k.second}] = v; return r; }
static std::string show_db(GenDB& g) {
  std::string s;
  for (auto& [k, v] : refs_of(g)) s += show(k) + "=" + str(v) + " ";
  for (auto& [n, f] : facts_of(*g.hirm)) if (!f.empty()) s += n + "{" + show_facts(f) + "} ";
  return s;
}
// Everything G01 and G02 state about one database.  `cells`: the observed values.
// `extra`: record-level values that were sampled are allowed (noisy record class).
static std::string check_db(const ESchema& s, const TRels& ts, const Rels& rels, GenDB& g, const Cells& cells, bool live_only) {
  // references are registered exactly once with the clustering of the class they lead to
  auto refs = refs_of(g);
  std::map<std::string, std::map<int, int>> want;      // class -> customer -> table
  std::map<int, RefKey> ids;
  for (auto& [k, v] : refs) {
    auto* c = s.cls(k.cls);
    const ERef* r = nullptr;
    if (c) for (auto& x : c->refs) if (x.name == k.field) r = &x;
    if (!r) return "there is a value for a reference " + show(k) + " that the schema does not state";
    int id = 0;
    id = g.get_reference_id(k.cls, k.field, k.item);
    if (ids.count(id)) return "references " + show(k) + " and " + show(ids.at(id)) + " have the same identifier";
    ids[id] = k;
    if (v < 0) return show(k) + " leads to entity " + str(v);
    want[r->cls][id] = v;
  }
  double score = 0;
  for (auto& c : s.classes) {
    if (!g.entity_crps.count(c.name)) return "class " + c.name + " has no clustering of entities";
    auto& crp = g.entity_crps.at(c.name);
    auto& w = want[c.name];
    std::map<int, int> got(crp.assignments.begin(), crp.assignments.end());
    if (got != w) {
      std::string t;
      for (auto& [id, v] : w) if (!got.count(id)) t += show(ids.at(id)) + "=" + str(v) + " is not registered; "; else if (got.at(id) != v) t += show(ids.at(id)) + "=" + str(v) + " is registered with entity " + str(got.at(id)) + "; ";
      for (auto& [id, v] : got) if (!w.count(id)) t += (ids.count(id) ? show(ids.at(id)) : "customer " + str(id)) + " is registered with entity " + str(v) + " but no such reference exists; ";
      return "clustering of " + c.name + ": " + t;
    }
    std::map<int, std::set<int>> tab, wt;
    for (auto& [t, m] : crp.tables) for (int x : m) tab[t].insert(x);
    for (auto& [id, v] : w) wt[v].insert(id);
    if (tab != wt || crp.N != int(w.size())) return "the tables of the clustering of " + c.name + " do not match its assignments";
    score += eppf(Seat(w.begin(), w.end()), crp.alpha);
  }
  // every fact sits where the references lead
  Facts facts = facts_of(*g.hirm);
  Follow fo{s, g, ts};
  std::map<std::string, std::map<int, std::set<std::string>>> holds;     // class -> entity -> relations
  std::set<std::string> fields;
  for (auto& f : s.fields) fields.insert(f.name);
  for (auto& [n, fs] : facts) {
    auto& t = ts.at(n);
    for (auto& [it, v] : fs) {
      Items w;
      if (!fo.tuple(n, it.back(), w)) return n + show_items(it) + " is stored but " + fo.err;
      if (w != it) return n + show_items(it) + "=" + show_vv(v) + " is stored, its references lead to " + show_items(w);
      holds[t.doms.back()][it.back()].insert(n);
      if (!t.base.empty() && !facts.at(t.base).count(Items(it.begin(), it.begin() + ts.at(t.base).doms.size()))) return n + show_items(it) + " is stored but its base " + t.base + " has no value there";
    }
  }
  // observed cells
  for (auto& f : s.fields) {
    std::map<int, ObservationVariant> got;
    for (auto& [it, v] : facts.at(f.name)) { if (got.count(it.back())) return "row " + str(it.back()) + " has two values of " + f.name; got[it.back()] = v; }
    auto w = cells.count(f.name) ? cells.at(f.name) : std::map<int, ObservationVariant>();
    for (auto& [row, v] : w) {
      if (!got.count(row)) return "row " + str(row) + " has lost its value of " + f.name;
      if (!(got.at(row) == v)) return "row " + str(row) + " holds " + show_vv(got.at(row)) + " for " + f.name + ", observed was " + show_vv(v);
    }
    for (auto& [row, v] : got) if (!w.count(row)) return "row " + str(row) + " holds a value of " + f.name + " that was not observed";
  }
  // entities other than records hold all values of their class or none
  for (auto& [c, m] : holds) {
    if (c == s.record) continue;
    std::set<std::string> all;
    for (auto& [n, t] : ts) if (t.doms.back() == c) all.insert(n);
    for (auto& [e, ns] : m) if (ns != all) return c + " " + str(e) + " has values of {" + join(ns) + "} but not of all of {" + join(all) + "}";
  }
  // every entity whose reference is stored is a record row or referred to
  if (live_only) {
    std::map<std::string, std::set<int>> live;
    for (auto& [f, m] : cells) for (auto& [row, v] : m) live[s.record].insert(row);
    for (auto& [k, v] : refs) for (auto& r : s.cls(k.cls)->refs) if (r.name == k.field) live[r.cls].insert(v);
    for (auto& [k, v] : refs) if (!live[k.cls].count(k.item)) return "reference " + show(k) + " belongs to an entity that nothing refers to";
    for (auto& [c, m] : holds) for (auto& [e, ns] : m) if (!live[c].count(e)) return c + " " + str(e) + " has values but nothing refers to it";
  }
  std::string e = check_hirm(*g.hirm, rels, all_names(rels), facts);
  if (!e.empty()) return e;
  double got = g.logp_score();
  double wsc = score + g.hirm->logp_score();
  if (!(got == got) || got > 1e300 || got < -1e300) return "the score is " + num(got);
  if (!close(got, wsc, 1e-6)) return "score " + num(got) + ", clusterings and relations sum to " + num(wsc);
  return "";
}
