// H01, H02, H03, I03: hierarchical models.
#include "hstates.hh"
#include "latent.hh"
#include "inference.hh"
#undef exit
typedef std::vector<std::tuple<std::string, T_items, ObservationVariant>> Obs;

// ---- H02 -----------------------------------------------------------------------------
static void h02(const ICfg& c, double ca, double da, int stride, int sstride) {
  all_hstates(c, stride, sstride, {0, 2, 1, 3}, [&](const HState& w) {
    ++S.states;
    for (auto& [r, t0] : w.table) {
      std::string tr = c.name + ": alpha " + num(ca) + "/" + num(da) + " " + show_h(w) + "; re-assign " + r;
      at(tr);
      // reference
      std::map<int, int> sz;
      for (auto& [n, t] : w.table) if (n != r) ++sz[t];
      int fresh = -1;
      std::vector<int> cand;
      for (auto& [t, n] : sz) cand.push_back(t);
      cand.push_back(sz.count(t0) ? fresh : t0);
      auto es = entities(c.rels, {r}, w.facts);
      struct Opt { Seats seats; double p, w; };
      std::vector<std::vector<Opt>> per;
      for (int t : cand) {
        double lw = std::log(sz.count(t) ? double(sz.at(t)) : ca);
        std::vector<Opt> v;
        if (t == t0) {
          v.push_back({w.seat.at(t0), 1.0, lw + score_relation(c.rels, r, w.seat.at(t0), w.facts)});
        } else {
          double al = t == fresh ? 1.0 : da;      // a fresh submodel has default concentration
          Seats base = t == fresh ? Seats() : w.seat.at(t);
          std::vector<std::pair<std::string, int>> miss;
          for (auto& [d, s] : es) { if (!base.count(d)) base[d]; for (int e : s) if (!base[d].count(e)) miss.push_back({d, e}); }
          std::function<void(size_t, Seats, double)> go = [&](size_t k, Seats s, double p) {
            if (k == miss.size()) { v.push_back({s, p, lw + score_relation(c.rels, r, s, w.facts)}); return; }
            auto& [d, e] = miss[k];
            // a domain the candidate does not have yet is new there
            double a = (t != fresh && w.seat.at(t).count(d)) ? al : 1.0;
            std::map<int, int> n;
            for (auto& [i, tab] : s[d]) ++n[tab];
            double z = s[d].size() + a;
            for (auto& [tab, m] : n) { Seats y = s; y[d][e] = tab; go(k + 1, y, p * m / z); }
            Seats y = s; y[d][e] = fresh_table(s[d]); go(k + 1, y, p * a / z);
          };
          go(0, base, 1.0);
        }
        per.push_back(v);
      }
      std::map<std::string, double> law, got;
      auto name_of = [&](int t, Seats s) {
        // only what concerns the relation and its submodel
        return std::string(t == fresh ? "fresh" : "#" + std::to_string(t)) + " " + canon(s);
      };
      std::vector<size_t> ix(per.size(), 0);
      for (;;) {
        double p = 1;
        std::vector<double> lw;
        for (size_t k = 0; k < per.size(); ++k) { p *= per[k][ix[k]].p; lw.push_back(per[k][ix[k]].w); }
        double z = lse(lw);
        for (size_t k = 0; k < per.size(); ++k) law[name_of(cand[k], per[k][ix[k]].seats)] += p * std::exp(lw[k] - z);
        size_t k = 0;
        while (k < ix.size() && ++ix[k] == per[k].size()) ix[k++] = 0;
        if (k == ix.size()) break;
      }
      std::unique_ptr<HIRM> h;
      std::string err = guarded([&] {
        enumerate(Opts(), [&] {
          if (h) h.reset();
          h = build_hirm(c.rels, w, ca, da);
          h->transition_cluster_assignment_relation(nullptr_prng(), r);
        }, [&](const Exec& x) {
          ++S.transitions;
          int t = h->relation_to_table(r);
          std::set<int> old;
          for (auto& [n, q] : w.table) old.insert(q);
          got[name_of(old.count(t) ? t : fresh, seats_of(*h->irms.at(t)))] += x.prob;
          std::string e = check_hirm(*h, c.rels, all_names(c.rels), w.facts);
          for (auto& [n, q] : w.table) if (n != r && h->relation_to_table(n) != q) e = n + " moved as well";
          if (!e.empty()) violation("H02:" + c.name + ":state", e, tr + " " + x.str());
        });
      });
      ++S.traces;
      if (!err.empty()) { violation("H02:" + c.name + ":error", err, tr); if (h) h.release(); continue; }
      std::string why;
      if (!same_dist(got, law, 1e-7, &why)) violation("H02:" + c.name + ":law", why, tr);
    }
  });
  sample(c.name + ": " + std::to_string(S.states) + " states");
}

// ---- H01 -----------------------------------------------------------------------------
struct HOp { std::string k, rel; Items items; int val = 0; std::string dom; int ent = 0; int table = 0; };
static std::string show_hop(const HOp& o) {
  std::string s = o.k;
  if (!o.rel.empty()) s += " " + o.rel;
  if (!o.items.empty()) s += show_items(o.items) + (o.k == "add" ? "=v" + std::to_string(o.val) : "");
  if (o.k == "move") s += " to #" + std::to_string(o.table);
  if (o.k == "recluster") s += " in #" + std::to_string(o.table) + " " + o.dom + " " + std::to_string(o.ent);
  return s;
}
static void apply(HIRM& h, const Rels& rels, const HOp& o) {
  auto* g = nullptr_prng();
  if (o.k == "add") h.incorporate(g, o.rel, o.items, vals_of(rels.at(o.rel))[o.val]);
  else if (o.k == "remove") h.unincorporate(o.rel, o.items);
  else if (o.k == "add-relation") h.add_relation(g, o.rel, t_rel(rels.at(o.rel)));
  else if (o.k == "remove-relation") h.remove_relation(o.rel);
  else if (o.k == "move") h.set_cluster_assignment_gibbs(g, o.rel, o.table);
  else if (o.k == "re-assign") h.transition_cluster_assignment_relation(g, o.rel);
  else if (o.k == "re-assign-all") h.transition_cluster_assignments_all(g);
  else if (o.k == "recluster") h.irms.at(o.table)->transition_cluster_assignment_item(g, o.dom, o.ent);
  else if (o.k == "latents") h.transition_latent_values_relation(g, o.rel);
  else if (o.k == "cleanup") h.cleanup_relation_clusters();
  else if (o.k == "step") inference_hirm(g, &h, 1, 0, false);
}
static std::string key_h(HIRM& h, const std::set<std::string>& in, const Facts& f) {
  std::string s = join(in) + "/";
  for (auto& n : in) s += n + "#" + std::to_string(h.relation_to_table(n)) + " ";
  std::map<int, std::string> m;
  for (auto& [t, i] : h.irms) {
    m[t] = "";
    for (auto& [d, x] : seats_of(*i)) m[t] += d + "[" + show_seat(x) + "]";
    m[t] += num(std::round(i->logp_score() * 1e6) / 1e6);
  }
  for (auto& [t, x] : m) s += std::to_string(t) + ":" + x + " ";
  for (auto& [n, x] : f) if (!x.empty()) s += n + "{" + show_facts(x) + "}";
  return s;
}
static void h01(const ICfg& c, size_t max_states, int max_len) {
  struct Node { std::set<std::string> in; Facts facts; std::vector<HOp> path; std::vector<int> picks; };
  std::deque<Node> q;
  std::set<std::string> seen;
  bool capped = false;
  auto make = [&] { return new HIRM(schema_of(c.rels), nullptr_prng()); };
  auto reps = [&](std::unique_ptr<HIRM>& h, const Node& n) {
    pin(n.picks);
    h.reset(make());
    for (auto& p : n.path) apply(*h, c.rels, p);
    unpin();
  };
  {
    std::unique_ptr<HIRM> h;
    enumerate(Opts(), [&] { h.reset(make()); }, [&](const Exec& x) {
      Node n0;
      n0.in = all_names(c.rels);
      n0.picks = x.picks;
      ++S.transitions;
      std::string e = check_hirm(*h, c.rels, n0.in, {});
      if (!e.empty()) violation("H01:" + c.name + ":new", e, c.name + ": new model " + x.str());
      if (seen.insert(key_h(*h, n0.in, {})).second) q.push_back(n0);
    });
  }
  while (!q.empty() && !too_many()) {
    Node n = std::move(q.front());
    q.pop_front();
    ++S.states;
    // operations of this state
    std::vector<HOp> ops;
    {
      std::unique_ptr<HIRM> h;
      std::string err = guarded([&] { enumerate(Opts(), [&] { reps(h, n); }, [&](const Exec&) {}); });
      if (!err.empty()) throw Divergence("a reached state cannot be replayed: " + err);
      std::set<int> tabs;
      for (auto& [t, m] : h->irms) tabs.insert(t);
      tabs.insert(*tabs.rbegin() + 1);
      if (tabs.empty()) tabs.insert(0);
      for (auto& [nm, m] : c.rels) {
        bool used = false;
        for (auto& x : n.in) used |= c.rels.at(x).base == nm;
        if (!n.in.count(nm)) { if (m.base.empty() || n.in.count(m.base)) ops.push_back({"add-relation", nm}); continue; }
        if (!used && n.in.size() > 1) ops.push_back({"remove-relation", nm});
        VFacts f = n.facts.count(nm) ? n.facts.at(nm) : VFacts();
        all_tuples(m.s.doms, c.ents, [&](const Items& t) {
          if (!f.count(t)) {
            if (int(f.size()) >= c.max_facts) return;
            if (!m.base.empty() && (!n.facts.count(m.base) || !n.facts.at(m.base).count(Items(t.begin(), t.begin() + c.rels.at(m.base).s.doms.size())))) return;
            ops.push_back({"add", nm, t, int(f.size()) % 2});
            return;
          }
          for (auto& x : n.in) if (c.rels.at(x).base == nm && n.facts.count(x)) for (auto& [it, v] : n.facts.at(x)) if (Items(it.begin(), it.begin() + t.size()) == t) return;
          ops.push_back({"remove", nm, t});
        });
        for (int t : tabs) ops.push_back({"move", nm, {}, 0, "", 0, t});
        ops.push_back({"re-assign", nm});
        if (used) ops.push_back({"latents", nm});
      }
      for (auto& [t, m] : h->irms) for (auto& [d, x] : m->domains) for (int e : x->items) ops.push_back({"recluster", "", {}, 0, d, e, t});
      ops.push_back({"re-assign-all"});
      ops.push_back({"cleanup"});
      ops.push_back({"step"});
    }
    for (auto& o : ops) {
      std::string tr = c.name + ":";
      for (auto& p : n.path) tr += " " + show_hop(p) + ";";
      tr += " " + show_hop(o);
      at(tr);
      auto in = n.in;
      Facts facts = n.facts;
      if (o.k == "add") facts[o.rel][o.items] = vals_of(c.rels.at(o.rel))[o.val];
      if (o.k == "remove") facts[o.rel].erase(o.items);
      if (o.k == "add-relation") in.insert(o.rel);
      if (o.k == "remove-relation") { in.erase(o.rel); facts.erase(o.rel); }
      Opts opt;
      if (o.k == "step" || o.k == "re-assign-all") { opt.max_alts = 3; opt.max_dev = thorough() ? 2 : 1; opt.min_p = 1e-3; }
      opt.max_exec = o.k == "step" ? (thorough() ? 80 : 25) : 60;
      std::unique_ptr<HIRM> h;
      std::string err = guarded([&] {
        enumerate(opt, [&] {
          if (h) h.reset();
          reps(h, n);
          apply(*h, c.rels, o);
        }, [&](const Exec& x) {
          ++S.transitions;
          Facts f2 = facts;
          if (o.k == "latents" || o.k == "step")
            for (auto& r : in) {
              auto& mr = c.rels.at(r);
              bool base = false;
              for (auto& z : in) base |= c.rels.at(z).base == r;
              if (!base || (o.k == "latents" && r != o.rel) || (o.k == "step" && mr.observed)) continue;
              with_type(mr.type, [&](auto tag) {
                using T = decltype(tag);
                auto& data = std::get<Relation<T>*>(h->get_relation(r))->get_data();
                for (auto& [it, v] : f2[r]) if (data.count(it)) v = ObservationVariant(T(data.at(it)));
                return 0;
              });
            }
          std::string e = check_hirm(*h, c.rels, in, f2);
          if (e.empty() && o.k == "move" && h->relation_to_table(o.rel) != o.table) e = "the relation is not where it was put";
          if (!e.empty()) { violation("H01:" + c.name + ":" + o.k, e, tr + " " + x.str()); return; }
          if (int(n.path.size()) + 1 >= max_len || seen.size() >= max_states) { capped = true; return; }
          if (seen.insert(key_h(*h, in, f2)).second) {
            Node k{in, f2, n.path, n.picks};
            k.path.push_back(o);
            k.picks.insert(k.picks.end(), x.picks.begin(), x.picks.end());
            q.push_back(k);
          }
        });
      });
      if (!err.empty()) { violation("H01:" + c.name + ":" + o.k + ":error", err, tr); if (h) h.release(); continue; }
      if (too_many() && h) h.release();
    }
    ++S.traces;
  }
  S.exhaustive = false;
  sample(c.name + ": " + std::to_string(seen.size()) + " states");
  if (capped) cap(c.name + ": histories up to length " + std::to_string(max_len) + ", first " + std::to_string(seen.size()) + " states breadth-first");
}

// ---- H03 --------------------------------------------------------------------------------
template <class T> std::string text_of(const T& v) { std::ostringstream s; s << v; return s.str(); }
static Facts facts_of(HIRM& h, const Rels& rels) {
  Facts f;
  for (auto& [n, m] : rels) with_type(m.type, [&](auto tag) {
    using T = decltype(tag);
    f[n];
    for (auto& [it, v] : std::get<Relation<T>*>(h.get_relation(n))->get_data()) f[n][it] = ObservationVariant(T(v));
    return 0;
  });
  return f;
}
static bool legal(const MRel& m, const ObservationVariant& v) {
  switch (m.type) {
    case 'b': return true;
    case 'd': return std::isfinite(std::get<double>(v));
    case 'i': return std::get<int>(v) >= 0 && std::get<int>(v) < 3;
    default: return std::get<std::string>(v) == "a" || std::get<std::string>(v) == "b";
  }
}
static void h03(const ICfg& c, int n, int stride, int sstride, double ca) {
  std::set<std::string> bases;
  for (auto& [r, m] : c.rels) if (!m.base.empty()) bases.insert(m.base);
  all_hstates(c, stride, sstride, {0, 1, 2, 3}, [&](const HState& w) {
    ++S.states;
    std::string tr = c.name + ": " + show_h(w) + "; draw " + std::to_string(n);
    at(tr);
    std::unique_ptr<HIRM> h;
    T_encoded_observations obs;
    Opts o;
    o.quantiles = 2;
    o.min_exec_p = n == 1 ? 1e-3 : 1e-2;
    o.max_dev = 3;
    o.horizon = 40 + 20 * n;
    o.max_exec = 300;
    long ended = 0;
    std::string err = guarded([&] {
      enumerate(o, [&] {
        if (h) h.reset();
        h = build_hirm(c.rels, w, 1, ca);
        obs = h->sample_and_incorporate(nullptr_prng(), n);
      }, [&](const Exec& x) {
        ++S.transitions;
        ++ended;
        Facts f = facts_of(*h, c.rels), expect = w.facts;
        std::string e;
        for (auto& [r, v] : obs) if (!c.rels.count(r) || bases.count(r)) { if (!v.empty()) e = "facts were drawn for " + r; }
        for (auto& [r, m] : c.rels) {
          if (bases.count(r)) continue;
          size_t k = obs.count(r) ? obs.at(r).size() : 0;
          if (int(k) != n) { e = std::to_string(k) + " facts of " + r + " were returned"; break; }
          if (!k) continue;
          for (auto& [it, txt] : obs.at(r)) {
            if (expect[r].count(it)) { e = r + show_items(it) + " was already there or drawn twice"; break; }
            if (!f[r].count(it)) { e = r + show_items(it) + " was returned but is not in the model"; break; }
            auto v = f[r][it];
            if (std::visit([](const auto& q) { return text_of(q); }, v) != txt) { e = r + show_items(it) + " was returned as " + quote(txt) + " but is held as " + show_vv(v); break; }
            if (!legal(m, v)) { e = r + show_items(it) + "=" + show_vv(v) + " is not a legal value"; break; }
            expect[r][it] = v;
            // the base facts it needs
            Items i = it;
            std::string cur = r;
            while (!c.rels.at(cur).base.empty()) {
              cur = c.rels.at(cur).base;
              i.resize(c.rels.at(cur).s.doms.size());
              if (expect[cur].count(i)) continue;
              if (!f[cur].count(i)) { e = "base fact " + cur + show_items(i) + " is missing"; break; }
              expect[cur][i] = f[cur][i];
            }
          }
        }
        if (e.empty())
          for (auto& [r, m] : c.rels)
            if (f[r] != expect[r]) e = r + " holds " + show_facts(f[r]) + ", expected " + show_facts(expect[r]);
        if (e.empty()) e = check_hirm(*h, c.rels, all_names(c.rels), f);
        if (!e.empty()) violation("H03:" + c.name, e, tr + " " + x.str());
      });
    });
    ++S.traces;
    if (err.empty() && !ended) {    // every execution was cut: under outcomes taken in turn drawing must end
      err = guarded([&] {
        if (h) h.reset();
        h = build_hirm(c.rels, w, 1, ca);
        long k = 0;
        Scripted turn([&](const std::vector<double>& p) { if (++k > 3000) throw std::runtime_error("drawing does not end"); int i = k % p.size(); for (size_t q = 0; q < p.size() && !(p[i] > 0); ++q) i = (i + 1) % p.size(); return i; });
        obs = h->sample_and_incorporate(nullptr_prng(), n);
      });
    }
    if (!err.empty()) { violation("H03:" + c.name + ":error", err, tr); if (h) h.release(); }
  });
  S.exhaustive = false;
  cap(c.name + ": draws with at most 3 deviations from the most probable outcome, execution probability >= " + num(n == 1 ? 1e-3 : 1e-2));
}

// ---- I03 (several submodels) ---------------------------------------------------------------
static void i03h(const ICfg& c, int stride, int sstride) {
  all_hstates(c, stride, sstride, {0, 1, 2, 3}, [&](const HState& w) {
    ++S.states;
    auto h = build_hirm(c.rels, w, 1, 1.5);
    Obs cand;
    auto ents = c.ents;
    for (auto& [d, k] : ents) k += 1;
    for (auto& [n, r] : c.rels) all_tuples(r.s.doms, ents, [&](const Items& t) {
      if (w.facts.count(n) && w.facts.at(n).count(t)) return;
      cand.push_back({n, t, vals_of(r)[t[0] % 2]});
    });
    auto ask = [&](Obs obs) {
      std::map<int, Obs> by;
      for (auto& o : obs) by[w.table.at(std::get<0>(o))].push_back(o);
      double want = 0, got = 0;
      std::string tr = c.name + ": " + show_h(w) + "; logp of";
      for (auto& [n, t, v] : obs) tr += " " + n + show_items(t) + "=" + show_vv(v);
      at(tr);
      std::string err = guarded([&] {
        for (auto& [t, o] : by) want += h->irms.at(t)->logp(o, nullptr_prng());
        got = h->logp(obs, nullptr_prng());
      });
      ++S.transitions;
      if (!err.empty()) violation("I03:" + c.name + ":error", err, tr);
      else if (!close(got, want, 1e-8)) violation("I03:" + c.name + ":product", num(got) + ", the submodels give " + num(want), tr);
    };
    for (size_t i = 0; i < cand.size(); ++i) { ask({cand[i]}); for (size_t j = 0; j < cand.size(); ++j) if (i != j) ask({cand[i], cand[j]}); }
    std::string e = check_hirm(*h, c.rels, all_names(c.rels), w.facts);
    if (!e.empty()) violation("I03:" + c.name + ":changes-state", e, c.name + ": " + show_h(w));
    ++S.traces;
  });
}

// ---- H01, schemas whose bases are missing or circular are refused, all others built ---------
static void h01_bases() {
  base_graphs([&](const Rels& r, bool ok, const std::string& label) {
    at(label);
    ++S.states;
    std::unique_ptr<HIRM> h;
    Opts o; o.max_dev = 1;
    std::string e = guarded([&] { enumerate(o, [&] { h.reset(); h = std::make_unique<HIRM>(schema_of(r), nullptr_prng()); }, [&](const Exec& x) {
      ++S.transitions;
      if (!ok) { violation("H01:bases", "a schema with a missing or circular base was accepted", label); (void)h.release(); return; }
      std::string b = check_hirm(*h, r, all_names(r), {});
      if (!b.empty()) violation("H01:bases", b, label + x.str());
    }); });
    if (ok && !e.empty()) violation("H01:bases", "refused: " + e, label);
  });
  sample("every base relation for each of three relations, itself and an absent one included");
}

// ---- N02, all latent values of a relation ---------------------------------------------------
static void n02_whole(const ICfg& c, int stride, int sstride) {
  all_hstates(c, stride, sstride, {0, 1, 2, 3}, [&](const HState& w) {
    std::unique_ptr<HIRM> m;
    whole_relation("N02:hierarchical", c.rels, w.facts, c.name + ": " + show_h(w), [&]() -> GetRel { m = build_hirm(c.rels, w, 1, 1.5); return [&](const std::string& n) { return m->get_relation(n); }; }, [&](const std::string& b) { m->transition_latent_values_relation(nullptr_prng(), b); });
  });
}

struct Reg {
  Reg() {
    add_shard("H01", "bases", h01_bases);
    for (auto& c : hconfigs()) {
      bool t = false;
      (void)t;
      add_shard("H01", c.name, [c] { h01(c, thorough() ? 4000 : 500, thorough() ? 14 : 10); });
      for (auto [ca, da] : std::vector<std::pair<double, double>>{{1, 1}, {2.5, 0.5}})
        add_shard("H02", c.name + " alpha " + num(ca), [c, ca, da] { h02(c, ca, da, thorough() ? 1 : c.stride, thorough() ? 1 : 3); });
      for (int n : {0, 1, 2})
        add_shard("H03", c.name + " n=" + std::to_string(n), [c, n] { h03(c, n, (thorough() ? 1 : 5) * c.stride, pick(3, 2, 1), n == 1 ? 1.0 : 2.5); });
      bool clean = true;
      for (auto& [n, m] : c.rels) clean &= m.base.empty();
      if (!clean) add_shard("N02", "submodels of " + c.name, [c] { n02_whole(c, (thorough() ? 1 : 5) * c.stride, thorough() ? 2 : 9); });
      if (clean) add_shard("I03", "submodels of " + c.name, [c] { i03h(c, (thorough() ? 2 : 9) * c.stride, 7); });
    }
  }
} reg;
