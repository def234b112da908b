// I01, I02, I03: relational models.
#include "states.hh"
#include "latent.hh"

// ---- I01 ------------------------------------------------------------------------------
static void i01(const ICfg& c, const std::vector<int>& names, double al, int stride) {
  auto in = all_names(c.rels);
  std::map<std::string, double> alpha;
  for (auto& [d, n] : c.ents) alpha[d] = al;
  all_states(c, names, stride, [&](const Seats& seat, const Facts& facts) {
    ++S.states;
    for (auto& [d, st] : seat)
      for (auto& [e, t0] : st) {
        std::string tr = c.name + ": alpha " + num(al) + " " + show_state(seat, facts) + "; re-cluster " + d + " " + std::to_string(e);
        at(tr);
        Seat rest = st;
        rest.erase(e);
        std::set<int> cand = tables(rest);
        cand.insert(fresh_table(st) + 3);      // the fresh one
        std::map<std::string, double> law, got;
        std::vector<double> lw;
        std::vector<std::string> key;
        for (int t : cand) {
          Seats s2 = seat;
          s2[d][e] = t;
          lw.push_back(score_irm(c.rels, in, s2, facts, alpha));
          key.push_back(canon(s2[d]));
        }
        double z = lse(lw);
        for (size_t k = 0; k < lw.size(); ++k) law[key[k]] += std::exp(lw[k] - z);
        std::unique_ptr<IRM> m;
        std::string err = guarded([&] {
          enumerate(Opts(), [&] {
            if (m) m.reset();
            m = build_irm(c.rels, seat, facts, alpha);
            m->transition_cluster_assignment_item(nullptr_prng(), d, e);
          }, [&](const Exec& x) {
            ++S.transitions;
            Seats s2 = seats_of(*m);
            got[canon(s2[d])] += x.prob;
            Seats w = seat;
            if (s2[d].count(e)) w[d][e] = s2[d][e];
            std::string q = check_irm(*m, c.rels, in, w, facts);
            if (!q.empty()) violation("I01:" + c.name + ":state", q, tr + " -> " + show_seat(s2[d]));
          });
        });
        ++S.traces;
        if (!err.empty()) { violation("I01:" + c.name + ":error", err, tr); if (m) m.release(); continue; }
        std::string why;
        if (!same_dist(got, law, 1e-7, &why)) violation("I01:" + c.name + ":law", why, tr);
      }
  });
  sample(c.name + ": " + std::to_string(S.states) + " states");
}

// ---- I02: histories ---------------------------------------------------------------------
struct IOp { std::string k, rel; Items items; int val = 0; std::string dom; int ent = 0; };
static std::string show_iop(const IOp& o) {
  std::string s = o.k;
  if (!o.rel.empty()) s += " " + o.rel;
  if (!o.items.empty()) s += show_items(o.items) + (o.k == "add" ? "=v" + std::to_string(o.val) : "");
  if (!o.dom.empty()) s += " " + o.dom + (o.k == "recluster" ? " " + std::to_string(o.ent) : "");
  return s;
}
static void apply(IRM& m, const Rels& rels, const IOp& o) {
  auto* g = nullptr_prng();
  if (o.k == "add") m.incorporate(g, o.rel, o.items, vals_of(rels.at(o.rel))[o.val]);
  else if (o.k == "remove") m.unincorporate(o.rel, o.items);
  else if (o.k == "add-relation") std::visit([&](auto t) { m.add_relation(o.rel, t); }, t_rel(rels.at(o.rel)));
  else if (o.k == "remove-relation") m.remove_relation(o.rel);
  else if (o.k == "recluster") m.transition_cluster_assignment_item(g, o.dom, o.ent);
  else if (o.k == "recluster-all") m.transition_cluster_assignments(g, {o.dom});
  else if (o.k == "recluster-everything") m.transition_cluster_assignments_all(g);
  else if (o.k == "latents") m.transition_latent_values_relation(g, o.rel);
  else if (o.k == "hyper") std::visit([&](auto r) { r->transition_cluster_hparams(g, 1); }, m.relations.at(o.rel));
  else if (o.k == "alpha") m.domains.at(o.dom)->crp.transition_alpha(g);
  else if (o.k == "step") { double t = 0; single_step_irm_inference(g, &m, t, false, 1, true); }
}
struct IState { std::set<std::string> in; Facts facts; Seats seat; std::string hyper; };
static std::vector<IOp> iops(const ICfg& c, const IState& w) {
  std::vector<IOp> o;
  for (auto& [n, m] : c.rels) {
    bool used = false;
    for (auto& q : w.in) used |= c.rels.at(q).base == n;
    if (!w.in.count(n)) { if (m.base.empty() || w.in.count(m.base)) o.push_back({"add-relation", n}); continue; }
    if (!used) o.push_back({"remove-relation", n});
    const VFacts& f = w.facts.count(n) ? w.facts.at(n) : VFacts();
    all_tuples(m.s.doms, c.ents, [&](const Items& t) {
      if (!f.count(t)) {
        if (int(f.size()) >= c.max_facts) return;
        if (!m.base.empty() && (!w.facts.count(m.base) || !w.facts.at(m.base).count(Items(t.begin(), t.begin() + c.rels.at(m.base).s.doms.size())))) return;
        for (int v = 0; v < 2; ++v) if (v == 0 || c.max_facts < 3) o.push_back({"add", n, t, v});
        return;
      }
      for (auto& q : w.in) if (c.rels.at(q).base == n && w.facts.count(q)) for (auto& [it, v] : w.facts.at(q)) if (Items(it.begin(), it.begin() + t.size()) == t) return;
      o.push_back({"remove", n, t});
    });
    if (!f.empty()) o.push_back({"hyper", n});
    if (used) o.push_back({"latents", n});
  }
  for (auto& [d, s] : w.seat) {
    for (auto& [e, t] : s) o.push_back({"recluster", "", {}, 0, d, e});
    if (s.size() > 1) o.push_back({"recluster-all", "", {}, 0, d});
    if (!s.empty()) o.push_back({"alpha", "", {}, 0, d});
  }
  o.push_back({"recluster-everything"});
  o.push_back({"step"});
  return o;
}
static std::string key_of(const IState& s) { return vp::join(s.in) + "/" + show_state(s.seat, s.facts) + "/" + s.hyper; }
static void i02(const ICfg& c, size_t max_states, int max_len) {
  struct Node { IState w; std::vector<IOp> path; std::vector<int> picks; };
  std::deque<Node> q;
  std::set<std::string> seen;
  Node n0;
  n0.w.in = all_names(c.rels);
  n0.w.seat = seats_of(*build_irm(c.rels, {}, {}, {}));
  q.push_back(n0);
  seen.insert(key_of(n0.w));
  bool capped = false;
  while (!q.empty() && !too_many()) {
    Node n = std::move(q.front());
    q.pop_front();
    ++S.states;
    for (auto& o : iops(c, n.w)) {
      std::string tr = c.name + ":";
      for (auto& p : n.path) tr += " " + show_iop(p) + ";";
      tr += " " + show_iop(o);
      at(tr);
      IState w = n.w;
      if (o.k == "add") w.facts[o.rel][o.items] = vals_of(c.rels.at(o.rel))[o.val];
      if (o.k == "remove") w.facts[o.rel].erase(o.items);
      if (o.k == "add-relation") w.in.insert(o.rel);
      if (o.k == "remove-relation") { w.in.erase(o.rel); w.facts.erase(o.rel); }
      auto ents = entities(c.rels, w.in, w.facts);
      Opts opt;
      bool hy = o.k == "hyper" || o.k == "alpha";
      if (hy) { opt.max_alts = 2; opt.max_dev = 1; }
      if (o.k == "step") { opt.max_alts = 3; opt.max_dev = thorough() ? 2 : 1; opt.min_p = 1e-4; }
      opt.max_exec = o.k == "step" ? 60 : 400;
      std::unique_ptr<IRM> m;
      std::vector<int> picks;
      std::string err = guarded([&] {
        enumerate(opt, [&] {
          if (m) m.reset();
          m.reset(new IRM(schema_of(c.rels)));
          pin(n.picks);
          for (auto& p : n.path) apply(*m, c.rels, p);
          unpin();
          apply(*m, c.rels, o);
        }, [&](const Exec& x) {
          ++S.transitions;
          IState w2 = w;
          Seats s = seats_of(*m);
          std::string e;
          // which parts of the clustering may differ
          for (auto& [d, es] : ents) {
            Seat& t = s[d];
            for (auto& [i, tab] : w.seat[d]) {
              bool may = (o.k == "recluster" && o.dom == d && o.ent == i) || (o.k == "recluster-all" && o.dom == d) || o.k == "recluster-everything" || o.k == "step";
              if (es.count(i) && !may && (!t.count(i) || t.at(i) != tab)) e = "entity " + std::to_string(i) + " of " + d + " moved or vanished";
            }
          }
          w2.seat = s;
          // base facts may only change by re-estimation, and only to values seen in noisy facts
          if (o.k == "latents" || o.k == "step")
            for (auto& r : w.in) {
              auto& mr = c.rels.at(r);
              bool base = false;
              for (auto& z : w.in) base |= c.rels.at(z).base == r;
              if (!base || (o.k == "latents" && r != o.rel) || (o.k == "step" && mr.observed)) continue;
              with_type(mr.type, [&](auto tag) {
                using T = decltype(tag);
                auto& data = std::get<Relation<T>*>(m->relations.at(r))->get_data();
                for (auto& [it, v] : w2.facts[r]) if (data.count(it)) v = ObservationVariant(T(data.at(it)));
                return 0;
              });
            }
          if (e.empty()) e = check_irm(*m, c.rels, w.in, s, w2.facts, 1e-6);
          if (!e.empty()) { violation("I02:" + c.name + ":" + o.k, e, tr + " " + x.str()); return; }
          w2.hyper = hyper_of(*m);
          for (auto it = w2.seat.begin(); it != w2.seat.end();) if (!ents.count(it->first)) it = w2.seat.erase(it); else ++it;
          if (int(n.path.size()) + 1 >= max_len || seen.size() >= max_states) { capped = true; return; }
          if (seen.insert(key_of(w2)).second) {
            Node k{w2, n.path, n.picks};
            k.path.push_back(o);
            k.picks.insert(k.picks.end(), x.picks.begin(), x.picks.end());
            q.push_back(k);
          }
        });
      });
      if (!err.empty()) { violation("I02:" + c.name + ":" + o.k + ":error", err, tr); if (m) m.release(); continue; }
      if (m && too_many()) m.release();
    }
    ++S.traces;
  }
  S.exhaustive = false;
  sample(c.name + ": " + std::to_string(seen.size()) + " states");
  if (capped) cap(c.name + ": histories up to length " + std::to_string(max_len) + ", first " + std::to_string(seen.size()) + " states breadth-first");
}

// ---- I03 -----------------------------------------------------------------------------------
typedef std::vector<std::tuple<std::string, T_items, ObservationVariant>> Obs;
static void i03(const ICfg& c, double al, int stride) {
  auto in = all_names(c.rels);
  std::map<std::string, double> alpha;
  for (auto& [d, n] : c.ents) alpha[d] = al;
  all_states(c, {0, 1, 2, 3}, stride, [&](const Seats& seat, const Facts& facts) {
    ++S.states;
    auto m = build_irm(c.rels, seat, facts, alpha);
    // candidate new facts
    std::vector<std::tuple<std::string, T_items, ObservationVariant>> cand;
    auto ents = c.ents;
    for (auto& [d, n] : ents) n += 1;
    for (auto& [n, r] : c.rels) all_tuples(r.s.doms, ents, [&](const Items& t) {
      if (facts.count(n) && facts.at(n).count(t)) return;
      int k = 0;
      for (int i : t) k += i;
      cand.push_back({n, t, vals_of(r)[k % 2]});
    });
    auto ask = [&](const Obs& obs) {
      // unseen entities
      std::vector<std::pair<std::string, int>> un;
      std::map<std::string, int> per;
      for (auto& [n, t, v] : obs)
        for (size_t k = 0; k < t.size(); ++k) {
          auto& d = c.rels.at(n).s.doms[k];
          if (seat.count(d) && seat.at(d).count(t[k])) continue;
          if (std::count(un.begin(), un.end(), std::make_pair(d, t[k]))) continue;
          un.push_back({d, t[k]});
          if (++per[d] > 1) return;      // two unseen entities of one domain: outside the property
        }
      std::vector<double> terms;
      std::function<void(size_t, Seats, double)> go = [&](size_t k, Seats s, double lw) {
        if (k < un.size()) {
          auto& [d, e] = un[k];
          Seat st = seat.count(d) ? seat.at(d) : Seat();
          std::map<int, int> sz;
          for (auto& [i, t] : st) ++sz[t];
          for (auto& [t, n] : sz) { Seats y = s; y[d][e] = t; go(k + 1, y, lw + std::log(n / (st.size() + al))); }
          Seats y = s; y[d][e] = fresh_table(st) + 5; go(k + 1, y, lw + std::log(al / (st.size() + al)));
          return;
        }
        double lp = lw;
        for (auto& [n, t, v] : obs) {
          auto& r = c.rels.at(n);
          auto cell_of = [&](const Items& i) { Items z; for (size_t q = 0; q < i.size(); ++q) z.push_back(s.at(r.s.doms[q]).at(i[q])); return z; };
          Items z = cell_of(t);
          const auto& vv = v;
          lp += with_type(r.type, [&](auto tag) {
            using T = decltype(tag);
            std::vector<T> cell;
            if (facts.count(n)) for (auto& [i, x] : facts.at(n)) if (cell_of(i) == z) cell.push_back(std::get<T>(x));
            return dist_of<T>(r.s, cell)->logp(std::get<T>(vv));
          });
        }
        terms.push_back(lp);
      };
      go(0, seat, 0);
      double want = lse(terms), got = 0;
      std::string tr = c.name + ": alpha " + num(al) + " " + show_state(seat, facts) + "; logp of";
      for (auto& [n, t, v] : obs) tr += " " + n + show_items(t) + "=" + show_vv(v);
      at(tr);
      std::string err = guarded([&] { got = m->logp(obs, nullptr_prng()); });
      ++S.transitions;
      if (!err.empty()) violation("I03:" + c.name + ":error", err, tr);
      else if (!close(got, want, 1e-7)) violation("I03:" + c.name + ":logp", num(got) + ", the sum over placements is " + num(want), tr);
    };
    for (size_t i = 0; i < cand.size(); ++i) {
      ask({cand[i]});
      for (size_t j = i + 1; j < cand.size(); ++j) {
        ask({cand[i], cand[j]});
        if (thorough() || S.states % 7 == 0) { ask({cand[j], cand[i]}); size_t k = (i + 2 * j) % cand.size(); if (k != i && k != j) ask({cand[i], cand[j], cand[k]}); }
      }
    }
    ++S.traces;
    std::string e = check_irm(*m, c.rels, in, seat, facts);
    if (!e.empty()) violation("I03:" + c.name + ":changes-state", e, c.name + ": " + show_state(seat, facts));
  });
}

// ---- I02, schemas whose bases are missing or circular are refused, all others built ---------
static void i02_bases() {
  base_graphs([&](const Rels& r, bool ok, const std::string& label) {
    at(label);
    ++S.states; ++S.transitions;
    std::unique_ptr<IRM> m;
    std::string e = guarded([&] { m = std::make_unique<IRM>(schema_of(r)); });
    if (!ok && e.empty()) { violation("I02:bases", "a schema with a missing or circular base was accepted", label); (void)m.release(); }
    if (ok && !e.empty()) violation("I02:bases", "refused: " + e, label);
    if (ok && e.empty()) { Facts none; for (auto& n : all_names(r)) none[n]; Seats s; s["D"]; e = check_irm(*m, r, all_names(r), s, none); if (!e.empty()) violation("I02:bases", e, label); }
  });
  sample("every base relation for each of three relations, itself and an absent one included");
}

// ---- N02, all latent values of a relation ---------------------------------------------------
static void n02_whole(const ICfg& c, int stride) {
  std::map<std::string, double> alpha;
  for (auto& [d, n] : c.ents) alpha[d] = 1.5;
  all_states(c, {0, 1, 2, 3}, stride, [&](const Seats& s, const Facts& f) {
    std::unique_ptr<IRM> m;
    whole_relation("N02:relational", c.rels, f, c.name + ": " + show_state(s, f), [&]() -> GetRel { m = build_irm(c.rels, s, f, alpha); return [&](const std::string& n) { return m->relations.at(n); }; }, [&](const std::string& b) { m->transition_latent_values_relation(nullptr_prng(), b); });
  });
}

struct Reg {
  Reg() {
    add_shard("I02", "bases", i02_bases);
    for (auto& c : configs()) {
      for (double al : {1.0, 2.5}) {
        add_shard("I01", c.name + " alpha " + num(al), [c, al] { i01(c, al == 1.0 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{4, 0, 2, 7}, al, thorough() ? 1 : c.stride); });
      }
      add_shard("I02", c.name, [c] { i02(c, thorough() ? 12000 : 1200, thorough() ? 14 : 10); });
      bool clean = true;
      for (auto& [n, m] : c.rels) clean &= m.base.empty();
      if (!clean) add_shard("N02", "relational " + c.name, [c] { auto d = c; d.max_facts += 1; n02_whole(d, (thorough() ? 3 : 29) * c.stride); });
      if (!clean) add_shard("N02", "relational, few facts, " + c.name, [c] { n02_whole(c, thorough() ? 1 : 2 * c.stride); });
      if (clean) for (double al : {1.0, 2.5}) add_shard("I03", c.name + " alpha " + num(al), [c, al] { i03(c, al, thorough() ? c.stride : c.stride * 7); });
    }
  }
} reg;
