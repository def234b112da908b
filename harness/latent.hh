// Re-estimating all latent values of a relation against doing so one by one.
#pragma once
#include "icfg.hh"
#include "transition_latent_value.hh"
#undef exit

typedef std::function<RelationVariant(const std::string&)> GetRel;
static std::vector<std::string> noisy_of(const Rels& rels, const std::string& base) {
  std::vector<std::string> o;
  for (auto& [n, m] : rels) if (m.base == base) o.push_back(n);
  return o;
}
// one latent value of a live model, its noisy relations taken in the given order
static void reestimate_one(const Rels& rels, const GetRel& get, const std::string& base, const Items& items, const std::vector<std::string>& deps) {
  with_type(rels.at(base).type, [&](auto tag) {
    using T = decltype(tag);
    std::unordered_map<std::string, NoisyRelation<T>*> nr;
    for (auto& n : deps) nr[n] = reinterpret_cast<NoisyRelation<T>*>(std::get<Relation<T>*>(get(n)));
    transition_latent_value<T>(nullptr_prng(), T_items(items.begin(), items.end()), std::get<Relation<T>*>(get(base)), nr);
    return 0;
  });
}
static std::string latent_key(const Rels& rels, const GetRel& get, const std::string& base) {
  return with_type(rels.at(base).type, [&](auto tag) {
    using T = decltype(tag);
    std::map<std::string, std::string> s;
    for (auto& [it, v] : std::get<Relation<T>*>(get(base))->get_data()) s[show_items(Items(it.begin(), it.end()))] = show_vv(ObservationVariant(T(v)));
    std::string r;
    for (auto& [k, v] : s) r += k + "=" + v + " ";
    return r;
  });
}
// start() rebuilds the model and says how to reach its relations; whole(base) re-estimates the relation on the model last built
static void whole_relation(const std::string& key, const Rels& rels, const Facts& facts, const std::string& label, const std::function<GetRel()>& start, const std::function<void(const std::string&)>& whole) {
  for (auto& [b, m] : rels) {
    auto deps = noisy_of(rels, b);
    if (deps.empty() || !facts.count(b) || facts.at(b).empty() || facts.at(b).size() > 3) continue;
    std::string tr = label + "; re-estimate all of " + b;
    at(tr);
    ++S.states;
    std::vector<Items> its;
    for (auto& [i, v] : facts.at(b)) its.push_back(i);
    std::map<std::string, double> got;
    GetRel g;
    std::string err = guarded([&] {
      enumerate(Opts(), [&] { g = start(); whole(b); }, [&](const Exec& x) { ++S.transitions; got[latent_key(rels, g, b)] += x.prob; });
    });
    if (!err.empty()) { violation(key + ":error", err, tr); continue; }
    ++S.traces;
    std::string why, w;
    bool ok = false;
    std::sort(its.begin(), its.end());
    do {
      auto d = deps;
      do {
        std::map<std::string, double> want;
        err = guarded([&] {
          enumerate(Opts(), [&] { g = start(); for (auto& i : its) reestimate_one(rels, g, b, i, d); }, [&](const Exec& x) { ++S.transitions; want[latent_key(rels, g, b)] += x.prob; });
        });
        if (err.empty() && same_dist(got, want, 1e-7, &w)) ok = true;
        else if (why.empty()) why = err.empty() ? w : err;
      } while (!ok && std::next_permutation(d.begin(), d.end()));
    } while (!ok && std::next_permutation(its.begin(), its.end()));
    if (!ok) violation(key + ":law", "not what re-estimating its values one by one gives, in any order: " + why, tr);
  }
}
