// F01, F02, F03, B01 (samples file): schema, observation and cluster files.
#include "hirmw.hh"
#include "util_io.hh"
#include "util_parse.hh"
#include <cstring>
#include <fstream>
#include <unistd.h>
#undef exit

static std::string tmp_name(const std::string& ext) { return "io_" + std::to_string(getpid()) + "." + ext; }
static void put(const std::string& path, const std::string& text) { std::ofstream f(path, std::ios::trunc | std::ios::binary); f << text; }
static std::string slurp(const std::string& path) { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string vis(const std::string& s) { std::string r; for (char c : s) r += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : (c < 32 || c > 126) ? "\\x" + std::to_string((unsigned char)c) : std::string(1, c); return r; }

#include "tok.hh"
// ---- F01: tokens -------------------------------------------------------------------------
static char tchar(TokenType t) { return t == TokenType::identifier ? 'i' : t == TokenType::symbol ? 'y' : t == TokenType::number ? 'n' : 's'; }
static void check_tokens(const std::string& l) {
  std::vector<RTok> want, got;
  bool w = ref_tokens(l, want), g = false;
  std::vector<Token> t;
  at("tokens of `" + vis(l) + "`");
  ++S.states;
  std::string err = guarded([&] { g = tokenize(l, &t); });
  for (auto& x : t) got.push_back({tchar(x.type), x.val});
  auto show = [](const std::vector<RTok>& v) { std::string s; for (auto& x : v) s += std::string(1, x.type) + "`" + vis(x.val) + "` "; return s; };
  std::string tr = "line `" + vis(l) + "`";
  if (!err.empty()) violation("F01:tokens:error", err, tr);
  else if (g != w) violation("F01:tokens:ok", g ? "malformed text was accepted" : "well-formed text was refused", tr);
  else if (w && got != want) violation("F01:tokens:split", "got " + show(got) + "expected " + show(want), tr);
}
static void all_strings(const std::string& alpha, int n, const std::function<void(const std::string&)>& f) {
  std::string s;
  std::function<void()> go = [&] {
    f(s);
    if (int(s.size()) == n || too_many()) return;
    for (char c : alpha) { s.push_back(c); go(); s.pop_back(); }
  };
  go();
}
SHARD("F01", "tokens, wide alphabet") { all_strings(std::string("aZ1._~(\"'# \t-$\x80=,"), thorough() ? 5 : 4, check_tokens); ++S.traces; sample("all lines up to length " + std::to_string(thorough() ? 5 : 4) + " over 17 characters"); }
SHARD("F01", "tokens, narrow alphabet") { all_strings("a1.'\"# _", thorough() ? 7 : 6, check_tokens); ++S.traces; sample("all lines up to length " + std::to_string(thorough() ? 7 : 6) + " over 8 characters"); }
SHARD("F01", "tokens, every byte") {
  for (int a = 1; a < 256; ++a) {
    std::string x(1, char(a));
    for (auto& s : {x, "a" + x, x + "a", "1" + x, x + "1", "'" + x + "'", "\"" + x + "\"", "#" + x, "(" + x, "a " + x + " 1", "a" + x + "1", x + x}) check_tokens(s);
    for (int b = 1; b < 256; ++b) check_tokens(x + std::string(1, char(b)));
  }
  ++S.traces;
  sample("every pair of non-zero bytes");
}

// ---- F01: schema files ----------------------------------------------------------------------
struct Decl { std::string name, dist; std::vector<std::pair<std::string, RTok>> params; std::string base; std::vector<std::string> doms; };
static const std::map<std::string, std::pair<DistributionEnum, ObservationEnum>> DISTS = {
  {"bernoulli", {DistributionEnum::bernoulli, ObservationEnum::bool_type}}, {"bigram", {DistributionEnum::bigram, ObservationEnum::string_type}},
  {"categorical", {DistributionEnum::categorical, ObservationEnum::int_type}}, {"normal", {DistributionEnum::normal, ObservationEnum::double_type}},
  {"skellam", {DistributionEnum::skellam, ObservationEnum::int_type}}, {"stringcat", {DistributionEnum::stringcat, ObservationEnum::string_type}},
  {"string_nat", {DistributionEnum::string_nat, ObservationEnum::string_type}}, {"string_normal", {DistributionEnum::string_normal, ObservationEnum::string_type}},
  {"string_skellam", {DistributionEnum::string_skellam, ObservationEnum::string_type}}};
static const std::map<std::string, std::pair<EmissionEnum, ObservationEnum>> EMIS = {
  {"bigram", {EmissionEnum::bigram_string, ObservationEnum::string_type}}, {"gaussian", {EmissionEnum::gaussian, ObservationEnum::double_type}},
  {"simple_string", {EmissionEnum::simple_string, ObservationEnum::string_type}}, {"sometimes_bitflip", {EmissionEnum::sometimes_bitflip, ObservationEnum::bool_type}},
  {"sometimes_categorical", {EmissionEnum::sometimes_categorical, ObservationEnum::int_type}}, {"sometimes_gaussian", {EmissionEnum::sometimes_gaussian, ObservationEnum::double_type}}};
static std::vector<RTok> tokens_of(const Decl& d) {
  std::vector<RTok> t{{'i', d.name}, {'y', "~"}, {'i', d.dist}};
  if (!d.params.empty()) {
    t.push_back({'y', "["});
    for (size_t i = 0; i < d.params.size(); ++i) {
      if (i) t.push_back({'y', ","});
      t.push_back({'i', d.params[i].first});
      t.push_back({'y', "="});
      t.push_back(d.params[i].second);
    }
    t.push_back({'y', "]"});
  }
  t.push_back({'y', "("});
  if (!d.base.empty()) { t.push_back({'i', d.base}); t.push_back({'y', ";"}); }
  for (size_t i = 0; i < d.doms.size(); ++i) { if (i) t.push_back({'y', ","}); t.push_back({'i', d.doms[i]}); }
  t.push_back({'y', ")"});
  return t;
}
// style 0: tight, 1: spaces everywhere, 2: tabs and indentation, 3: trailing comment, 4: carriage return
static std::string text_of(const std::vector<RTok>& t, int style) {
  std::string s = style == 2 ? "\t " : "";
  for (size_t i = 0; i < t.size(); ++i) {
    std::string v = t[i].val;
    if (t[i].type == 's') v = (v.find('"') == std::string::npos) ? "\"" + v + "\"" : "'" + v + "'";
    bool word = t[i].type == 'i' || t[i].type == 'n';
    bool prev = i && (t[i - 1].type == 'i' || t[i - 1].type == 'n');
    if (i) s += style == 1 ? " " : style == 2 ? " \t" : (word && prev) ? " " : "";
    s += v;
  }
  if (style == 3) s += "# a ~ b(c)";
  if (style == 4) s += "\r";
  return s;
}
// reference reading of one line. 1: valid, 0: malformed, -1: not specified
static int ref_decl(const std::vector<RTok>& t, Decl& d) {
  size_t i = 0;
  auto is = [&](const char* v) { return i < t.size() && t[i].type == 'y' && t[i].val == v; };
  auto id = [&] { return i < t.size() && t[i].type == 'i'; };
  bool odd = false;
  if (!id()) return 0;
  d.name = t[i++].val;
  if (!is("~")) return 0;
  ++i;
  if (!id()) return 0;
  d.dist = t[i++].val;
  if (is("[")) {
    do {
      ++i;
      if (!id()) return 0;
      std::string p = t[i++].val;
      if (!is("=")) return 0;
      ++i;
      if (i >= t.size()) return 0;
      if (t[i].type == 'y') odd = true;           // e.g. delim=:
      for (auto& [q, v] : d.params) if (q == p) odd = true;
      d.params.push_back({p, t[i++]});
    } while (is(","));
    if (!is("]")) return odd ? -1 : 0;
    ++i;
  }
  if (!is("(")) return odd ? -1 : 0;
  ++i;
  if (!id()) return odd ? -1 : 0;
  if (i + 1 < t.size() && t[i + 1].type == 'y' && t[i + 1].val == ";") { d.base = t[i].val; i += 2; }
  for (;;) {
    if (i >= t.size() || t[i].type == 'y') return odd ? -1 : 0;
    if (t[i].type != 'i') odd = true;             // a quoted or numeric domain name
    d.doms.push_back(t[i++].val);
    if (is(",")) { ++i; continue; }
    break;
  }
  if (!is(")")) return odd ? -1 : 0;
  ++i;
  if (i != t.size()) odd = true;                  // trailing text
  if (d.base.empty() ? !DISTS.count(d.dist) : !EMIS.count(d.dist)) return 0;
  return odd ? -1 : 1;
}
static std::string cmp_schema(const T_schema& s, const std::vector<Decl>& ds) {
  if (s.size() != ds.size()) return std::to_string(s.size()) + " relations were read, " + std::to_string(ds.size()) + " are declared";
  for (auto& d : ds) {
    if (!s.count(d.name)) return d.name + " is missing";
    std::map<std::string, std::string> par;
    for (auto& [k, v] : d.params) par[k] = v.val;
    auto& r = s.at(d.name);
    if (d.base.empty()) {
      auto* c = std::get_if<T_clean_relation>(&r);
      if (!c) return d.name + " was read as a noisy relation";
      if (c->domains != d.doms) return d.name + " has domains {" + join(c->domains) + "}";
      if (c->distribution_spec.distribution != DISTS.at(d.dist).first || c->distribution_spec.observation_type != DISTS.at(d.dist).second) return d.name + " has the wrong distribution";
      if (c->distribution_spec.distribution_args != par) return d.name + " has the wrong parameters";
      if (c->is_observed) return d.name + " is marked observed";
    } else {
      auto* c = std::get_if<T_noisy_relation>(&r);
      if (!c) return d.name + " was read as a clean relation";
      if (c->domains != d.doms) return d.name + " has domains {" + join(c->domains) + "}";
      if (c->base_relation != d.base) return d.name + " has base " + c->base_relation;
      if (c->emission_spec.emission != EMIS.at(d.dist).first || c->emission_spec.observation_type != EMIS.at(d.dist).second) return d.name + " has the wrong noise model";
      if (c->emission_spec.emission_args != par) return d.name + " has the wrong parameters";
      if (c->is_observed) return d.name + " is marked observed";
    }
  }
  return "";
}
static RTok num_(const char* s) { return {'n', s}; }
static RTok str_(const char* s) { return {'s', s}; }
static std::vector<std::pair<std::string, std::vector<std::pair<std::string, RTok>>>> clean_kinds() {
  return {{"bernoulli", {}}, {"bigram", {}}, {"bigram", {{"maxlength", num_("10")}}}, {"categorical", {{"k", num_("3")}}}, {"categorical", {{"k", str_("3")}}}, {"normal", {}}, {"skellam", {}},
          {"stringcat", {{"strings", str_("a b")}}}, {"stringcat", {{"strings", str_("a:b c#d")}, {"delim", str_(":")}}}, {"string_nat", {}}, {"string_normal", {}}, {"string_skellam", {}},
          {"normal", {{"a", {'i', "b"}}, {"c", str_("")}, {"d", num_("1.5")}}}};
}
static std::vector<std::pair<std::string, std::vector<std::pair<std::string, RTok>>>> noisy_kinds() {
  return {{"bigram", {}}, {"gaussian", {}}, {"simple_string", {}}, {"sometimes_bitflip", {}}, {"sometimes_categorical", {{"k", num_("3")}}}, {"sometimes_gaussian", {}}};
}
static void load_valid(const std::vector<std::string>& lines, const std::vector<Decl>& ds, const std::string& eol_last = "\n") {
  std::string text;
  for (size_t i = 0; i < lines.size(); ++i) text += lines[i] + (i + 1 < lines.size() ? "\n" : eol_last);
  std::string p = tmp_name("schema"), tr = "schema `" + vis(text) + "`";
  at(tr);
  ++S.states;
  put(p, text);
  T_schema s;
  std::string err = guarded([&] { s = load_schema(p); });
  ++S.transitions;
  if (!err.empty()) { violation("F01:schema:refused", "a valid schema was refused: " + err, tr); return; }
  std::string e = cmp_schema(s, ds);
  if (!e.empty()) violation("F01:schema:content", e, tr);
}
static std::vector<std::vector<std::string>> dom_lists(int n) {
  std::vector<std::vector<std::string>> r, cur{{}};
  for (int k = 0; k < n; ++k) {
    std::vector<std::vector<std::string>> nx;
    for (auto& c : cur) for (auto d : {"D", "E", "d_1"}) { auto x = c; x.push_back(d); nx.push_back(x); }
    for (auto& x : nx) r.push_back(x);
    cur = nx;
  }
  return r;
}
SHARD("F01", "one relation") {
  for (auto& [k, par] : clean_kinds()) for (auto& doms : dom_lists(3)) for (int st = 0; st < 5; ++st) for (auto nm : {"R", "r_2", "_x"}) {
    Decl d{nm, k, par, "", doms};
    load_valid({text_of(tokens_of(d), st)}, {d});
    load_valid({text_of(tokens_of(d), st)}, {d}, "");
    load_valid({"# R ~ normal(D)", "", text_of(tokens_of(d), st), "   ", "\t#"}, {d});
  }
  ++S.traces;
}
SHARD("F01", "noisy relations") {
  for (auto& [k, par] : noisy_kinds()) for (auto& bd : dom_lists(2)) for (auto& ex : dom_lists(2)) for (int st = 0; st < 5; ++st) {
    for (int n = 0; n <= int(ex.size()); ++n) {
      Decl b{"B", "normal", {}, "", bd}, d{"A", k, par, "B", bd};
      d.doms.insert(d.doms.end(), ex.begin(), ex.begin() + n);
      auto x = text_of(tokens_of(b), 0), y = text_of(tokens_of(d), st);
      load_valid({x, y}, {b, d});
      load_valid({y, x}, {b, d});
      Decl c{"0"};
      c = Decl{"Z", k, par, "A", d.doms};
      c.doms.push_back("F");
      auto z = text_of(tokens_of(c), st);
      std::vector<std::string> v{x, y, z};
      std::sort(v.begin(), v.end());
      do load_valid(v, {b, d, c}); while (std::next_permutation(v.begin(), v.end()));
    }
    if (too_many()) return;
  }
  ++S.traces;
}
SHARD("F01", "three relations in every order") {
  auto ks = clean_kinds();
  for (size_t i = 0; i < ks.size(); ++i) for (size_t j = 0; j < ks.size(); ++j) for (auto& [nk, np] : noisy_kinds()) {
    Decl a{"R1", ks[i].first, ks[i].second, "", {"D", "E"}}, b{"R2", ks[j].first, ks[j].second, "", {"E"}}, c{"R3", nk, np, "R2", {"E", "D", "E"}};
    std::vector<std::string> v{text_of(tokens_of(a), 0), text_of(tokens_of(b), 1), text_of(tokens_of(c), 3), ""};
    std::sort(v.begin(), v.end());
    do load_valid(v, {a, b, c}); while (std::next_permutation(v.begin(), v.end()));
    if (too_many()) return;
  }
  ++S.traces;
}
// every line within `edits` token edits of a valid one: exactly its meaning, or refused
static void edited(const std::vector<Decl>& files, int edits, bool del_only2) {
  const std::vector<RTok> alpha{{'i', "B"}, {'i', "normal"}, {'i', "sometimes_gaussian"}, {'n', "3"}, {'s', "a b"}, {'y', "~"}, {'y', "("}, {'y', ")"}, {'y', "["}, {'y', "]"}, {'y', "="}, {'y', ","}, {'y', ";"}, {'y', "-"}};
  Decl base{"B", "normal", {}, "", {"D"}};
  std::string bl = text_of(tokens_of(base), 0);
  for (auto& d0 : files) {
    auto t0 = tokens_of(d0);
    std::set<std::vector<std::string>> seen;
    std::function<void(const std::vector<RTok>&, int)> go = [&](const std::vector<RTok>& t, int left) {
      if (too_many()) return;
      std::vector<std::string> key;
      for (auto& x : t) key.push_back(std::string(1, x.type) + x.val);
      if (seen.insert(key).second) {
        Decl d;
        int c = t.empty() ? -1 : ref_decl(t, d);
        std::string line = text_of(t, 0);
        std::string tr = "schema `" + bl + "\\n" + vis(line) + "`";
        if (c == 1 && d.name == "B") c = -1;      // declared twice
        if (c == 1 && !d.base.empty()) {
          if (d.base == d.name) { if (d.doms.empty()) c = 0; else c = -1; }
          else if (d.base != "B") c = 0;          // no such base
          else if (d.doms[0] != "D") c = 0;
        }
        at(tr);
        ++S.states;
        std::string p = tmp_name("schema");
        put(p, bl + "\n" + line + "\n");
        T_schema s;
        std::string err = guarded([&] { s = load_schema(p); });
        ++S.transitions;
        if (c == 1 && !err.empty()) violation("F01:edited:refused", "a valid schema was refused: " + err, tr);
        if (c == 1 && err.empty()) { std::string e = cmp_schema(s, {base, d}); if (!e.empty()) violation("F01:edited:content", e, tr); }
        if (c == 0 && err.empty()) violation("F01:edited:accepted", "a malformed schema was accepted", tr);
        if (c == 0) count("malformed");
        if (c == 1) count("valid");
        if (c == -1) count("unspecified");
      }
      if (!left) return;
      for (size_t i = 0; i <= t.size(); ++i) {
        if (i < t.size()) { auto x = t; x.erase(x.begin() + i); go(x, left - 1); }
        if (i < t.size()) { auto x = t; x.resize(i); go(x, left - 1); }      // cut short
        if (del_only2 && left < edits) continue;
        for (auto& a : alpha) {
          auto x = t;
          x.insert(x.begin() + i, a);
          go(x, left - 1);
          if (i < t.size()) { x = t; x[i] = a; go(x, left - 1); }
        }
      }
    };
    go(t0, edits);
    ++S.traces;
  }
}
SHARD("F01", "edited clean relation") { edited({{"R", "normal", {}, "", {"D", "E"}}}, 2, false); }
SHARD("F01", "edited relation with parameters") { edited({{"R", "categorical", {{"k", num_("3")}}, "", {"D"}}, {"R", "stringcat", {{"strings", str_("a b")}, {"delim", str_(" ")}}, "", {"D"}}}, 2, !thorough()); }
SHARD("F01", "edited noisy relation") { edited({{"R", "sometimes_gaussian", {}, "B", {"D", "E"}}}, 2, !thorough()); edited({{"R", "gaussian", {}, "B", {"D"}}}, 2, false); }
SHARD("F01", "mismatched noisy domains") {
  // a noisy relation must start with its base's domains
  for (auto& bd : dom_lists(2)) for (auto& nd : dom_lists(3)) {
    bool ok = nd.size() >= bd.size() && std::equal(bd.begin(), bd.end(), nd.begin());
    Decl b{"B", "bernoulli", {}, "", bd}, a{"A", "sometimes_bitflip", {}, "B", nd};
    for (bool first : {false, true}) {
      std::string x = text_of(tokens_of(b), 0), y = text_of(tokens_of(a), 0), text = first ? x + "\n" + y + "\n" : y + "\n" + x + "\n";
      at("schema `" + vis(text) + "`");
      ++S.states;
      put(tmp_name("schema"), text);
      T_schema s;
      std::string err = guarded([&] { s = load_schema(tmp_name("schema")); });
      ++S.transitions;
      if (ok && !err.empty()) violation("F01:noisy-domains:refused", err, "schema `" + vis(text) + "`");
      if (!ok && err.empty()) violation("F01:noisy-domains:accepted", "the domains do not extend the base's", "schema `" + vis(text) + "`");
    }
  }
  ++S.traces;
}

// ---- F02 ----------------------------------------------------------------------------------
// A file fact: relation, entity names, value text
struct Fact { std::string rel; std::vector<std::string> ents; std::string val; };
struct FCfg { std::string name; Rels rels; std::map<std::string, std::vector<std::string>> names; int max_facts; std::set<std::string> observed; };
static std::string schema_text(const Rels& r) {
  std::string s;
  for (auto& [n, m] : r) {
    std::vector<std::pair<std::string, RTok>> par;
    for (auto& [k, v] : m.s.args) par.push_back({k, str_(v.c_str())});
    s += text_of(tokens_of({n, m.s.spec, par, m.base, m.s.doms}), 0) + "\n";
  }
  return s;
}
static std::vector<std::string> texts_of(const MRel& m) {
  switch (m.type) {
    case 'b': return {"0", "1"};
    case 'd': return {"1.5", "-2"};
    case 'i': return {"0", "2"};
    default: return {"a", "b"};
  }
}
static std::string line_of(const Fact& f) { return f.val + "," + f.rel + "," + join(f.ents); }
static std::vector<FCfg> fconfigs() {
  std::vector<FCfg> c;
  std::map<std::string, std::vector<std::string>> dd{{"D", {"x", "y", "z"}}, {"E", {"y", "x"}}, {"F", {"x"}}};
  c.push_back({"U(D),B(D,E),P(E)", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("B", "categorical", {"D", "E"}, 'i', {{"k", "3"}}), cr("P", "stringcat", {"E"}, 's', {{"strings", "a b"}})}), dd, 2, {"U", "B", "P"}});
  c.push_back({"S(D,D),W(D)", mk({cr("S", "bernoulli", {"D", "D"}, 'b'), cr("W", "normal", {"D"}, 'd')}), dd, 3, {"S", "W"}});
  auto nb = mk({cr("B", "bernoulli", {"D"}, 'b'), nr("M", "sometimes_bitflip", {"D"}, "B", 'b'), nr("N", "sometimes_bitflip", {"D", "E"}, "B", 'b')});
  c.push_back({"latent B, noisy M(D),N(D,E)", nb, dd, 3, {"M", "N"}});
  c.push_back({"observed B, noisy M(D),N(D,E)", nb, dd, 3, {"B", "M", "N"}});
  auto ab = mk({cr("Z", "normal", {"D"}, 'd'), nr("A", "gaussian", {"D", "E"}, "Z", 'd'), nr("C", "sometimes_gaussian", {"D"}, "Z", 'd')});
  c.push_back({"latent Z last, noisy A(D,E),C(D)", ab, dd, 3, {"A", "C"}});
  c.push_back({"observed Z last, noisy A(D,E),C(D)", ab, dd, 3, {"A", "C", "Z"}});
  auto ch = mk({cr("K", "bernoulli", {"D"}, 'b'), nr("J", "sometimes_bitflip", {"D", "E"}, "K", 'b'), nr("L", "sometimes_bitflip", {"D", "E", "F"}, "J", 'b')});
  c.push_back({"chain latent K,J <- L", ch, dd, 2, {"L"}});
  c.push_back({"chain latent K, observed J <- L", ch, dd, 3, {"J", "L"}});
  c.push_back({"chain observed K,J <- L", ch, dd, 3, {"K", "J", "L"}});
  c.push_back({"latent B(D), noisy N(D,D), clean Y(D)", mk({cr("B", "bernoulli", {"D"}, 'b'), nr("N", "sometimes_bitflip", {"D", "D"}, "B", 'b'), cr("Y", "normal", {"D"}, 'd')}), dd, 3, {"N", "Y"}});
  return c;
}
// all sets of up to max facts over the observed relations; bases come with the
// facts that need them
static void all_files(const FCfg& c, int max, const std::function<void(const std::vector<Fact>&)>& f) {
  std::vector<Fact> pool;
  for (auto& r : c.observed) {
    auto& m = c.rels.at(r);
    std::map<std::string, int> n;
    for (auto& [d, v] : c.names) n[d] = v.size();
    all_tuples(m.s.doms, n, [&](const Items& t) {
      std::vector<std::string> e;
      for (size_t k = 0; k < t.size(); ++k) e.push_back(c.names.at(m.s.doms[k])[t[k]]);
      auto v = texts_of(m);
      pool.push_back({r, e, v[(t[0] + pool.size()) % 2]});
    });
  }
  std::function<void(size_t, std::vector<Fact>)> go = [&](size_t from, std::vector<Fact> cur) {
    bool ok = true;
    for (auto& x : cur) {
      std::string b = c.rels.at(x.rel).base;
      if (b.empty() || !c.observed.count(b)) continue;
      bool have = false;
      for (auto& y : cur) have |= y.rel == b && std::equal(y.ents.begin(), y.ents.end(), x.ents.begin());
      ok = ok && have;
    }
    // the loaders refuse noisy relations without any observation
    for (auto& r : c.observed) if (!c.rels.at(r).base.empty()) { bool any = false; for (auto& x : cur) any |= x.rel == r; ok = ok && any; }
    // relations whose base is declared observed need it observed in this file
    if (ok) f(cur);
    if (int(cur.size()) == max) return;
    for (size_t i = from; i < pool.size(); ++i) { auto x = cur; x.push_back(pool[i]); go(i + 1, x); }
  };
  go(0, {});
}
static std::string check_encoding(const T_encoding& enc, const Rels& rels, const std::vector<Fact>& fs) {
  std::map<std::string, std::set<std::string>> want;
  for (auto& [n, m] : rels) for (auto& d : m.s.doms) want[d];
  for (auto& f : fs) for (size_t k = 0; k < f.ents.size(); ++k) want[rels.at(f.rel).s.doms[k]].insert(f.ents[k]);
  for (auto& [d, es] : want) {
    if (!enc.first.count(d) || !enc.second.count(d)) return "domain " + d + " has no numbering";
    std::set<std::string> have;
    for (auto& [n, c] : enc.first.at(d)) {
      have.insert(n);
      if (!enc.second.at(d).count(c) || enc.second.at(d).at(c) != n) return "entity " + n + " of " + d + " has a number that does not lead back to it";
    }
    if (have != es) return "domain " + d + " numbers {" + join(have) + "}, the file mentions {" + join(es) + "}";
    if (enc.second.at(d).size() != es.size()) return "domain " + d + " has spare numbers";
  }
  return "";
}
static ObservationVariant value_of(const MRel& m, const std::string& t) {
  auto ts = texts_of(m);
  return vals_of(m)[std::find(ts.begin(), ts.end(), t) - ts.begin()];
}
// Facts as read back: the file's, plus latent base facts (their values read from the model)
static std::string expected(const Rels& rels, const std::vector<Fact>& fs, const T_encoding& enc, const std::function<RelationVariant(const std::string&)>& get, Facts& out) {
  std::set<std::string> obs;
  for (auto& f : fs) {
    obs.insert(f.rel);
    auto& m = rels.at(f.rel);
    Items t;
    for (size_t k = 0; k < f.ents.size(); ++k) t.push_back(enc.first.at(m.s.doms[k]).at(f.ents[k]));
    out[f.rel][t] = value_of(m, f.val);
  }
  // close under bases, leaves first
  auto order = dep_order(rels, all_names(rels));
  std::reverse(order.begin(), order.end());
  for (auto& n : order) {
    auto& m = rels.at(n);
    if (m.base.empty() || obs.count(m.base)) continue;
    VFacts mine = out[n];
    for (auto& [it, v] : mine) {
      Items b(it.begin(), it.begin() + rels.at(m.base).s.doms.size());
      std::string e = with_type(m.type, [&](auto tag) -> std::string {
        using T = decltype(tag);
        auto& data = std::get<Relation<T>*>(get(m.base))->get_data();
        if (!data.count(b)) return m.base + show_items(b) + " was not created for " + n + show_items(it);
        out[m.base][b] = ObservationVariant(T(data.at(b)));
        return "";
      });
      if (!e.empty()) return e;
    }
  }
  return "";
}
static std::string obs_text(const std::vector<Fact>& fs) { std::string s; for (auto& f : fs) s += line_of(f) + "\n"; return s; }
static void f02_one(const FCfg& c, const std::vector<Fact>& fs, bool hier, int execs) {
  std::string ps = tmp_name("schema"), po = tmp_name("obs");
  std::string tr = c.name + (hier ? " (hirm)" : " (irm)") + ": `" + vis(obs_text(fs)) + "`";
  at(tr);
  ++S.states;
  put(po, obs_text(fs));
  std::unique_ptr<IRM> irm;
  std::unique_ptr<HIRM> hirm;
  T_schema schema;
  T_encoding enc;
  T_observations obs;
  Opts o;
  o.max_dev = 2;
  o.quantiles = 1;
  o.max_exec = execs;
  o.max_alts = 3;
  std::string err = guarded([&] {
    enumerate(o, [&] {
      schema = load_schema(ps);
      obs = load_observations(po, schema);
      enc = calculate_encoding(schema, obs);
      if (hier) { hirm.reset(new HIRM(schema, nullptr_prng())); incorporate_observations(nullptr_prng(), hirm.get(), enc, obs); }
      else { irm.reset(new IRM(schema)); incorporate_observations(nullptr_prng(), irm.get(), enc, obs); }
    }, [&](const Exec& x) {
      ++S.transitions;
      std::set<std::string> seen;
      for (auto& f : fs) seen.insert(f.rel);
      std::string e;
      for (auto& [n, m] : c.rels) {
        bool fl = std::visit([](auto& r) { return r.is_observed; }, schema.at(n));
        if (fl != bool(seen.count(n))) e = n + (fl ? " is marked observed" : " is not marked observed");
      }
      if (e.empty()) e = check_encoding(enc, c.rels, fs);
      Facts want;
      if (e.empty()) e = expected(c.rels, fs, enc, [&](const std::string& n) { return hier ? hirm->get_relation(n) : irm->get_relation(n); }, want);
      if (e.empty()) e = hier ? check_hirm(*hirm, c.rels, all_names(c.rels), want) : check_irm(*irm, c.rels, all_names(c.rels), seats_of(*irm), want);
      if (!e.empty()) violation("F02:" + c.name + ":state", e, tr + " " + x.str());
    });
  });
  if (!err.empty()) { violation("F02:" + c.name + ":error", err, tr); if (hirm) hirm.release(); if (irm) irm.release(); }
}
static void f02(const FCfg& c, bool hier) {
  put(tmp_name("schema"), schema_text(c.rels));
  int max = c.max_facts + (thorough() ? 2 : 1);
  all_files(c, max, [&](const std::vector<Fact>& fs) {
    if (too_many()) return;
    std::vector<int> p(fs.size());
    for (size_t i = 0; i < p.size(); ++i) p[i] = i;
    do {
      std::vector<Fact> g;
      for (int i : p) g.push_back(fs[i]);
      f02_one(c, g, hier, thorough() ? 16 : 8);
    } while (std::next_permutation(p.begin(), p.end()));
    ++S.traces;
  });
  sample(c.name + ": all files of up to " + std::to_string(max) + " facts in every line order");
  S.exhaustive = false;
  cap("draws while loading: a few executions each (the facts do not depend on them)");
}
// rows the loader must refuse
SHARD("F02", "malformed rows") {
  auto c = fconfigs()[0];
  put(tmp_name("schema"), schema_text(c.rels));
  std::vector<std::string> bad;
  for (std::string v : {"1", ""}) for (std::string r : {"U", "B", "P", "X", ""}) for (int n = 0; n < 4; ++n) for (bool trail : {false, true}) {
    std::string l = v;
    size_t arity = c.rels.count(r) ? c.rels.at(r).s.doms.size() : 99;
    l += "," + r;
    for (int i = 0; i < n; ++i) l += ",x" + std::to_string(i);
    if (trail) l += ",";
    if (n == int(arity) || n + (trail ? 1 : 0) == int(arity)) continue;    // a trailing comma is left open
    if (v.empty()) continue;
    bad.push_back(l);
  }
  bad.push_back("1");
  bad.push_back("1,");
  for (auto& l : bad) for (int pos = 0; pos < 2; ++pos) {
    std::string text = pos ? "1,U,x\n" + l + "\n" : l + "\n1,U,x\n";
    at("observations `" + vis(text) + "`");
    ++S.states;
    put(tmp_name("obs"), text);
    std::string err = guarded([&] {
      Greedy g;
      T_schema schema = load_schema(tmp_name("schema"));
      T_observations obs = load_observations(tmp_name("obs"), schema);
      T_encoding enc = calculate_encoding(schema, obs);
      IRM irm(schema);
      incorporate_observations(nullptr_prng(), &irm, enc, obs);
    });
    ++S.transitions;
    if (err.empty()) violation("F02:malformed-row", "a row with the wrong number of entities (or no such relation) was accepted", "observations `" + vis(text) + "`");
  }
  ++S.traces;
}
SHARD("F02", "merged observations") {
  // merge = concatenation per relation
  std::vector<T_observation> pool{{{"x"}, "0"}, {{"y"}, "1"}};
  std::vector<std::string> rn{"U", "V"};
  std::vector<T_observations> all;
  for (int m = 0; m < 81; ++m) {
    T_observations o;
    int q = m;
    for (auto& r : rn) for (int k = 0; k < 2; ++k) { int n = q % 3; q /= 3; if (n == 1) o[r].push_back(pool[k]); if (n == 2) { o[r].push_back(pool[1 - k]); o[r].push_back(pool[k]); } }
    all.push_back(o);
  }
  for (auto& a : all) for (auto& b : all) {
    ++S.states;
    at("merge");
    T_observations m = merge_observations(a, b);
    std::map<std::string, std::vector<T_observation>> want, got;
    for (auto& [r, v] : a) want[r] = v;
    for (auto& [r, v] : b) want[r].insert(want[r].end(), v.begin(), v.end());
    for (auto& [r, v] : m) got[r] = v;
    if (got != want) violation("F02:merge", "merged observations are not the two lists", "merge");
  }
  ++S.traces;
}

// ---- F03 ------------------------------------------------------------------------------------
typedef std::map<std::string, std::map<int, std::set<std::string>>> NSeats;       // domain -> table -> names
struct NState { std::map<int, std::set<std::string>> rels; std::map<int, NSeats> seat; };
static NSeats named(const IRM& m, const T_encoding& enc) {
  NSeats s;
  for (auto& [d, dom] : m.domains) { s[d]; for (auto& [t, es] : dom->crp.tables) for (int e : es) s[d][t].insert(enc.second.at(d).at(e)); }
  return s;
}
static void drop_empty(NSeats& s) { for (auto it = s.begin(); it != s.end();) if (it->second.empty()) it = s.erase(it); else ++it; }
static std::string show_ns(const NSeats& s) { std::string r; for (auto& [d, x] : s) { r += d + "["; for (auto& [t, e] : x) r += std::to_string(t) + ":" + join(e, "+") + " "; r += "] "; } return r; }
static std::string show_n(const NState& s) { std::string r; for (auto& [t, x] : s.rels) { r += "#" + std::to_string(t) + ":" + join(x, "+") + " "; if (s.seat.count(t)) r += show_ns(s.seat.at(t)); } return r; }
static std::string ref_write_irm(const NSeats& s) { std::string r; for (auto& [d, x] : s) for (auto& [t, e] : x) r += d + " " + std::to_string(t) + " " + join(e, " ") + "\n"; return r; }
static std::string ref_write(const NState& s) {
  std::string r;
  for (auto& [t, x] : s.rels) r += std::to_string(t) + " " + join(x, " ") + "\n";
  for (auto& [t, x] : s.rels) { r += "\nirm=" + std::to_string(t) + "\n"; r += ref_write_irm(s.seat.at(t)); }
  return r;
}
// reference reader; "" or what is wrong with the file
static std::string ref_read(const std::string& text, bool hier, NState& s) {
  std::istringstream in(text);
  std::string line;
  int cur = hier ? -1 : 0;
  bool head = hier;
  while (std::getline(in, line)) {
    if (line.empty()) { head = false; continue; }
    std::istringstream ls(line);
    std::vector<std::string> w;
    for (std::string x; ls >> x;) w.push_back(x);
    if (head) {
      if (w.size() < 2) return "relation cluster line without relations";
      int t = std::stoi(w[0]);
      if (s.rels.count(t)) return "relation cluster listed twice";
      for (size_t i = 1; i < w.size(); ++i) {
        for (auto& [q, x] : s.rels) if (x.count(w[i])) return "relation " + w[i] + " listed twice";
        if (!s.rels[t].insert(w[i]).second) return "relation " + w[i] + " listed twice";
      }
      s.seat[t];
      continue;
    }
    if (hier && w[0].rfind("irm=", 0) == 0) { cur = std::stoi(w[0].substr(4)); if (!s.rels.count(cur)) return "submodel without relation cluster"; continue; }
    if (w.size() < 3) return "entity cluster line without entities";
    int t = std::stoi(w[1]);
    auto& d = s.seat[cur][w[0]];
    if (d.count(t)) return "entity cluster listed twice";
    for (size_t i = 2; i < w.size(); ++i) {
      for (auto& [q, x] : d) if (x.count(w[i])) return "entity " + w[i] + " listed twice";
      d[t].insert(w[i]);
    }
  }
  return "";
}
static NState named(const HIRM& h, const T_encoding& enc) {
  NState s;
  for (auto& [n, c] : h.relation_to_code) s.rels[h.relation_to_table(n)].insert(n);
  for (auto& [t, m] : h.irms) { s.seat[t] = named(*m, enc); drop_empty(s.seat[t]); }
  return s;
}
static void f03_one(const FCfg& c, const std::vector<Fact>& fs, const NState& w, bool hier, const std::string& key) {
  std::string ps = tmp_name("schema"), po = tmp_name("obs"), pc = tmp_name("clusters"), p2 = tmp_name("clusters2");
  std::string tr = c.name + (hier ? " (hirm)" : " (irm)") + ": `" + vis(obs_text(fs)) + "` " + show_n(w);
  at(tr);
  ++S.states;
  put(pc, hier ? ref_write(w) : ref_write_irm(w.seat.at(0)));
  IRM* irm = nullptr;
  HIRM* hirm = nullptr;
  std::string stage = "loading the clusters", e;
  std::string err = guarded([&] {
    Greedy g;
    T_schema schema = load_schema(ps);
    T_observations obs = load_observations(po, schema);
    T_encoding enc = calculate_encoding(schema, obs);
    for (int round = 0; round < 2 && e.empty(); ++round) {
      const std::string& p = round ? p2 : pc;
      Facts want;
      NState got, file;
      if (hier) {
        hirm = new HIRM({}, nullptr_prng());
        from_txt(nullptr_prng(), hirm, ps, po, p);
        e = expected(c.rels, fs, enc, [&](const std::string& n) { return hirm->get_relation(n); }, want);
        if (e.empty()) e = check_hirm(*hirm, c.rels, all_names(c.rels), want);
        got = named(*hirm, enc);
      } else {
        irm = new IRM({});
        from_txt(nullptr_prng(), irm, ps, po, p);
        e = expected(c.rels, fs, enc, [&](const std::string& n) { return irm->get_relation(n); }, want);
        if (e.empty()) e = check_irm(*irm, c.rels, all_names(c.rels), seats_of(*irm), want);
        got.seat[0] = named(*irm, enc);
        drop_empty(got.seat[0]);
      }
      ++S.transitions;
      if (e.empty() && (got.rels != w.rels || got.seat != w.seat)) e = std::string(round ? "after saving and " : "") + "loading: clusters are " + show_n(got) + (hier ? "" : show_ns(got.seat[0]));
      if (!e.empty()) { e = (round ? "second load: " : "") + e; break; }
      stage = "saving the clusters";
      if (hier) to_txt(p2, *hirm, enc); else to_txt(p2, *irm, enc);
      e = ref_read(slurp(p2), hier, file);
      if (!hier) file.seat[0];
      if (e.empty() && (file.rels != w.rels || file.seat != w.seat)) e = "the saved file says " + show_n(file) + (hier ? "" : show_ns(file.seat[0]));
      // a directly constructed copy reads the same
      stage = "loading the saved clusters";
      if (hier) { delete hirm; hirm = nullptr; } else { delete irm; irm = nullptr; }
    }
  });
  if (!err.empty()) violation(key.empty() ? "F03:" + c.name + ":error" : key, stage + ": " + err, tr);
  else if (!e.empty()) violation(key.empty() ? "F03:" + c.name + ":state" : key, e, tr);
}
// entities per domain of a set of relations, latent bases included
static std::map<std::string, std::set<std::string>> ents_of(const Rels& rels, const std::set<std::string>& in, const std::vector<Fact>& fs) {
  std::map<std::string, std::set<std::string>> r;
  std::set<std::string> obs;
  for (auto& f : fs) obs.insert(f.rel);
  for (auto& f : fs) {
    std::string n = f.rel;
    for (;;) {
      auto& m = rels.at(n);
      if (in.count(n)) for (size_t k = 0; k < m.s.doms.size(); ++k) r[m.s.doms[k]].insert(f.ents[k]);
      if (m.base.empty() || obs.count(m.base)) break;
      n = m.base;
    }
  }
  return r;
}
static void all_nstates(const FCfg& c, const std::vector<Fact>& fs, bool hier, const std::vector<int>& tabs, const std::function<void(const NState&)>& f) {
  std::vector<std::string> rn;
  std::vector<int> idx;
  for (auto& [n, m] : c.rels) { idx.push_back(rn.size()); rn.push_back(n); }
  auto fill = [&](NState w, const std::map<int, std::set<std::string>>& groups) {
    struct Slot { int t; std::string d; std::vector<std::string> es; };
    std::vector<Slot> slots;
    for (auto& [t, in] : groups) { w.seat[t]; for (auto& [d, es] : ents_of(c.rels, in, fs)) if (!es.empty()) slots.push_back({t, d, {es.begin(), es.end()}}); }
    std::function<void(size_t)> go = [&](size_t i) {
      if (i == slots.size()) { f(w); return; }
      std::vector<int> ix;
      for (size_t k = 0; k < slots[i].es.size(); ++k) ix.push_back(k);
      all_seats(ix, tabs, [&](const Seat& s) {
        NSeats save = w.seat[slots[i].t];
        for (auto& [k, t] : s) w.seat[slots[i].t][slots[i].d][t].insert(slots[i].es[k]);
        go(i + 1);
        w.seat[slots[i].t] = save;
      });
    };
    go(0);
  };
  if (!hier) { NState w; fill(w, {{0, std::set<std::string>(rn.begin(), rn.end())}}); return; }
  all_seats(idx, tabs, [&](const Seat& s) {
    NState w;
    for (auto& [k, t] : s) w.rels[t].insert(rn[k]);
    fill(w, w.rels);
  });
}
static void f03(const FCfg& c, bool hier) {
  put(tmp_name("schema"), schema_text(c.rels));
  long q = 0;
  int stride = hier ? (thorough() ? 1 : 2) : 1;
  all_files(c, c.max_facts + (thorough() ? 2 : 1), [&](const std::vector<Fact>& fs) {
    if (too_many()) return;
    put(tmp_name("obs"), obs_text(fs));
    for (auto& tabs : std::vector<std::vector<int>>{{0, 1, 2, 3, 4}, {7, 0, 12, 3, 1}})
      all_nstates(c, fs, hier, tabs, [&](const NState& w) { if (q++ % stride == 0) f03_one(c, fs, w, hier, ""); });
    ++S.traces;
  });
  if (stride > 1) { S.exhaustive = false; cap(c.name + ": every " + std::to_string(stride) + ". clustering"); }
  sample(c.name + ": " + std::to_string(S.states) + " clusterings");
}
static void f03_names(bool hier, const std::vector<std::string>& names, const std::string& key) {
  FCfg c{"entities {" + vis(join(names, "|")) + "}", mk({cr("U", "bernoulli", {"D"}, 'b'), cr("B", "bernoulli", {"D", "E"}, 'b')}), {{"D", names}, {"E", names}}, 2, {"U", "B"}};
  put(tmp_name("schema"), schema_text(c.rels));
  all_files(c, 2, [&](const std::vector<Fact>& fs) {
    if (too_many()) return;
    put(tmp_name("obs"), obs_text(fs));
    // an entity with whitespace must occur for the recorded finding to apply
    bool blank = false;
    for (auto& f : fs) for (auto& e : f.ents) blank |= e.find_first_of(" \t") != std::string::npos;
    all_nstates(c, fs, hier, {0, 1, 2}, [&](const NState& w) { f03_one(c, fs, w, hier, blank ? key : ""); });
    ++S.traces;
  });
}
struct Reg {
  Reg() {
    for (auto& c : fconfigs()) for (bool h : {false, true}) {
      add_shard("F02", c.name + (h ? " hirm" : " irm"), [c, h] { f02(c, h); });
      add_shard("F03", c.name + (h ? " hirm" : " irm"), [c, h] { f03(c, h); });
    }
    for (bool h : {false, true}) {
      add_shard("F03", std::string("odd entity names ") + (h ? "hirm" : "irm"), [h] { for (auto& v : std::vector<std::vector<std::string>>{{"1", "0"}, {"irm=3", "#"}, {"a.b-c", "\"q\""}, {"x;y", "é"}}) f03_names(h, v, ""); });
      add_shard("F03", std::string("entity names with spaces ") + (h ? "hirm" : "irm"), [h] { f03_names(h, {"a b", "c"}, "F03:entity-name-with-whitespace"); });
    }
  }
} reg;

// ---- B01: the samples file ---------------------------------------------------------------------
SHARD("B01", "samples file") {
  // every fact written reads back as itself; entities unknown to the data are named new_<domain>_<number>
  for (auto& c : fconfigs()) {
    put(tmp_name("schema"), schema_text(c.rels));
    long k = 0;
    all_files(c, 2, [&](const std::vector<Fact>& fs) {
      if (too_many() || k++ % (thorough() ? 1 : 3)) return;
      put(tmp_name("obs"), obs_text(fs));
      for (int n = 0; n <= 2; ++n) {
        std::string tr = c.name + ": `" + vis(obs_text(fs)) + "` and " + std::to_string(n) + " samples";
        at(tr);
        ++S.states;
        std::string e;
        std::string err = guarded([&] {
          Opts o;
          o.max_dev = 1; o.quantiles = 1; o.max_exec = 6; o.max_alts = 3; o.horizon = 200;
          std::unique_ptr<HIRM> h;
          T_encoded_observations out;
          T_encoding enc;
          T_schema schema;
          enumerate(o, [&] {
            schema = load_schema(tmp_name("schema"));
            T_observations obs = load_observations(tmp_name("obs"), schema);
            enc = calculate_encoding(schema, obs);
            h.reset(new HIRM(schema, nullptr_prng()));
            incorporate_observations(nullptr_prng(), h.get(), enc, obs);
            out = h->sample_and_incorporate(nullptr_prng(), n);
            write_observations(tmp_name("samples"), out, enc, h.get());
          }, [&](const Exec& x) {
            ++S.transitions;
            T_schema s2 = schema;
            T_observations back = load_observations(tmp_name("samples"), s2);
            std::map<std::string, std::multiset<std::pair<std::vector<std::string>, std::string>>> want, got;
            for (auto& [r, v] : out) for (auto& [it, val] : v) {
              std::vector<std::string> es;
              for (size_t i = 0; i < it.size(); ++i) {
                std::string d = c.rels.at(r).s.doms[i];
                es.push_back(enc.second.at(d).count(it[i]) ? enc.second.at(d).at(it[i]) : "new_" + d + "_" + std::to_string(it[i]));
              }
              want[r].insert({es, val});
            }
            for (auto& [r, v] : back) for (auto& [es, val] : v) got[r].insert({es, val});
            if (want != got) e = "the samples file does not hold the samples";
            if (!e.empty()) violation("B01:samples-file", e, tr + " " + x.str());
          });
        });
        if (!err.empty()) violation("B01:samples-file:error", err, tr);
      }
      ++S.traces;
    });
  }
}
