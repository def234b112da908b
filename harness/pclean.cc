// V01, V02: tables and entity-model schemas.
#include "vp.hh"
#include "tok.hh"
#include "pclean/csv.hh"
#include "pclean/io.hh"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#undef exit
using namespace vp;

static std::string vis(const std::string& s) { std::string r; for (char c : s) r += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : (c < 32 || c > 126) ? "\\x" + std::to_string((unsigned char)c) : std::string(1, c); return r; }

// ---- V01 -----------------------------------------------------------------------------
struct Table { std::vector<std::string> cols; std::vector<std::vector<std::string>> rows; bool operator==(const Table&) const = default; };
static std::string show(const Table& t) {
  std::string s = "[" + join(t.cols, "|") + "]";
  for (auto& r : t.rows) s += " [" + join(r, "|") + "]";
  return s;
}
static std::vector<std::string> fields_of(const std::string& l) {
  std::vector<std::string> out(1);
  for (char c : l) { if (c == ',') out.emplace_back(); else out.back() += c; }
  for (auto& f : out) while (!f.empty() && strchr(" \t\r\v\f", f.back())) f.pop_back();
  return out;
}
// 1: valid, 0: must be refused, -1: not specified
static int ref_table(const std::string& text, const std::vector<std::string>& names, Table& t) {
  std::vector<std::string> lines;
  std::string cur;
  for (char c : text) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) lines.push_back(cur);
  t.cols = names;
  bool first = names.empty();
  int verdict = 1;
  for (auto& l : lines) {
    if (l.empty()) continue;
    if (l.find_first_not_of(" \t\r\v\f") == std::string::npos) return -1;   // only white space
    auto f = fields_of(l);
    if (first) { t.cols = f; first = false; continue; }
    if (f.size() != t.cols.size()) { verdict = 0; continue; }
    t.rows.push_back(f);
  }
  auto c = t.cols;
  std::sort(c.begin(), c.end());
  if (std::adjacent_find(c.begin(), c.end()) != c.end()) return -1;           // repeated column names
  return verdict;
}
static std::string as_table(const DataFrame& df, Table& t) {
  t = Table{df.columns, {}};
  if (df.data.size() != df.columns.size()) return "the table has " + str(df.data.size()) + " columns of data for " + str(df.columns.size()) + " names";
  size_t n = 0;
  for (size_t j = 0; j < df.columns.size(); ++j) {
    if (!df.data.count(df.columns[j])) return "column " + df.columns[j] + " has no data";
    auto& col = df.data.at(df.columns[j]);
    if (j == 0) n = col.size();
    else if (col.size() != n) return "columns have different lengths";
  }
  t.rows.assign(n, {});
  for (auto& c : df.columns) for (size_t i = 0; i < n; ++i) t.rows[i].push_back(df.data.at(c)[i]);
  return "";
}
static bool plain(const Table& t) {      // survives being written as it is
  for (auto& r : t.rows) if (r.size() == 1 && r[0].empty()) return false;
  if (t.cols.size() == 1 && t.cols[0].empty()) return false;
  return !t.cols.empty();
}
static void check_read(const std::string& text, const std::vector<std::string>& names, bool file = false) {
  Table want, got;
  int v = ref_table(text, names, want);
  if (v < 0) { count("V01 unspecified"); return; }
  ++S.states; ++S.transitions;
  std::string tr = "text `" + vis(text) + "`" + (names.empty() ? "" : " columns {" + join(names) + "}");
  at(tr);
  DataFrame df;
  std::string fn = "t_" + std::to_string(getpid()) + ".csv";
  std::string err = guarded([&] {
    if (file) {
      { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f << text; }
      df = names.empty() ? DataFrame::from_csv(fn) : DataFrame::from_csv(fn, names);
    } else {
      std::stringstream ss(text);
      df = names.empty() ? DataFrame::from_csv(ss) : DataFrame::from_csv(ss, names);
    }
  });
  if (v == 0) {
    count("V01 malformed tables");
    if (err.empty()) { as_table(df, got); violation("V01:wrong-count-accepted", "a row with the wrong number of fields was accepted as " + show(got), tr); }
    return;
  }
  if (!err.empty()) { violation("V01:refused", "a well-formed table was refused: " + err, tr); return; }
  std::string e = as_table(df, got);
  if (!e.empty()) { violation("V01:shape", e, tr); return; }
  if (got != want) { violation("V01:fields", "read " + show(got) + ", the text says " + show(want), tr); return; }
  if (!plain(got)) return;
  ++S.traces;
  // write it and read it back
  std::string text2;
  DataFrame df2;
  err = guarded([&] {
    if (file) {
      bool ok = df.to_csv(fn);
      if (!ok) throw std::runtime_error("to_csv returned false");
      df2 = DataFrame::from_csv(fn);
    } else {
      std::stringstream os;
      if (!df.to_csv(os)) throw std::runtime_error("to_csv returned false");
      text2 = os.str();
      std::stringstream is(text2);
      df2 = DataFrame::from_csv(is);
    }
  });
  Table back, after;
  if (err.empty()) err = as_table(df2, back);
  if (!err.empty()) violation("V01:roundtrip", err + " (written as `" + vis(text2) + "`)", tr);
  else if (back != want) violation("V01:roundtrip", "reading back what was written gives " + show(back) + ", was " + show(want), tr);
  else if (as_table(df, after); after != want) violation("V01:write-changes", "writing changed the table to " + show(after), tr);
  if (file) unlink(fn.c_str());
}
static void all_texts(const std::string& alpha, int n, const std::function<void(const std::string&)>& f) {
  std::string s;
  std::function<void()> go = [&] {
    f(s);
    if (int(s.size()) == n || too_many()) return;
    for (char c : alpha) { s.push_back(c); go(); s.pop_back(); }
  };
  go();
}
SHARD("V01", "all texts, header in the file") { int n = thorough() ? 10 : 9; all_texts("ab,\n ", n, [&](auto& s) { check_read(s, {}); }); sample("every text of up to " + str(n) + " characters out of {a b comma newline space}"); }
SHARD("V01", "all texts, one given column") { int n = thorough() ? 10 : 8; all_texts("a,\n b", n, [&](auto& s) { check_read(s, {"x"}); }); sample("every text of up to " + str(n) + " characters, column x"); }
SHARD("V01", "all texts, two given columns") { int n = thorough() ? 9 : 8; all_texts("a,\n b", n, [&](auto& s) { check_read(s, {"y", "x"}); }); sample("every text of up to " + str(n) + " characters, columns y x"); }
SHARD("V01", "all texts, three given columns") { int n = thorough() ? 11 : 10; all_texts("a,\n ", n, [&](auto& s) { check_read(s, {"y", "x", ""}); }); sample("every text of up to " + str(n) + " characters, columns y, x and one with an empty name"); }
SHARD("V01", "white space and odd bytes") {
  for (auto& alpha : {std::string("a,\n\r"), std::string("a,\n\t"), std::string("a,\n\v"), std::string("a,\n\""), std::string("a,\n#"), std::string("a,\n\xe9"), std::string("a,\n;")})
    all_texts(alpha, thorough() ? 8 : 7, [&](auto& s) { check_read(s, {}); check_read(s, {"x", "y"}); });
  sample("texts over {a , newline} with one more character out of CR TAB VT quote # e-acute ;");
}
SHARD("V01", "files") { all_texts("ab,\n", thorough() ? 6 : 5, [&](auto& s) { check_read(s, {}, true); check_read(s, {"x", "y"}, true); }); sample("short texts through files"); }
// structured tables, larger than the texts above
SHARD("V01", "generated tables") {
  static const std::vector<std::string> F{"", "v", " lead", "in ner", "trail \t", "\"q\"", "1.50", "-", "a\rb"};
  for (int ncol = 1; ncol <= 3; ++ncol)
    for (int nrow = 0; nrow <= (ncol == 1 ? 4 : ncol == 2 ? 2 : (thorough() ? 2 : 1)); ++nrow) {
      int cells = ncol * nrow;
      uint64_t total = 1;
      for (int i = 0; i < cells; ++i) total *= F.size();
      for (uint64_t k = 0; k < total && !too_many(); ++k) {
        for (int form = 0; form < 3; ++form) {   // plain, with CR line ends and blank lines, without the final newline
          uint64_t q = k;
          std::string nl = form == 1 ? "\r\n\n" : "\n", t;
          for (int j = 0; j < ncol; ++j) t += std::string(j ? "," : "") + "c" + std::to_string(ncol - j);
          t += nl;
          for (int i = 0; i < nrow; ++i) {
            for (int j = 0; j < ncol; ++j) { t += std::string(j ? "," : "") + F[q % F.size()]; q /= F.size(); }
            t += nl;
          }
          if (form == 2) t.pop_back();
          check_read(t, {});
        }
        progress();
      }
    }
  sample("tables of up to 3 columns over 9 field values, three line-end styles");
}
SHARD("V01", "missing file") {
  DataFrame df;
  ++S.states; ++S.transitions; ++S.traces;
  std::string err = guarded([&] { df = DataFrame::from_csv("no_such_file.csv"); });
  if (err.empty()) violation("V01:missing-file", "a file that does not exist was read as a table", "no_such_file.csv");
  bool ok = true;
  err = guarded([&] { df.columns = {"a"}; df.data["a"] = {"1"}; ok = df.to_csv("no_such_dir/x.csv"); });
  if (err.empty() && ok) violation("V01:unwritable", "writing to a path that cannot be created reported success", "no_such_dir/x.csv");
  sample("missing input and output paths");
}

// ---- V02 -----------------------------------------------------------------------------
struct Var { std::string name; bool ref = false; std::string what; std::map<std::string, std::string> params; bool operator==(const Var&) const = default; };
struct Model { std::map<std::string, std::map<std::string, Var>> classes; std::string record; std::map<std::string, std::vector<std::string>> fields; bool operator==(const Model&) const = default; };
static std::string show(const Model& m) {
  std::string s;
  for (auto& [c, vs] : m.classes) {
    s += "class " + c + "{";
    for (auto& [n, v] : vs) {
      s += n + (v.name == n ? "" : "(named " + v.name + ")") + "~" + (v.ref ? "->" : "") + v.what;
      for (auto& [k, x] : v.params) s += "," + k + "=" + x;
      s += " ";
    }
    s += "} ";
  }
  s += "from " + m.record;
  for (auto& [f, p] : m.fields) s += " " + join(p, ".") + " as `" + f + "`";
  return s;
}
static bool is_sym(const RTok& t, const char* v) { return t.type == 'y' && t.val == v; }
// 1 ok, 0 malformed, -1 unspecified
static int ref_var(const std::vector<RTok>& t, Var& v) {
  if (t.size() < 3 || t[0].type != 'i' || !is_sym(t[1], "~") || t[2].type != 'i') return 0;
  v.name = t[0].val;
  v.what = t[2].val;
  bool upper = v.what[0] >= 'A' && v.what[0] <= 'Z';
  if (t.size() == 3) { v.ref = upper; return 1; }
  if (!is_sym(t[3], "(")) return 0;
  bool odd = upper;
  size_t i = 4;
  if (i < t.size() && is_sym(t[i], ")")) return i + 1 == t.size() ? (odd ? -1 : 1) : 0;
  for (;;) {
    if (i + 3 >= t.size()) return 0;
    if (t[i].type != 'i' || !is_sym(t[i + 1], "=")) return 0;
    if (t[i + 2].type == 'y') odd = true;
    if (v.params.count(t[i].val)) odd = true;
    v.params[t[i].val] = t[i + 2].val;
    if (is_sym(t[i + 3], ")")) { if (i + 4 != t.size()) return 0; break; }
    if (!is_sym(t[i + 3], ",")) return odd ? -1 : 0;
    i += 4;
  }
  return odd ? -1 : 1;
}
static int ref_schema(const std::string& text, Model& m) {
  std::vector<std::string> lines;
  std::string cur;
  for (char c : text) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) lines.push_back(cur);
  enum { TOP, CLASS, QUERY } st = TOP;
  std::string cls;
  bool odd = false, seen_query = false;
  auto bad = [&] { return odd ? -1 : 0; };
  for (auto& l : lines) {
    if (l.empty()) { st = TOP; continue; }
    std::vector<RTok> t;
    if (!ref_tokens(l, t)) return bad();
    if (t.empty()) {
      if (l.find('#') == std::string::npos) odd = true;     // a line of white space
      continue;
    }
    if (st == TOP) {
      if (t[0].type != 'i') return bad();
      if (t[0].val == "class") {
        if (t.size() != 2 || t[1].type != 'i') return bad();
        cls = t[1].val;
        if (m.classes.count(cls)) odd = true;               // declared twice
        m.classes[cls] = {};
        st = CLASS;
      } else if (t[0].val == "observe") {
        if (t.size() != 1) return bad();
        if (seen_query && m.record.empty()) odd = true;     // the first query has no record class
        else if (seen_query) return bad();
        seen_query = true;
        st = QUERY;
      } else return bad();
    } else if (st == CLASS) {
      Var v;
      int r = ref_var(t, v);
      if (r == 0) return bad();
      if (r < 0) odd = true;
      if (m.classes[cls].count(v.name)) odd = true;
      m.classes[cls][v.name] = v;
    } else {
      if (is_sym(t[0], ".")) return bad();
      if (t[0].type == 'i' && t[0].val == "from" ) {
        if (t.size() != 2 || t[1].type != 'i' || !m.record.empty()) return bad();
        m.record = t[1].val;
        continue;
      }
      size_t n = t.size();
      if (n < 3 || t[n - 2].type != 'i' || t[n - 2].val != "as" || (t[n - 1].type != 'i' && t[n - 1].type != 's') || t[n - 1].val.empty()) return bad();
      if ((n - 2) % 2 == 0) return bad();
      std::vector<std::string> path;
      for (size_t i = 0; i + 2 < n; ++i) {
        if (i % 2 == 0) { if (t[i].type != 'i') return bad(); path.push_back(t[i].val); }
        else if (!is_sym(t[i], ".")) return bad();
      }
      if (m.fields.count(t[n - 1].val)) odd = true;
      m.fields[t[n - 1].val] = path;
    }
  }
  if (seen_query && m.record.empty()) odd = true;
  return odd ? -1 : 1;
}
static Model as_model(const PCleanSchema& s, std::string& err) {
  Model m;
  for (auto& [n, c] : s.classes) {
    if (c.name != n) err = "class " + n + " is stored as " + c.name;
    m.classes[n];
    for (auto& [vn, v] : c.vars) {
      Var x;
      x.name = v.name;
      if (auto* cv = std::get_if<ClassVar>(&v.spec)) { x.ref = true; x.what = cv->class_name; }
      else { auto& sv = std::get<ScalarVar>(v.spec); x.what = sv.joint_name; x.params = sv.params; }
      m.classes[n][vn] = x;
    }
  }
  m.record = s.query.record_class;
  for (auto& [n, f] : s.query.fields) {
    if (f.name != n) err = "field " + n + " is stored as " + f.name;
    m.fields[n] = f.class_path;
  }
  return m;
}
static void check_schema(const std::string& text, bool file = false) {
  Model want;
  int v = ref_schema(text, want);
  if (v < 0) { count("V02 unspecified"); return; }
  count(v ? "V02 well-formed" : "V02 malformed");
  ++S.states; ++S.transitions;
  std::string tr = "schema `" + vis(text) + "`";
  at(tr);
  PCleanSchema s;
  bool ok = false;
  std::string fn = "s_" + std::to_string(getpid()) + ".schema";
  std::string err = guarded([&] {
    if (file) {
      { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f << text; }
      ok = read_schema_file(fn, &s);
      unlink(fn.c_str());
    } else { std::stringstream ss(text); ok = read_schema(ss, &s); }
  });
  if (!err.empty()) { violation("V02:error", err, tr); return; }
  if (ok != (v == 1)) { std::string e; violation(ok ? "V02:malformed-accepted" : "V02:refused", ok ? "a malformed schema was accepted as " + show(as_model(s, e)) : "a well-formed schema was refused", tr); return; }
  if (!ok) return;
  ++S.traces;
  std::string e;
  Model got = as_model(s, e);
  if (!e.empty()) violation("V02:names", e, tr);
  else if (got != want) violation("V02:meaning", "read " + show(got) + "\n   stated " + show(want), tr);
}
static std::string word_text(const std::vector<RTok>& t, int style) {
  std::string s = style == 1 ? "" : "  ";
  for (size_t i = 0; i < t.size(); ++i) {
    std::string v = t[i].val;
    if (t[i].type == 's') v = v.find('"') == std::string::npos ? "\"" + v + "\"" : "'" + v + "'";
    bool w = t[i].type == 'i' || t[i].type == 'n', p = i && (t[i - 1].type == 'i' || t[i - 1].type == 'n');
    if (i) s += style == 2 ? "  \t" : (w && p) || style == 0 ? " " : "";
    s += v;
  }
  if (style == 3) s += " # class X";
  if (style == 4) s += "\r";
  return s;
}
using Line = std::vector<RTok>;
static Line L(const std::string& s) { Line t; ref_tokens(s, t); return t; }
static std::string render(const std::vector<Line>& ls, int style, bool final_newline = true) {
  std::string s;
  for (size_t i = 0; i < ls.size(); ++i) s += (ls[i].empty() ? "" : word_text(ls[i], style)) + (i + 1 < ls.size() || final_newline ? "\n" : "");
  return s;
}
static std::vector<Line> var_lines() {
  std::vector<Line> v;
  for (auto* s : {"a ~ real", "a ~ string(maxlength=40)", "b ~ stringcat(strings=\"x y\", delim=\":\")", "b ~ categorical(k=3)", "r ~ City", "r_2 ~ Big_Class9", "a ~ real()", "c ~ bool(p='q', r=word, s=1.5)", "class ~ real", "from ~ real", "as ~ Observe"}) v.push_back(L(s));
  return v;
}
static std::vector<Line> field_lines() {
  std::vector<Line> v;
  for (auto* s : {"a as A", "r.a as B", "r.r.b as \"two words\"", "r.a.b.c as D", "as.as as as", "class as class", "a as from"}) v.push_back(L(s));
  return v;
}
static void for_schemas(int depth, const std::function<void(const std::vector<Line>&)>& f) {
  auto vs = var_lines(), fs = field_lines();
  std::vector<std::vector<Line>> blocks;
  // the query with 0..2 fields, the record class first, between or last
  std::vector<std::vector<Line>> queries{{}};
  auto add_query = [&](std::vector<Line> fl) {
    for (size_t p = 0; p <= fl.size(); ++p) { std::vector<Line> q{L("observe")}; for (size_t i = 0; i <= fl.size(); ++i) { if (i == p) q.push_back(L("from Rec")); if (i < fl.size()) q.push_back(fl[i]); } queries.push_back(q); }
  };
  add_query({});
  for (auto& a : fs) add_query({a});
  for (size_t i = 0; i < fs.size(); ++i) for (size_t j = 0; j < fs.size(); ++j) if (i != j) add_query({fs[i], fs[j]});
  std::vector<std::vector<Line>> bodies{{}};
  for (auto& a : vs) bodies.push_back({a});
  for (size_t i = 0; i < vs.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) if (vs[i][0].val != vs[j][0].val) bodies.push_back({vs[i], vs[j]});
  auto put = [&](std::vector<Line>& out, const std::vector<Line>& b) { for (auto& l : b) out.push_back(l); out.push_back({}); };
  auto cls = [&](const std::string& n, const std::vector<Line>& b) { std::vector<Line> o{L("class " + n)}; o.insert(o.end(), b.begin(), b.end()); return o; };
  int k = 0;
  for (auto& b : bodies) for (auto& q : queries) {          // one class
    ++k;
    if (depth < 2 && b.size() == 2 && q.size() > 3) continue;
    std::vector<Line> o; put(o, cls("Rec", b)); put(o, q); f(o);
    if (k % 3 == 0) { std::vector<Line> o2; put(o2, q); put(o2, cls("Rec", b)); f(o2); }
    if (too_many()) return;
  }
  for (auto& b : bodies) for (auto& c : bodies) {            // two classes
    if (b.size() + c.size() > (depth < 2 ? 2 : 3)) continue;
    for (size_t qi : {size_t(0), size_t(3), queries.size() - 1}) {
      std::vector<Line> o; put(o, cls("City", b)); put(o, cls("lower", c)); if (qi) put(o, queries[qi]); f(o);
    }
    if (too_many()) return;
  }
}
SHARD("V02", "well-formed schemas") {
  int n = 0;
  for_schemas(thorough() ? 2 : 1, [&](auto& o) { for (int st = 0; st < 5; ++st) { if (st && n % 5 != st && !thorough()) continue; check_schema(render(o, st)); check_schema(render(o, st, false)); } if (n < 3) sample(vis(render(o, 0))); ++n; });
}
static std::vector<std::vector<Line>> bases() {
  std::vector<std::vector<Line>> out;
  for (auto& s : {"class City\n name ~ string(maxlength=40)\n st ~ stringcat(strings=\"a b\", delim=\":\")\n\nclass Rec\n c ~ City\n x ~ real\n\nobserve\n c.name as Name\n x as X\n c.st as \"St ate\"\n from Rec\n",
                  "observe\n from R\n a.b.c as F\n\nclass R\n a ~ B\n\nclass B\n b ~ C\n d ~ real()\n\nclass C\n c ~ bool\n"}) {
    std::vector<Line> ls;
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) ls.push_back(L(l));
    out.push_back(ls);
  }
  return out;
}
static std::vector<RTok> token_alphabet() {
  return {{'i', "w"}, {'i', "Up"}, {'i', "class"}, {'i', "observe"}, {'i', "from"}, {'i', "as"}, {'n', "7"}, {'s', "q s"}, {'s', ""}, {'y', "~"}, {'y', "("}, {'y', ")"}, {'y', ","}, {'y', "="}, {'y', "."}, {'y', "["}, {'y', ":"}, {'y', "-"}};
}
// every edit of one token: deletion, insertion, replacement; pairs of deletions; line edits
SHARD("V02", "edited schemas") {
  auto A = token_alphabet();
  for (auto& base : bases()) {
    for (size_t i = 0; i < base.size(); ++i) {
      auto with = [&](const Line& l) { auto b = base; b[i] = l; check_schema(render(b, 0)); check_schema(render(b, 1)); };
      auto& l = base[i];
      std::vector<Line> first;
      for (size_t j = 0; j <= l.size(); ++j) {
        if (j < l.size()) { Line d = l; d.erase(d.begin() + j); first.push_back(d); }
        for (auto& a : A) {
          Line d = l; d.insert(d.begin() + j, a); first.push_back(d);
          if (j < l.size()) { Line e = l; e[j] = a; first.push_back(e); }
        }
        if (j + 1 < l.size()) { Line d = l; std::swap(d[j], d[j + 1]); first.push_back(d); }
        if (j < l.size()) { Line d(l.begin(), l.begin() + j); first.push_back(d); Line e(l.begin() + j, l.end()); first.push_back(e); }
      }
      for (auto& d : first) with(d);
      // second edit: every deletion and, in thorough mode, every replacement
      for (auto& d : first)
        for (size_t j = 0; j <= d.size(); ++j) {
          if (j < d.size()) { Line e = d; e.erase(e.begin() + j); with(e); }
          if (thorough()) for (auto& a : A) { Line e = d; e.insert(e.begin() + j, a); with(e); if (j < d.size()) { Line g = d; g[j] = a; with(g); } }
          if (too_many()) return;
        }
      // line edits
      { auto b = base; b.erase(b.begin() + i); check_schema(render(b, 0)); }
      for (size_t j = 0; j <= base.size(); ++j) { auto b = base; b.insert(b.begin() + j, base[i]); check_schema(render(b, 0)); }
      { auto b = base; b.insert(b.begin() + i, Line{}); check_schema(render(b, 0)); }
      progress();
    }
  }
  sample("every insertion, deletion, replacement or swap of a token of two schemas, and every second deletion");
}
// every character of one schema deleted, doubled or replaced
SHARD("V02", "edited characters") {
  for (auto& base : bases()) {
    std::string t = render(base, 0);
    for (size_t i = 0; i <= t.size(); ++i) {
      if (i < t.size()) { std::string s = t; s.erase(i, 1); check_schema(s); }
      check_schema(t.substr(0, i));
      check_schema(t.substr(i));
      for (char c : std::string("aZ1_~().,=\"'# \n&\t\r")) { std::string s = t; s.insert(i, 1, c); check_schema(s); if (i < t.size()) { s = t; s[i] = c; check_schema(s); } }
      if (too_many()) return;
    }
  }
  sample("every single-character edit, prefix and suffix of two schemas");
}
// short variable and query lines, every token sequence
SHARD("V02", "all short lines") {
  std::vector<RTok> A{{'i', "w"}, {'i', "Up"}, {'i', "as"}, {'n', "7"}, {'s', "q"}, {'y', "~"}, {'y', "("}, {'y', ")"}, {'y', ","}, {'y', "="}, {'y', "."}};
  Line l;
  int n = thorough() ? 6 : 5;
  std::function<void()> go = [&] {
    if (!l.empty()) {
      std::string x = word_text(l, 0);
      check_schema("class K\n" + x + "\n");
      check_schema("observe\n" + x + "\nfrom K\n");
      if (l.size() <= 4) { check_schema(x + "\n"); check_schema("class " + x + "\n"); check_schema("observe " + x + "\nfrom K\n"); check_schema("observe\nfrom " + x + "\n"); }
    }
    if (int(l.size()) == n || too_many()) return;
    for (auto& a : A) { l.push_back(a); go(); l.pop_back(); }
  };
  go();
  // parameter lists of any shape after a well-formed beginning
  std::vector<RTok> B{{'i', "k"}, {'y', "="}, {'n', "2"}, {'y', ","}, {'y', ")"}, {'y', "("}};
  Line q;
  int m = thorough() ? 9 : 8;
  std::function<void()> go2 = [&] {
    Line full = L("a ~ real");
    full.insert(full.end(), q.begin(), q.end());
    check_schema("class K\n" + word_text(full, 0) + "\n");
    if (int(q.size()) == m || too_many()) return;
    for (auto& a : B) { if (q.empty() && a.val != "(" && a.val != "k") continue; q.push_back(a); go2(); q.pop_back(); }
  };
  go2();
  sample("every line of up to " + str(n) + " tokens over 11 tokens as a class line and as a query line; every parameter list of up to " + str(m) + " tokens over 6");
}
SHARD("V02", "files") {
  int n = 0;
  for_schemas(1, [&](auto& o) { if (n++ % 20 == 0) check_schema(render(o, n % 5), true); });
  PCleanSchema s;
  bool ok = true;
  std::string err = guarded([&] { ok = read_schema_file("no_such.schema", &s); });
  if (!err.empty() || ok) violation("V02:missing-file", "a schema file that does not exist: " + (err.empty() ? "reported success" : err), "no_such.schema");
  sample("schemas through files, and a missing file");
}
