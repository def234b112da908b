// Reference tokeniser of the schema languages.
#pragma once
#include <cstring>
#include <string>
#include <vector>
struct RTok { char type; std::string val; bool operator==(const RTok&) const = default; };   // i y n s
static const char* const SYMS = "~()[]{}<>.,:;=+*-/";
// reference: words, numbers, quoted strings, one-character symbols
static bool ref_tokens(const std::string& l, std::vector<RTok>& out) {
  auto digit = [](char c) { return c >= '0' && c <= '9'; };
  auto alpha = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
  for (size_t i = 0; i < l.size();) {
    char c = l[i];
    if (c == '#') return true;
    if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f') { ++i; continue; }
    if (c == '"' || c == '\'') {
      size_t e = l.find(c, i + 1);
      if (e == std::string::npos) return false;
      out.push_back({'s', l.substr(i + 1, e - i - 1)});
      i = e + 1;
    } else if (digit(c)) {
      size_t j = i;
      while (j < l.size() && (digit(l[j]) || l[j] == '.' || l[j] == '_')) ++j;
      out.push_back({'n', l.substr(i, j - i)});
      i = j;
    } else if (alpha(c)) {
      size_t j = i;
      while (j < l.size() && (alpha(l[j]) || digit(l[j]))) ++j;
      out.push_back({'i', l.substr(i, j - i)});
      i = j;
    } else if (c && strchr(SYMS, c)) { out.push_back({'y', std::string(1, c)}); ++i; }
    else return false;
  }
  return true;
}
