// Helpers of the demonstrations: files written with sasgen.hpp, read through the public interface.
#pragma once
#include "sasgen.hpp"
#include <cppsas7bdat/column.hpp>
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/filter/column.hpp>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <iostream>
#include <sstream>
#include <memory>

namespace dm {
using namespace sg;
using V = std::vector<std::string>;
struct Mem {
  std::shared_ptr<const Bytes> b; size_t pos = 0; bool e = false;
  explicit Mem(const Bytes &x) : b(std::make_shared<Bytes>(x)) {}
  bool eof() { return e; }
  bool read_bytes(void *p, size_t n) {
    size_t k = std::min(n, b->size() - pos); memcpy(p, b->data() + pos, k); pos += k;
    if (k < n) e = true;
    return k == n;
  }
};
// a sink noting what it is told
struct Rec {
  V *out; cppsas7bdat::COLUMNS cols;
  explicit Rec(V *o) : out(o) {}
  void set_properties(const cppsas7bdat::Properties &p) { cols = cppsas7bdat::COLUMNS(p.columns); out->push_back("P"); }
  void push_row(size_t i, cppsas7bdat::Column::PBUF p) {
    std::string s = std::to_string(i) + ":";
    for (auto &c : cols) s += c.to_string(p) + "|";
    out->push_back(s);
  }
  void end_of_data() { out->push_back("E"); }
};
inline V read(const Bytes &f) { V v; cppsas7bdat::Reader r(Mem{f}, Rec(&v)); r.read_all(); return v; }
// metadata on one page followed by pages of rows
inline Bytes file(Dataset d, size_t per_page, uint32_t page_length = 0, const TextPlan &tp = {}, std::function<void(File &)> tweak = {}) {
  if (!d.row_length) d.row_length = layout_columns(d.cols);
  File fl; fl.h.f = d.f;
  Page m; m.subs = meta_subs(d, d.rows.size(), tp).all(); fl.pages.push_back(m);
  for (size_t i = 0; i < d.rows.size();) {
    Page p; p.type = d.comp == Comp::none ? DATA : META;
    for (size_t k = 0; k < per_page && i < d.rows.size(); ++k, ++i)
      if (d.comp == Comp::none) p.rows.push_back(d.rows[i]); else p.subs.push_back(row_sub(d.comp, d.rows[i]));
    fl.pages.push_back(p);
  }
  size_t need = page_length;
  for (auto &p : fl.pages) need = std::max(need, page_need(d.f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  if (tweak) tweak(fl);
  return fl.render_all();
}
inline Col str(const char *n, uint32_t l) { return {n, "", "", false, l, 0}; }
inline Col num(const char *n, uint32_t l = 8, const char *fm = "") { return {n, "", fm, true, l, 0}; }
inline Bytes dbl(const Fmt &f, double d, size_t n = 8) {
  Bytes r; uint64_t u = dbits(d);
  for (size_t i = 0; i < n; ++i) { char b = char(u >> (56 - 8 * i)); if (f.big) r += b; else r.insert(r.begin(), b); }
  return r;
}
inline int failures = 0;
template <typename A, typename B> void same(const A &a, const B &b, const char *what) {
  if (a == b) return;
  ++failures; std::cerr << "FAIL: " << what << "\n";
}
inline void same(const std::string &a, const std::string &b, const char *what) {
  if (a == b) return;
  ++failures; std::cerr << "FAIL: " << what << ": '" << a << "' instead of '" << b << "'\n";
}
inline void same(const V &a, const V &b, const char *what) {
  if (a == b) return;
  ++failures; std::cerr << "FAIL: " << what << "\n";
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    std::string x = i < a.size() ? a[i] : "(none)", y = i < b.size() ? b[i] : "(none)";
    if (x != y) { std::cerr << "  " << x << "  instead of  " << y << "\n"; break; }
  }
}
} // namespace dm
