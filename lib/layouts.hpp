// Abstract layouts -> files with expected rows.
#pragma once
#include "common.hpp"

namespace hx {
struct PSpec { char kind; size_t rows; bool raw = false; };
// D data page, M metadata page holding rows of a compressed file, E extended page (METC), A amended
// page (AMD), m metadata page without rows, u page of an unknown type
struct Layout {
  sg::Fmt f;
  sg::Comp comp = sg::Comp::none;
  int split = 0;            // 0: metadata on one page; 1: two pages; 2: one page per kind of piece
  bool mix = false;         // the last metadata page also holds rows (uncompressed data)
  uint16_t mix_type = sg::MIX1;
  size_t mix_rows = 0;
  size_t extra_subs = 0;    // additional subheaders on the mixed page (moves the row start)
  size_t meta_rows = 0;     // compressed: rows on the last metadata page
  std::vector<PSpec> pages; // what follows
  size_t surplus = 0;       // rows stored beyond the declared number
  size_t missing = 0;       // declared rows that are not stored
  uint32_t header_length = 1024;
  size_t slack = 0;         // unused bytes per page
  bool pack_low = false;
  int cols = 0;             // column set
  uint8_t fill = 0;
  std::string str() const {
    std::string s = f.str() + (comp == sg::Comp::rle ? "/RLE" : comp == sg::Comp::rdc ? "/RDC" : "") + format("/split%d", split);
    if (mix) s += format("/mix%u:%zu+%zu", mix_type, mix_rows, extra_subs);
    if (meta_rows) s += format("/meta:%zu", meta_rows);
    s += "/";
    for (auto &p : pages) { s += p.kind; if (p.kind == 'D' || p.kind == 'M') s += std::to_string(p.rows) + (p.raw ? "r" : ""); }
    if (surplus) s += format("/surplus%zu", surplus);
    if (missing) s += format("/missing%zu", missing);
    s += format("/h%u/c%d", header_length, cols);
    return s;
  }
};

inline std::vector<sg::Col> column_set(int which) {
  std::vector<sg::Col> c;
  auto S = [&](const char *n, uint32_t l) { c.push_back({n, std::string("label of ") + n, "$", false, l, 0}); };
  auto N = [&](const char *n, uint32_t l, const char *fm) { c.push_back({n, std::string("label ") + n, fm, true, l, 0}); };
  switch (which) {
  case 0: S("str", 21); N("num", 8, "BEST"); N("i2", 2, ""); N("day", 8, "DATE"); N("t4", 4, ""); break;
  case 1: N("x", 8, ""); break;
  case 2: S("a", 3); S("b", 40); N("dt", 8, "DATETIME"); N("tm", 8, "TIME"); N("i1", 1, ""); N("n3", 3, ""); N("n5", 5, ""); N("n6", 6, ""); N("n7", 7, ""); S("z", 1); break;
  case 3: S("only", 32); break;
  }
  return c;
}
// deterministic, pairwise distinct row contents
inline Bytes make_row(const sg::Fmt &f, const std::vector<sg::Col> &cols, size_t row_length, size_t i) {
  Bytes r(row_length, char(0));
  for (size_t k = 0; k < cols.size(); ++k) {
    const auto &c = cols[k];
    Bytes v;
    if (!c.num) {
      std::string t = i % 5 == 3 ? std::string() : format("r%zu.%s", i, c.name.c_str());
      if (c.len > 12) t += std::string((i % 3) * 3, 'x');
      if (t.size() > c.len) t = t.substr(0, c.len);
      v = sg::padded(t, c.len, ' ');
    } else if (c.len == 1) v = Bytes(1, char(i * 7 + 1));
    else if (c.len == 2) { sg::putn(v, 0, uint16_t(int(i) * 257 - 300), 2, f.big); }
    else {
      double d;
      if (c.format == "DATE") d = double(i) * 97 - 500;
      else if (c.format == "DATETIME") d = double(i) * 86461.25 - 1e6;
      else if (c.format == "TIME") d = double(i % 24) * 3601;
      else d = i % 7 == 6 ? NAN : double(i) * 1.5 + double(k);
      if (std::isnan(d)) { uint64_t u = 0xFFFFFE0000000000ull; for (size_t b = 0; b < c.len; ++b) { unsigned char by = (unsigned char)(u >> (56 - 8 * b)); v.resize(c.len, 0); v[f.big ? b : c.len - 1 - b] = char(by); } }
      else v = ref::encode_number(f, d, c.len);
    }
    r.replace(c.off, c.len, v);
  }
  return r;
}

struct Case {
  Layout l;
  sg::Header h;
  std::vector<sg::Col> cols;
  size_t row_length = 0, row_count = 0;
  std::vector<Bytes> rows;          // the rows a reader must deliver
  std::vector<std::string> expect;  // their values, unfiltered
  Bytes bytes;
  size_t meta_end = 0;              // the bytes up to the end of the metadata's last page
  std::vector<size_t> row_page_end; // rows available once page k is completely read (cumulative)
};

inline Case build(const Layout &l) {
  Case c; c.l = l;
  c.cols = column_set(l.cols);
  c.row_length = sg::layout_columns(c.cols);
  size_t total = (l.mix ? l.mix_rows : 0) + (l.comp != sg::Comp::none ? l.meta_rows : 0);
  for (auto &p : l.pages) if (p.kind == 'D' || p.kind == 'M') total += p.rows;
  std::vector<Bytes> rows;
  for (size_t i = 0; i < total; ++i) rows.push_back(make_row(l.f, c.cols, c.row_length, i));
  if (l.surplus > total) sg::bug("surplus");
  c.row_count = total - l.surplus + l.missing;
  c.rows.assign(rows.begin(), rows.begin() + long(total - l.surplus));
  sg::Dataset d; d.f = l.f; d.comp = l.comp; d.cols = c.cols; d.row_length = c.row_length; d.mix_rows = l.mix ? l.mix_rows : 0;
  d.creator_proc = "DATASTEP";
  if (l.comp == sg::Comp::rdc) d.creator_proc.clear();
  auto ms = sg::meta_subs(d, c.row_count);
  std::vector<sg::Page> pages;
  auto pg = [&](uint16_t t) { sg::Page p; p.type = t; p.fill = l.fill; return p; };
  if (l.split == 0) { auto p = pg(sg::META); p.subs = ms.all(); pages.push_back(p); }
  else if (l.split == 1) {
    auto p = pg(sg::META); p.subs = {ms.rowsize, ms.colsize, ms.counts}; for (auto &t : ms.texts) p.subs.push_back(t); pages.push_back(p);
    auto q = pg(sg::META); q.subs = ms.names; for (auto &t : ms.attrs) q.subs.push_back(t); for (auto &t : ms.fmts) q.subs.push_back(t); q.subs.push_back(ms.list); pages.push_back(q);
  } else {
    auto p = pg(sg::META); p.subs = {ms.rowsize, ms.colsize}; pages.push_back(p);
    p = pg(sg::META); p.subs = ms.texts; pages.push_back(p);
    p = pg(sg::METC); pages.push_back(p);
    p = pg(sg::META); p.subs = ms.names; pages.push_back(p);
    p = pg(sg::AMD); p.subs = ms.attrs; pages.push_back(p);
    p = pg(sg::META); p.subs = ms.fmts; pages.push_back(p);
  }
  size_t next = 0;
  auto fill_meta = [&](sg::Page &p, size_t n, bool raw) { for (size_t k = 0; k < n; ++k) { p.subs.push_back(sg::row_sub(l.comp, rows[next], raw)); ++next; } };
  if (l.mix) {
    auto &p = pages.back(); p.type = l.mix_type;
    for (size_t k = 0; k < l.extra_subs; ++k) p.subs.push_back(ms.list);
    for (size_t k = 0; k < l.mix_rows; ++k) p.rows.push_back(rows[next++]);
    p.block_count = int(p.subs.size() + l.mix_rows);
  } else if (l.comp != sg::Comp::none && l.meta_rows) {
    fill_meta(pages.back(), l.meta_rows, false);
    // SAS ends the subheader list of a compressed page with a truncated (ignored) one
    sg::Sub t; t.comp = 1; t.type = 0; t.ghost = true; t.ghost_len = 0; pages.back().subs.push_back(t);
  }
  std::vector<size_t> cum(pages.size(), 0); cum.back() = next;
  size_t meta_pages = pages.size();
  for (auto &s : l.pages) {
    if (s.kind == 'D') { auto p = pg(sg::DATA); for (size_t k = 0; k < s.rows; ++k) p.rows.push_back(rows[next++]); pages.push_back(p); }
    else if (s.kind == 'M') { auto p = pg(sg::META); fill_meta(p, s.rows, s.raw); pages.push_back(p); }
    else if (s.kind == 'E') { auto p = pg(sg::METC); p.fill = 0xC3; pages.push_back(p); }
    else if (s.kind == 'A') { auto p = pg(sg::AMD); p.nsubs = 0; pages.push_back(p); }
    else if (s.kind == 'm') { auto p = pg(sg::META); pages.push_back(p); }
    else if (s.kind == 'u') { auto p = pg(0x4321); p.block_count = 3; pages.push_back(p); }
    else sg::bug("page kind");
    cum.push_back(next);
  }
  size_t need = 0;
  for (auto &p : pages) need = std::max(need, sg::page_need(l.f, p));
  sg::File fl;
  fl.h.f = l.f; fl.h.header_length = l.header_length; fl.pack_low = l.pack_low;
  fl.h.page_length = uint32_t((need + l.slack + 63) / 64 * 64);
  fl.pages = pages;
  c.bytes = fl.render_all();
  c.h = fl.h; c.meta_end = fl.h.header_length + meta_pages * fl.h.page_length;
  for (auto v : cum) c.row_page_end.push_back(std::min(v, c.rows.size()));
  for (auto &r : c.rows) c.expect.push_back(expect_row(l.f, c.cols, r));
  return c;
}
inline std::vector<sg::Fmt> all_formats(bool aligned = true) {
  std::vector<sg::Fmt> v;
  for (int u = 0; u < 2; ++u) for (int b = 0; b < 2; ++b) for (int a = 0; a < (aligned ? 2 : 1); ++a) { sg::Fmt f; f.big = b; f.u64 = u; f.a1 = a; v.push_back(f); }
  return v;
}
// a zoo of layouts covering every page kind, for checks whose own dimension is something else
inline std::vector<Layout> zoo(const sg::Fmt &f) {
  using C = sg::Comp;
  std::vector<Layout> v;
  auto add = [&](std::function<void(Layout &)> g) { Layout l; l.f = f; g(l); v.push_back(l); };
  add([](Layout &l) { l.pages = {{'D', 3}, {'D', 2}}; });
  add([](Layout &l) { l.mix = true; l.mix_rows = 2; l.pages = {{'D', 2}, {'E', 0}, {'D', 1}}; });
  add([](Layout &l) { l.split = 1; l.mix = true; l.mix_type = sg::MIX2; l.mix_rows = 1; l.extra_subs = 1; l.pages = {{'D', 2}, {'D', 0}, {'D', 2}}; l.surplus = 1; l.header_length = 8192; });
  add([](Layout &l) { l.split = 2; l.pages = {{'A', 0}, {'D', 2}, {'u', 0}, {'m', 0}, {'D', 2}}; l.cols = 2; });
  add([](Layout &l) { l.comp = C::rle; l.meta_rows = 2; l.pages = {{'M', 2}, {'M', 1, true}}; });
  add([](Layout &l) { l.comp = C::rle; l.split = 1; l.pages = {{'M', 2, true}, {'E', 0}, {'M', 1}, {'m', 0}, {'D', 1}}; l.surplus = 1; });
  add([](Layout &l) { l.comp = C::rdc; l.meta_rows = 1; l.pages = {{'M', 3}, {'D', 1}}; });
  add([](Layout &l) { l.comp = C::rdc; l.split = 2; l.pages = {{'M', 1}, {'M', 2}}; l.cols = 2; l.header_length = 8192; });
  add([](Layout &l) { l.mix = true; l.mix_rows = 3; l.cols = 1; });
  add([](Layout &l) { l.pages = {}; });
  add([](Layout &l) { l.pages = {{'D', 2}}; l.missing = 1; l.cols = 3; });
  return v;
}
} // namespace hx
