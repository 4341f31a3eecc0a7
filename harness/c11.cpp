// C11: column metadata.
#include "layouts.hpp"
#include "rows.hpp"
using namespace hx;
struct Meta {
  sg::Dataset d;
  uint64_t declared = 0;
  std::string desc;
};
// renders the given pages (subheaders in order), plus a data page with the rows
static Bytes render(const sg::Fmt &f, std::vector<sg::Page> pages, const std::vector<Bytes> &rows) {
  sg::Page p; p.type = sg::DATA; p.rows = rows; pages.push_back(p);
  size_t need = 0; for (auto &q : pages) need = std::max(need, sg::page_need(f, q));
  sg::File fl; fl.h.f = f; fl.h.page_length = uint32_t((need + 63) / 64 * 64); fl.pages = std::move(pages);
  return fl.render_all();
}
static Bytes right_trim(const Bytes &s) { size_t n = s.size(); while (n) { unsigned char c = (unsigned char)s[n - 1]; if (c > 0x20 && c != 0x7f) break; --n; } return s.substr(0, n); }
static void compare(Ctx &x, const sg::Dataset &d, uint64_t declared, const Bytes &file, const std::vector<Bytes> &rows, const std::string &what) {
  cs::Reader r(MemSource(share(file)), RecSink(std::make_shared<Log>()));
  const auto &p = r.properties();
  auto bad = [&](const std::string &m) { x.fail(d.f.str() + " " + what + ": " + m); };
  if (p.columns.size() != d.cols.size()) bad(format("%zu columns, %zu stored", p.columns.size(), d.cols.size()));
  for (size_t i = 0; i < d.cols.size(); ++i) {
    const auto &c = p.columns[i]; const auto &e = d.cols[i];
    auto eq = [&](const char *w, const std::string &g, const std::string &s) { x.checked(); if (g != s) bad(format("%s of column %zu is ", w, i) + "'" + g + "' (" + mc::hex(g) + "), stored '" + s + "'"); };
    eq("name", c.name, right_trim(e.name)); eq("label", c.label, right_trim(e.label)); eq("format", c.format, right_trim(e.format));
    eq("type", type_name(c.type), ref::kind_name(ref::kind(e)));
    if (c.length() != e.len) bad(format("length of column %zu is %zu, stored %u", i, c.length(), e.len));
  }
  auto num = [&](const char *w, uint64_t g, uint64_t e) { x.checked(); if (g != e) bad(format("%s is %llu, stored %llu", w, (unsigned long long)g, (unsigned long long)e)); };
  num("row length", p.row_length, d.row_length); num("row count", p.row_count, declared); num("column count", p.column_count, d.cols.size());
  num("first column count", p.col_count_p1, d.p1 == UINT64_MAX ? d.cols.size() : d.p1); num("second column count", p.col_count_p2, d.p2);
  num("rows on mixed pages", p.mix_page_row_count, d.mix_rows);
  x.check(p.compression == (d.comp == sg::Comp::none ? cs::Compression::none : d.comp == sg::Comp::rle ? cs::Compression::RLE : cs::Compression::RDC), d.f.str() + " " + what + ": compression is " + std::string(cs::to_string(p.compression)));
  if (d.comp != sg::Comp::rdc) {
    bool c = d.comp == sg::Comp::none && !d.creator.empty();
    Bytes ec = c ? d.creator : Bytes(), ep = c ? Bytes() : d.creator_proc;
    if (p.creator != ec) bad("creator is '" + p.creator + "', stored '" + ec + "'");
    if (p.creator_proc != ep) bad("creating procedure is '" + p.creator_proc + "', stored '" + ep + "'");
  }
  { // the columns split by kind: each in its group, in file order, decoding as before
    cs::Columns split(p.columns);
    const std::pair<const cs::COLUMNS *, cs::Column::Type> groups[] = {{&split.strings, cs::Column::Type::string}, {&split.numbers, cs::Column::Type::number}, {&split.integers, cs::Column::Type::integer}, {&split.datetimes, cs::Column::Type::datetime}, {&split.dates, cs::Column::Type::date}, {&split.times, cs::Column::Type::time}};
    for (auto &[g, t] : groups) {
      std::vector<const cs::Column *> e; for (auto &c : p.columns) if (c.type == t) e.push_back(&c);
      x.checked();
      if (g->size() != e.size()) bad(format("%zu columns of one kind, %zu in its group", e.size(), g->size()));
      for (size_t i = 0; i < e.size(); ++i) if ((*g)[i].name != e[i]->name || (*g)[i].label != e[i]->label || (*g)[i].format != e[i]->format || (*g)[i].type != t || (*g)[i].length() != e[i]->length()) bad(format("column %zu of a group by kind is '", i) + (*g)[i].name + "' instead of '" + e[i]->name + "'");
    }
  }
  { // a column equals its copies, and no column of another name
    cs::COLUMNS copy(p.columns); size_t n = std::min<size_t>(copy.size(), 40);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { bool same = p.columns[i].name == p.columns[j].name; if (i != j && same) continue; if ((p.columns[i] == copy[j]) != same) bad(format("column %zu and a copy of column %zu compare ", i, j) + (same ? "unequal" : "equal")); }
    x.checked(n);
  }
  for (size_t i = 0; i < rows.size(); ++i) {
    auto q = r.read_row_no_sink(); if (!q) bad(format("row %zu missing", i));
    std::string g = row_text(p.columns, q), e = expect_row(d.f, d.cols, rows[i]);
    if (g != e) bad(format("row %zu: ", i) + g + " expected " + e);
    x.checked();
  }
  x.outcome(mc::hash(file));
}
static Bytes row_for(const sg::Dataset &d, size_t i) { Bytes r(d.row_length, char(0xA5)); for (auto &c : d.cols) { Bytes v; if (!c.num) v = noise(c.len, uint32_t(c.off * 7 + i)); else v = ref::encode_number(d.f, double(c.off) * 3 + double(i) + 1, std::min(c.len, 8u)); v.resize(c.len, char(0x41)); r.replace(c.off, c.len, v); } return r; }
static std::vector<sg::Col> cols_n(size_t n) {
  std::vector<sg::Col> v;
  static const char *F[] = {"", "DATE", "$", "BEST", "DATETIME", "TIME", "YYMMDD"};
  for (size_t i = 0; i < n; ++i) { sg::Col c; c.num = i % 3 != 1; c.name = format("col%zu", i); c.label = i % 4 == 2 ? "" : format("Label %zu!", i * 7); c.format = F[i % 7]; c.len = c.num ? (i % 5 == 3 ? 4 : 8) : uint32_t(3 + i % 9); v.push_back(c); }
  return v;
}
// text blocks: every assignment of every text to a block; chunks of names and attributes
static void splits(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x, 2); size_t n = 1 + x.choose(3), blocks = 1 + x.choose(3);
  d.cols = cols_n(n); d.row_length = sg::layout_columns(d.cols, 1, 2);
  sg::TextPlan tp; tp.blocks = blocks; std::vector<size_t> a; std::string s = format("%zu columns, %zu text blocks:", n, blocks);
  if (n == 3 && blocks == 3 && !mc::thorough()) { // a slice of the 3^9 assignments: each column's three texts as one of 6 patterns
    static const size_t P[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 1, 0}, {2, 2, 2}, {0, 2, 0}, {1, 0, 1}};
    for (size_t i = 0; i < n; ++i) { auto &p = x.pick(P); a.insert(a.end(), p, p + 3); }
  } else for (size_t i = 0; i < n * 3; ++i) a.push_back(x.choose(uint32_t(blocks)));
  for (auto v : a) s += format(" %zu", v);
  tp.block = [&](size_t i, int k) { return a[i * 3 + size_t(k)]; };
  tp.lead = x.choose(2) * 8;
  static const size_t C[] = {SIZE_MAX, 1, 2};
  tp.name_chunk = x.pick(C); tp.attr_chunk = x.pick(C);
  auto ms = sg::meta_subs(d, 2, tp);
  std::vector<Bytes> rows{row_for(d, 0), row_for(d, 1)};
  sg::Page m; m.subs = ms.all();
  s += format(" name chunk %zd attr chunk %zd", ssize_t(tp.name_chunk), ssize_t(tp.attr_chunk));
  x.note(s); compare(x, d, 2, render(d.f, {m}, rows), rows, s);
}
// every order of the pieces the format allows, on one or several pages
static void orders(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x); size_t n = 1 + x.choose(2) * 2;
  d.cols = cols_n(n); d.row_length = sg::layout_columns(d.cols);
  sg::TextPlan tp; tp.name_chunk = 2; tp.attr_chunk = 1; tp.swap_sig = d.f.u64 && x.flag();
  auto ms = sg::meta_subs(d, 1, tp);
  // groups: 0 column size 1 counts 2 texts 3 names 4 attributes 5 formats 6 list
  std::vector<std::vector<sg::Sub>> g{{ms.colsize}, {ms.counts}, ms.texts, ms.names, ms.attrs, ms.fmts, {ms.list}};
  std::vector<size_t> left{0, 1, 2, 3, 4, 5, 6}, order;
  while (!left.empty()) {
    std::vector<size_t> can; bool text = std::find(left.begin(), left.end(), 2) == left.end();
    for (auto k : left) if ((k != 3 && k != 5) || text) can.push_back(k);
    size_t k = x.pick(can); order.push_back(k); left.erase(std::find(left.begin(), left.end(), k));
  }
  int cut = int(x.choose(4)); // 0: one page; 1: a page after the row size; 2: after the fourth group; 3: a page each
  static const uint16_t T[] = {sg::META, sg::AMD}; uint16_t t2 = cut ? x.pick(T) : sg::META;
  std::vector<sg::Page> pages(1); pages[0].subs = {ms.rowsize}; std::string s = "order";
  for (size_t i = 0; i < order.size(); ++i) {
    if ((cut == 1 && i == 0) || (cut == 2 && i == 4) || cut == 3) { sg::Page p; p.type = t2; pages.push_back(p); }
    for (auto &q : g[order[i]]) pages.back().subs.push_back(q);
    s += format(" %zu", order[i]);
  }
  std::vector<Bytes> rows{row_for(d, 0)};
  s += format(" cut %d page type %u swapped %d", cut, t2, tp.swap_sig); x.note(s);
  compare(x, d, 1, render(d.f, pages, rows), rows, s);
}
// every split of the list of pieces over up to three (thorough: four) pages, with ignorable pages between
static void pages(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x); d.cols = cols_n(4); d.row_length = sg::layout_columns(d.cols, 3);
  sg::TextPlan tp; tp.blocks = 2; tp.block = [](size_t i, int k) { return (i + size_t(k)) % 2; }; tp.name_chunk = 3; tp.attr_chunk = 2;
  auto all = sg::meta_subs(d, 1, tp).all(); size_t m = all.size();
  size_t a = 1 + x.choose(uint32_t(m)), b = a + x.choose(uint32_t(m - a + 1)), c = mc::thorough() ? b + x.choose(uint32_t(m - b + 1)) : m;
  static const uint16_t T[] = {sg::META, sg::AMD, sg::METC, 0x1234};
  uint16_t between = x.pick(T);
  std::vector<sg::Page> ps; auto add = [&](size_t i, size_t j) { if (i == j && !ps.empty()) return; sg::Page p; p.subs.assign(all.begin() + long(i), all.begin() + long(j)); if (!ps.empty()) { sg::Page q; q.type = between; q.nsubs = 0; q.fill = between == sg::METC ? 0x11 : 0; ps.push_back(q); } ps.push_back(p); };
  add(0, a); add(a, b); add(b, c); add(c, m);
  std::vector<Bytes> rows{row_for(d, 0)};
  std::string s = format("pages cut at %zu %zu %zu of %zu, page type %u between", a, b, c, m, between); x.note(s);
  compare(x, d, 1, render(d.f, ps, rows), rows, s);
}
// every recognised format (and near misses) x every length x numeric or not
static void types(Ctx &x) {
  static const std::vector<std::string> all = [] { auto a = ref::datetime_formats(); for (auto &s : ref::date_formats()) a.push_back(s); for (auto &s : ref::time_formats()) a.push_back(s);
    auto b = a; for (auto &s : b) { a.push_back(s + "X"); a.push_back(s.substr(0, s.size() - 1)); a.push_back("X" + s); Bytes l = s; for (auto &c : l) c = char(tolower(c)); a.push_back(l); }
    for (const char *s : {"", "BEST", "$", "$CHAR", "COMMA", "DOLLAR", "F", "DATE9", "TIME8", "HHMM", "TIMEAMPM", "DATETIME20", "PERCENT"}) a.push_back(s); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); return a; }();
  std::string fm = x.pick(all); sg::Dataset d; d.f = pick_fmt(x);
  for (uint32_t l = 1; l <= 10; ++l) for (int num = 0; num < 2; ++num) d.cols.push_back({format("c%u%d", l, num), "", fm, num == 1, l, 0});
  d.cols.push_back({"wide", "", fm, true, 200, 0}); d.cols.push_back({"widestr", "", fm, false, 2000, 0});
  d.row_length = sg::layout_columns(d.cols); sg::TextPlan tp; tp.type_string = x.flag() ? 2 : 0;
  auto ms = sg::meta_subs(d, 1, tp); sg::Page m; m.subs = ms.all();
  std::vector<Bytes> rows{row_for(d, 0)};
  x.note(d.f.str() + " format " + fm); compare(x, d, 1, render(d.f, {m}, rows), rows, "format '" + fm + "'");
}
// texts of every length, every letter, with stored padding
static void texts(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x); static const Bytes tails[] = {"", " ", "   ", Bytes(3, '\0'), Bytes(" \0 ", 3), "\t"};
  sg::TextPlan tp; tp.name_tail = x.pick(tails); tp.align = x.flag() ? 1 : 4; tp.absent_empty = x.flag(); uint32_t mode = x.choose(3);
  if (mode == 0) { uint32_t base = x.choose(16) * 16; for (uint32_t k = 1; k <= 17; ++k) { sg::Col c; uint32_t l = base + k; Bytes t = noise(l, l); for (auto &q : t) { unsigned char u = (unsigned char)q; q = char(33 + u % 94); } if (l > 3) t[l / 2] = ' '; c.name = t.substr(0, std::min(l, 64u)); c.label = t; c.format = format("F%u", l); c.num = true; d.cols.push_back(c); } }
  else { uint32_t base = 32 + x.choose(14) * 16; for (uint32_t b = base; b < base + 16; ++b) { if (b == 127) continue; sg::Col c; char q = char(b); bool mid = mode == 2 || b == 32; c.name = mid ? Bytes("ab") + q + "cd" : Bytes(1, q) + "mid" + q; c.label = mid ? Bytes("Some") + q + q + "text" : Bytes(1, q); c.format = Bytes("F") + (b == 32 ? 'x' : q); c.num = false; d.cols.push_back(c); } }
  d.row_length = sg::layout_columns(d.cols);
  auto ms = sg::meta_subs(d, 1, tp); sg::Page m; m.subs = ms.all(); std::vector<Bytes> rows{row_for(d, 0)};
  std::string s = format("texts mode %u tail %s align %zu", mode, mc::hex(tp.name_tail).c_str(), tp.align); x.note(s);
  compare(x, d, 1, render(d.f, {m}, rows), rows, s);
}
// numbers of columns; columns not in the order of their offsets; overlapping columns
static void counts(Ctx &x) {
  static const std::vector<size_t> N = [] { std::vector<size_t> v; for (size_t i = 0; i <= 40; ++i) v.push_back(i); for (size_t i : {63, 64, 65, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 2047, 4095}) v.push_back(i); if (mc::thorough()) for (size_t i : {8191, 16384, 32000}) v.push_back(i); return v; }();
  sg::Dataset d; d.f = pick_fmt(x); size_t n = x.pick(N); d.cols = cols_n(n);
  int arr = int(x.choose(3));
  size_t L = sg::layout_columns(d.cols, 1);
  if (arr == 1) for (auto &c : d.cols) c.off = L - c.off - c.len;                       // backwards
  if (arr == 2) { L = 20; for (size_t i = 0; i < n; ++i) d.cols[i].off = i % 9; }       // overlapping
  d.row_length = std::max<size_t>(L, 8);
  size_t per = 250; sg::TextPlan tp; tp.blocks = std::max<size_t>(1, (n + per - 1) / per); tp.block = [&](size_t i, int) { return i / per; };
  static const size_t C[] = {SIZE_MAX, 100, 7}; size_t ch = x.pick(C); tp.name_chunk = std::min<size_t>(ch, 2000); tp.attr_chunk = std::min<size_t>(ch, 1500);
  tp.attr_tail = x.flag() ? d.f.isz() : 0; if (x.flag()) tp.fmt_tail = 8;
  auto all = sg::meta_subs(d, 1, tp).all(); std::vector<sg::Page> ps; size_t bytes = 0;
  for (auto &q : all) { if (ps.empty() || bytes + q.data.size() > 40000) { ps.emplace_back(); bytes = 0; } ps.back().subs.push_back(q); bytes += q.data.size() + 24; }
  std::vector<Bytes> rows{row_for(d, 0)}; if (arr == 2) rows[0] = noise(d.row_length, uint32_t(n));
  std::string s = format("%zu columns, arrangement %d, chunk %zd, tail %zu", n, arr, ssize_t(ch), tp.attr_tail); x.note(s); x.beat();
  compare(x, d, 1, render(d.f, ps, rows), rows, s);
}
// more columns than 15 and 16 bits can number
static void many(Ctx &x) {
  sg::Dataset d; if (x.flag()) d.f.big = d.f.u64 = true; size_t n = x.pick({32768, 65535, 65536, 70000}); d.cols = cols_n(n); d.row_length = sg::layout_columns(d.cols, 1);
  size_t per = 250; sg::TextPlan tp; tp.blocks = (n + per - 1) / per; tp.block = [&](size_t i, int) { return i / per; }; tp.name_chunk = 2000; tp.attr_chunk = 1500;
  auto all = sg::meta_subs(d, 1, tp).all(); std::vector<sg::Page> ps; size_t bytes = 0;
  for (auto &q : all) { if (ps.empty() || bytes + q.data.size() > 40000) { ps.emplace_back(); bytes = 0; } ps.back().subs.push_back(q); bytes += q.data.size() + 24; }
  std::vector<Bytes> rows{row_for(d, 0)}; std::string s = d.f.str() + format(", %zu columns", n); x.note(s); x.beat(); compare(x, d, 1, render(d.f, ps, rows), rows, s);
}
// dataset-level values
static void dataset(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x); static const sg::Comp C[] = {sg::Comp::none, sg::Comp::rle, sg::Comp::rdc}; d.comp = x.pick(C);
  d.cols = cols_n(2); sg::layout_columns(d.cols);
  static const uint64_t RL[] = {11, 12, 255, 256, 65535, 65536, 0x7fffffff}; d.row_length = x.pick(RL); d.row_length = std::max<uint64_t>(d.row_length, d.cols[1].off + d.cols[1].len);
  static const uint64_t RC[] = {0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0xffffffff}; uint64_t rc = x.pick(RC); if (d.f.u64 && x.flag()) rc += uint64_t(1) << 32;
  static const uint64_t M[] = {0, 1, 65536}; d.mix_rows = x.pick(M);
  if (uint32_t k = x.choose(3)) { d.p1 = k == 1 ? 1 : 0x12345; d.p2 = k == 1 ? 1 : 0x6789abcd; }
  uint32_t w = x.choose(d.comp == sg::Comp::none ? 3 : 2);
  static const char *T[] = {"", "DATASTEP", "SORT", "A", "PRINTTO2", "\xC9" "DITEUR"}; Bytes t = x.pick(T);
  if (w == 1) { d.creator_proc = t; if (d.comp == sg::Comp::rdc) d.creator_proc.clear(); } else if (w == 2) d.creator = t;
  sg::TextPlan tp; tp.swap_sig = d.f.u64 && x.flag();
  auto ms = sg::meta_subs(d, rc, tp); sg::Page m; m.subs = ms.all();
  std::string s = format("row length %llu rows %llu compression %d creator '%s' proc '%s'", (unsigned long long)d.row_length, (unsigned long long)rc, int(d.comp), d.creator.c_str(), d.creator_proc.c_str());
  x.note(s); 
  size_t need = sg::page_need(d.f, m); sg::File fl; fl.h.f = d.f; fl.h.page_length = uint32_t((need + 63) / 64 * 64); fl.pages = {m};
  compare(x, d, rc, fl.render_all(), {}, s);
}
// creators of every length up to 64 and around powers of two
static void creators(Ctx &x) {
  sg::Dataset d; d.f = pick_fmt(x); static const sg::Comp C[] = {sg::Comp::none, sg::Comp::rle}; d.comp = x.pick(C);
  d.cols = cols_n(2); d.row_length = sg::layout_columns(d.cols);
  static const size_t P[] = {127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 8191, 8192, 16384, 32000};
  bool proc = d.comp != sg::Comp::none || x.flag(); uint32_t k = x.choose(64 + 14); size_t n = k < 64 ? k + 1 : P[k - 64];
  Bytes t(n, 'c'); for (size_t i = 0; i < n; ++i) t[i] = char('A' + i % 26); (proc ? d.creator_proc : d.creator) = t;
  auto ms = sg::meta_subs(d, 1); sg::Page m; m.subs = ms.all();
  std::string s = format("compression %d, creator%s of %zu letters", int(d.comp), proc ? " procedure" : "", n); x.note(s);
  size_t need = sg::page_need(d.f, m); sg::File fl; fl.h.f = d.f; fl.h.page_length = uint32_t((need + 63) / 64 * 64); fl.pages = {m};
  compare(x, d, 1, fl.render_all(), {}, s);
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("text-blocks", splits);
    mc::add("orders", orders);
    mc::add("pages", pages);
    mc::add("types", types);
    mc::add("texts", texts);
    mc::add("numbers-of-columns", counts);
    mc::add("dataset", dataset);
    mc::add("creators", creators);
    mc::add("many-columns", many);
  });
}
