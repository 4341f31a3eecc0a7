// C01: row fidelity over on-disk layouts.
#include "layouts.hpp"
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
using namespace hx;

template <class Source> static void run_case(Ctx &x, const Case &c, Source &&src, const std::string &what) {
  auto log = std::make_shared<Log>();
  size_t idx;
  {
    cs::Reader r(std::forward<Source>(src), RecSink(log));
    x.check(r.properties().row_count == c.row_count, what + ": row count property");
    x.check(r.properties().columns.size() == c.cols.size(), what + ": number of columns");
    r.read_all();
    idx = r.current_row_index();
  }
  const auto &ev = log->ev;
  size_t n = 0, wrong = SIZE_MAX;
  for (auto &e : ev) if (e.kind == 'R') { if (wrong == SIZE_MAX && (e.index != n || n >= c.expect.size() || e.row != c.expect[n])) wrong = n; ++n; }
  if (n != c.expect.size()) x.fail(what + format(": delivered %zu rows, file stores %zu: ", n, c.expect.size()) + show_log(ev, 12));
  if (wrong != SIZE_MAX) {
    size_t k = 0; for (auto &e : ev) if (e.kind == 'R' && k++ == wrong) x.fail(what + format(": row %zu delivered as #%zu ", wrong, e.index) + e.row + " expected " + c.expect[wrong]);
  }
  x.check(idx == n, what + ": current row index");
  x.check(ev.size() == n + 2 && ev.front().kind == 'P' && ev.back().kind == 'E', what + ": notifications " + show_log(ev, 6));
  x.checked(n + 4);
}

static void pages_choice(Ctx &x, Layout &l, size_t maxlen) {
  static const std::vector<PSpec> U{{'D', 1}, {'D', 2}, {'D', 0}, {'E', 0}, {'m', 0}, {'A', 0}, {'u', 0}};
  static const std::vector<PSpec> Z{{'M', 1}, {'M', 2}, {'M', 1, true}, {'D', 1}, {'D', 0}, {'E', 0}, {'m', 0}, {'A', 0}};
  const auto &A = l.comp == sg::Comp::none ? U : Z;
  size_t n = x.choose(uint32_t(maxlen + 1));
  for (size_t i = 0; i < n; ++i) l.pages.push_back(x.pick(A));
}

static void layouts_body(Ctx &x, bool compressed) {
  Layout l;
  static const auto F = all_formats();
  l.f = x.pick(F);
  size_t deep = mc::thorough() ? 4 : 3;
  if (!compressed) {
    uint32_t m = x.choose(8);
    // 0: plain; others: mixed pages with 0..2 rows and a subheader count of either parity
    if (m) { static const size_t R[] = {0, 0, 1, 2, 0, 1, 2, 1}; static const size_t E[] = {0, 0, 0, 0, 1, 1, 1, 2}; l.mix = true; l.mix_rows = R[m]; l.extra_subs = E[m]; l.mix_type = m % 2 ? sg::MIX1 : sg::MIX2; }
  } else {
    l.comp = x.flag() ? sg::Comp::rdc : sg::Comp::rle;
    l.meta_rows = x.choose(3);
  }
  l.split = int(x.choose(3));
  pages_choice(x, l, deep);
  size_t total = l.mix_rows + l.meta_rows; for (auto &p : l.pages) if (p.kind == 'D' || p.kind == 'M') total += p.rows;
  uint32_t q = x.choose(total ? 3 : 2);
  if (q == 1) l.missing = 1;
  if (q == 2) l.surplus = 1;
  l.fill = (l.split == 1) ? 0xA5 : 0;
  // header shorter or longer than a page
  l.header_length = (l.pages.size() + l.mix_rows + l.meta_rows) % 2 ? 8192 : 640;
  l.pack_low = l.split == 2;
  Case c = build(l);
  x.note(l.str());
  run_case(x, c, MemSource(share(c.bytes)), l.str());
  x.outcome(mc::hash(l.str()));
}

static void colsets_body(Ctx &x) {
  static const auto F = all_formats();
  sg::Fmt f = x.pick(F);
  auto z = zoo(f);
  Layout l = z[x.choose(uint32_t(z.size()))];
  l.cols = int(x.choose(4));
  static const uint32_t H[] = {296, 1024, 4096, 8192, 65536};
  l.header_length = x.pick(H);
  l.slack = x.flag() ? 700 : 0;
  l.fill = x.flag() ? 0xFF : 0;
  bool file = x.flag();
  Case c = build(l);
  x.note(l.str());
  if (!file) run_case(x, c, MemSource(share(c.bytes)), l.str());
  else {
    char name[64]; snprintf(name, sizeof name, "/tmp/verif_c01_%d.sas7bdat", int(getpid()));
    FILE *o = fopen(name, "wb"); if (!o) throw mc::ToolError{"cannot write scratch file"};
    fwrite(c.bytes.data(), 1, c.bytes.size(), o); fclose(o);
    struct Rm { const char *n; ~Rm() { unlink(n); } } rm{name};
    run_case(x, c, cs::datasource::ifstream(name), l.str() + " (file)");
  }
  x.outcome(mc::hash(l.str() + (file ? "f" : "m") + std::to_string(l.slack) + std::to_string(l.fill)));
}

// counts beyond 8 and 16 bits, rows and pages larger than common buffer sizes
static void scale_body(Ctx &x) {
  sg::Fmt f; uint32_t q = x.choose(4); f.big = q & 1; f.u64 = q & 2; f.a1 = q == 3;
  uint32_t k = x.choose(mc::thorough() ? 12 : 9);
  Layout l; l.f = f; l.cols = 1; // 8-byte rows
  using C = sg::Comp;
  switch (k) {
  case 0: l.pages = {{'D', 65535}, {'D', 10}}; break;                  // largest block count
  case 1: for (int i = 0; i < 300; ++i) l.pages.push_back({'D', 250}); l.surplus = 7; break; // > 65535 rows, > 255 pages
  case 2: l.mix = true; l.mix_rows = 1000; l.pages = {{'D', 256}, {'D', 257}}; break;
  case 3: l.comp = C::rle; l.cols = 3; l.meta_rows = 255; l.pages = {{'M', 256}, {'M', 257}, {'M', 1000}}; break;
  case 4: l.comp = C::rdc; l.cols = 3; l.meta_rows = 300; l.pages = {{'M', 700}}; break;
  case 5: l.cols = 0; l.pages = {{'D', 3000}}; break;
  case 6: l.cols = 2; l.mix = true; l.mix_rows = 65536; l.extra_subs = 1; l.pages = {{'D', 3}}; break;
  case 7: for (int i = 0; i < 70; ++i) { l.pages.push_back({'E', 0}); l.pages.push_back({'D', 1}); l.pages.push_back({'D', 0}); } break;
  case 8: l.split = 2; for (int i = 0; i < 300; ++i) l.pages.push_back({"EAmu"[i % 4], 0}); l.pages.push_back({'D', 2}); break;
  case 9: for (int i = 0; i < 3; ++i) l.pages.push_back({'D', 65535}); break;
  case 10: l.comp = C::rle; l.cols = 2; for (int i = 0; i < 40; ++i) l.pages.push_back({'M', 2000}); break;
  case 11: l.mix = true; l.mix_rows = 200000; l.pages = {{'D', 65535}}; break;
  }
  Case c = build(l);
  x.note(format("%s scale case %u: %zu rows, page length %u", f.str().c_str(), k, c.rows.size(), c.h.page_length));
  run_case(x, c, MemSource(share(c.bytes)), x.desc);
  x.outcome(mc::hash(x.desc));
}
// wide rows
static void wide_body(Ctx &x) {
  sg::Fmt f; uint32_t q = x.choose(4); f.big = q & 1; f.u64 = q & 2;
  static const uint32_t W[] = {255, 256, 257, 1023, 4096, 32767, 65535, 65536, 70000, 300000}; // the last: more than 65535 bytes compressed
  uint32_t w = x.pick(W);
  uint32_t comp = x.choose(3);
  Case c; c.l.f = f; c.l.comp = comp == 1 ? sg::Comp::rle : comp == 2 ? sg::Comp::rdc : sg::Comp::none;
  c.cols = {{"wide", "", "", false, w, 0}, {"n", "", "", true, 8, 0}, {"t", "", "", false, 3, 0}};
  c.row_length = sg::layout_columns(c.cols);
  for (size_t i = 0; i < 3; ++i) {
    Bytes r = make_row(f, c.cols, c.row_length, i);
    // structured contents: runs, repeats and pseudo-random bytes over the wide column
    uint32_t s = uint32_t(i * 7919 + w);
    for (size_t k = 0; k < w; ++k) { s = s * 1664525u + 1013904223u; r[k] = (k / 97) % 3 == 0 ? char('A' + (s >> 28)) : (k / 97) % 3 == 1 ? ' ' : char("xyz!"[k % 4]); }
    c.rows.push_back(r);
  }
  sg::Dataset d; d.f = f; d.comp = c.l.comp; d.cols = c.cols; d.row_length = c.row_length;
  auto ms = sg::meta_subs(d, 3);
  sg::Page m; m.subs = ms.all();
  sg::File fl; fl.h.f = f;
  if (comp) { sg::Page p; for (auto &r : c.rows) p.subs.push_back(sg::row_sub(c.l.comp, r)); fl.pages = {m, p}; }
  else { sg::Page p; p.type = sg::DATA; p.rows = c.rows; fl.pages = {m, p}; }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  c.bytes = fl.render_all(); c.row_count = 3;
  for (auto &r : c.rows) c.expect.push_back(expect_row(f, c.cols, r));
  x.note(format("%s wide row of %zu bytes, compression %u", f.str().c_str(), c.row_length, comp));
  run_case(x, c, MemSource(share(c.bytes)), x.desc);
  { cs::Reader r(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); for (size_t k = 0; k < c.cols.size(); ++k) x.check(r.properties().columns.at(k).length() == c.cols[k].len, "the length of a column"); }
  x.outcome(mc::hash(x.desc));
}

// a page of a type that is none of the known ones carries no rows and no metadata, whatever it holds: all 65531 types,
// on a copy of a page of rows or of the first metadata page, before, between and behind the pages of rows
static void types_body(Ctx &x) {
  Layout l; static const auto F = all_formats();
  if (mc::thorough()) l.f = x.pick(F); else if (x.flag()) l.f = F.back();
  bool comp = x.flag(); if (comp) { l.comp = sg::Comp::rle; l.pages = {{'M', 2}, {'M', 1}}; } else l.pages = {{'D', 2}, {'D', 1}};
  static const std::vector<std::pair<size_t, size_t>> W{{1, 1}, {2, 1}, {3, 1}, {1, 0}, {2, 0}}; // where, copy of which page
  auto [at, of] = x.pick(W); uint32_t hi = x.choose(256);
  Case c = build(l); size_t P = c.h.page_length, H = c.h.header_length;
  auto page = c.bytes.substr(H + of * P, P), head = c.bytes.substr(0, H + at * P), tail = c.bytes.substr(H + at * P);
  sg::put32(l.f, head, 204 + (l.f.a1 ? 4 : 0), uint32_t((c.bytes.size() - H) / P + 1));
  for (uint32_t lo = 0; lo < 256; ++lo) {
    uint16_t t = uint16_t(hi << 8 | lo); if (t == sg::META || t == sg::DATA || t == sg::MIX1 || t == sg::MIX2 || t == sg::AMD) continue;
    sg::putn(page, l.f.u64 ? 32 : 16, t, 2, l.f.big);
    run_case(x, c, MemSource(share(head + page + tail)), l.str() + format(" with a copy of page %zu at %zu of type %u", of, at, unsigned(t)));
  }
  x.outcome(mc::hash(l.str() + format("%zu%zu%u", at, of, hi)));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("plain-layouts", [](Ctx &x) { layouts_body(x, false); });
    mc::add("compressed-layouts", [](Ctx &x) { layouts_body(x, true); });
    mc::add("columns-headers-files", colsets_body);
    mc::add("wide-rows", wide_body);
    mc::add("page-types", types_body);
    mc::add("scale", scale_body, 0, 0, 120);
  });
}
