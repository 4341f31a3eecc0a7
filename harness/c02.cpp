// C02: any history of reading calls sees the rows of one plain pass.
#include "ops.hpp"
using namespace hx;
static const std::vector<Op> ALL{Op::read_row, Op::rows0, Op::rows1, Op::rows2, Op::rows3, Op::rows_all, Op::skip0, Op::skip1, Op::skip2, Op::skip_all, Op::peek, Op::read_all, Op::move_new, Op::move_assign};
static const std::vector<Op> CORE{Op::read_row, Op::rows2, Op::skip1, Op::skip2, Op::peek, Op::move_assign};
static const std::vector<Op> SMALL{Op::read_row, Op::skip1, Op::peek};
static Layout layout(Ctx &x, bool all) {
  static const auto F = all_formats(false);
  sg::Fmt f;
  if (all) f = x.pick(F); else { f.big = true; f.u64 = true; f.a1 = true; if (x.flag()) f = sg::Fmt(); }
  auto z = zoo(f);
  return z[x.choose(uint32_t(z.size()))];
}
// ---- counts beyond 8 and 16 bits, over files of tens of thousands of rows
struct CountSink {
  struct S { size_t rows = 0, next = 0; bool ok = true, first = true; double bad = 0; }; S *s; cs::COLUMNS cols;
  explicit CountSink(S *p) : s(p) {}
  void set_properties(const cs::Properties &p) { cols = cs::COLUMNS(p.columns); }
  void push_row(size_t i, cs::Column::PBUF p) { double d = cols[0].get_number(p); if (i != s->next || d != double(i)) { if (s->ok) s->bad = d; s->ok = false; } ++s->next; ++s->rows; }
  void end_of_data() {}
};
static const Bytes &many(const sg::Fmt &f, uint32_t kind) {
  static std::map<std::string, Bytes> m; auto k = f.str() + char('0' + kind); auto i = m.find(k); if (i != m.end()) return i->second;
  sg::Dataset d; d.f = f; d.cols = {{"x", "", "", true, 8, 0}, {"pad", "", "", false, kind == 1 ? 24u : 0u, 0}}; if (kind != 1) d.cols.pop_back();
  d.row_length = sg::layout_columns(d.cols); d.comp = kind == 1 ? sg::Comp::rle : sg::Comp::none; size_t n = kind == 1 ? 9000 : 140000, per = kind == 0 ? 65535 : kind == 1 ? 700 : 250;
  auto row = [&](size_t r) { Bytes b(d.row_length, ' '); Bytes v = ref::encode_number(f, double(r), 8); b.replace(0, 8, v); return b; };
  sg::File fl; fl.h.f = f; sg::Page p0; p0.subs = sg::meta_subs(d, n).all(); fl.pages.push_back(p0); size_t need = sg::page_need(f, p0);
  for (size_t r = 0; r < n;) { sg::Page p; p.type = kind == 1 ? sg::META : sg::DATA; for (size_t k2 = 0; k2 < per && r < n; ++k2, ++r) { if (kind == 1) p.subs.push_back(sg::row_sub(d.comp, row(r))); else p.rows.push_back(row(r)); } need = std::max(need, sg::page_need(f, p)); fl.pages.push_back(p); }
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  return m[k] = fl.render_all();
}
static void large(Ctx &x) {
  sg::Fmt f; if (x.flag()) { f.big = f.u64 = true; } uint32_t kind = x.choose(3); const Bytes &b = many(f, kind); size_t n = kind == 1 ? 9000 : 140000, pos = 0, depth = mc::thorough() ? 4 : 3;
  static const size_t K[] = {1, 255, 256, 65535, 65536, 131072};
  CountSink::S s; cs::Reader r(MemSource(share(b)), CountSink(&s)); cs::COLUMNS cols(r.properties().columns); std::string tr;
  for (size_t k = 0; k < depth; ++k) {
    uint32_t a = x.choose(13); size_t before = s.rows, c = a < 12 ? K[a % 6] : 0, want = std::min(c, n - pos); bool ret; s.next = pos;
    if (a < 6) { tr += format(" read_rows(%zu)", c); ret = r.read_rows(c); if (s.rows - before != want) x.fail(f.str() + tr + format(": %zu rows were delivered, expected %zu", s.rows - before, want)); pos += want; if (ret != (want == c)) x.fail(f.str() + tr + ": returned " + (ret ? "true" : "false")); }
    else if (a < 12) { tr += format(" skip(%zu)", c); ret = r.skip(c); pos += want; if (s.rows != before) x.fail(f.str() + tr + ": skipped rows reached the sink"); if (ret != (want == c)) x.fail(f.str() + tr + ": returned " + (ret ? "true" : "false")); }
    else { tr += " read_row_no_sink"; auto p = r.read_row_no_sink(); if ((p != nullptr) != (pos < n)) x.fail(f.str() + tr + ": row or none"); if (p) { if (cols[0].get_number(p) != double(pos)) x.fail(f.str() + tr + format(": row %zu is %g", pos, cols[0].get_number(p))); ++pos; } }
    if (!s.ok) x.fail(f.str() + format(" kind %u", kind) + tr + format(": the wrong row: %g", s.bad));
    if (r.current_row_index() != pos) x.fail(f.str() + tr + format(": current_row_index is %zu, %zu rows were consumed", r.current_row_index(), pos));
    x.transition(); x.checked(4); x.state(mc::combine(mc::hash(f.str()), pos * 4 + kind));
  }
  s.next = pos; size_t before = s.rows; r.read_all(); if (!s.ok || s.rows - before != n - pos) x.fail(f.str() + tr + ": the rest is not all there");
  x.note(f.str() + format(" kind %u:", kind) + tr); x.outcome(mc::hash(x.desc));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("all-operations", [](Ctx &x) { run_ops(x, cached(layout(x, true)), ALL, mc::thorough() ? 5 : 3, false); });
    mc::add("core-operations", [](Ctx &x) { run_ops(x, cached(layout(x, mc::thorough())), CORE, mc::thorough() ? 7 : 5, false); });
    mc::add("large-counts", large, 0, 0, 120);
    mc::add("long-histories", [](Ctx &x) { run_ops(x, cached(layout(x, mc::thorough())), SMALL, mc::thorough() ? 11 : 8, false); });
  });
}
