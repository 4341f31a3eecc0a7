// C02: row numbers beyond 31 and 32 bits. The file is made up page by page as it is read.
#include "ops.hpp"
using namespace hx;
static constexpr size_t PER = 65535;
static char value(size_t i) { return char(33 + i % 89); }
struct Virtual { Bytes head, page; size_t rows_at = 0; std::string pattern; };
static std::shared_ptr<const Virtual> make(const sg::Fmt &f, uint64_t n) {
  sg::Dataset d; d.f = f; d.cols = {{"s", "", "$", false, 1, 0}}; d.row_length = sg::layout_columns(d.cols);
  sg::File fl; fl.h.f = f; sg::Page p0, p1; p0.subs = sg::meta_subs(d, n).all(); p1.type = sg::DATA; for (size_t k = 0; k < PER; ++k) p1.rows.push_back(Bytes(1, 'A'));
  fl.h.page_length = uint32_t((std::max(sg::page_need(f, p0), sg::page_need(f, p1)) + 63) / 64 * 64); fl.pages = {p0, p1}; Bytes b = fl.render_all();
  auto v = std::make_shared<Virtual>(); size_t cut = b.size() - fl.h.page_length; v->head = b.substr(0, cut); v->page = b.substr(cut); v->rows_at = v->page.find(std::string(PER, 'A')); if (v->rows_at == std::string::npos) throw mc::ToolError{"page"};
  for (size_t i = 0; i < PER + 89; ++i) v->pattern += value(i);
  return v;
}
struct PageSource {
  std::shared_ptr<const Virtual> v; uint64_t pos = 0, end = 0, have = UINT64_MAX; bool at_eof = false; Bytes cur;
  PageSource(std::shared_ptr<const Virtual> s, uint64_t n) : v(std::move(s)) { end = v->head.size() + (n + PER - 1) / PER * v->page.size(); }
  bool eof() { return at_eof; }
  bool read_bytes(void *p, const size_t n) {
    char *o = static_cast<char *>(p); size_t left = n;
    while (left && pos < end) {
      const Bytes *b = &v->head; size_t off = size_t(pos);
      if (pos >= v->head.size()) { uint64_t k = (pos - v->head.size()) / v->page.size(); off = size_t((pos - v->head.size()) % v->page.size()); if (have != k) { if (cur.empty()) cur = v->page; memcpy(&cur[v->rows_at], v->pattern.data() + k * PER % 89, PER); have = k; } b = &cur; }
      size_t m = std::min(left, b->size() - off); memcpy(o, b->data() + off, m); o += m; left -= m; pos += m;
    }
    if (left) at_eof = true;
    return !left;
  }
};
struct Sink {
  struct S { uint64_t next = 0, rows = 0, ends = 0; std::string bad; }; S *s; cs::COLUMNS cols;
  explicit Sink(S *p) : s(p) {}
  void set_properties(const cs::Properties &p) { cols = cs::COLUMNS(p.columns); }
  void push_row(size_t i, cs::Column::PBUF p) { auto t = cols[0].get_string(p); if (i != s->next || t.size() != 1 || t[0] != value(size_t(s->next))) if (s->bad.empty()) s->bad = format("row %zu '%s' came where row %llu was due", i, std::string(t).c_str(), (unsigned long long)s->next); ++s->next; ++s->rows; }
  void end_of_data() { ++s->ends; }
};
static void body(Ctx &x) {
  sg::Fmt f; bool wide = x.flag(); f.u64 = wide; f.big = mc::thorough() ? x.flag() : wide; uint64_t edge = uint64_t(1) << (wide ? 32 : 31), n = edge + 3 + (mc::thorough() ? x.choose(3) * PER : 0);
  std::string w = f.str() + format(", %llu rows", (unsigned long long)n); x.note(w); Sink::S s; cs::Reader r(PageSource(make(f, n), n), Sink(&s)); cs::COLUMNS cols(r.properties().columns); uint64_t pos = 0;
  auto at = [&](const char *what) { x.checked(3); x.transition(); x.state(mc::combine(mc::hash(f.str()), pos)); if (!s.bad.empty()) x.fail(w + ", " + what + ": " + s.bad); if (r.current_row_index() != pos) x.fail(w + format(", %s: current_row_index is %llu, %llu rows were consumed", what, (unsigned long long)r.current_row_index(), (unsigned long long)pos)); };
  if (r.properties().row_count != n) x.fail(w + format(": row_count is %llu", (unsigned long long)r.properties().row_count));
  auto skip = [&](uint64_t k) { if (!r.skip(size_t(k))) x.fail(w + format(": skip(%llu) at %llu returned false", (unsigned long long)k, (unsigned long long)pos)); pos += k; s.next = pos; at("after a skip"); };
  auto rows = [&](uint64_t k) { s.next = pos; if (!r.read_rows(size_t(k))) x.fail(w + ": read_rows returned false"); pos += k; if (s.next != pos) x.fail(w + ": read_rows delivered another number of rows"); at("after read_rows"); };
  rows(2); skip(edge / 2 - 4); rows(4); skip(edge - pos - 2);
  auto p = r.read_row_no_sink(); if (!p || cols[0].get_string(p) != std::string(1, value(size_t(pos)))) x.fail(w + ": the wrong row without a sink"); ++pos; s.next = pos; at("after a row without a sink");
  if (!r.read_row()) x.fail(w + ": read_row returned false"); ++pos; at("after read_row"); if (pos != edge) throw mc::ToolError{"position"};
  rows(3); if (s.ends && n != pos) x.fail(w + ": end of data too early"); uint64_t before = s.rows; r.read_all(); if (s.rows - before != n - pos) x.fail(w + format(": read_all delivered %llu rows, %llu were left", (unsigned long long)(s.rows - before), (unsigned long long)(n - pos))); pos = n; at("at the end");
  if (!s.ends) x.fail(w + ": no end of data"); if (r.read_row() || s.rows != before + (n - (edge + 3))) x.fail(w + ": a row beyond the last"); at("beyond the end");
  if (r.skip(1)) x.fail(w + ": skip(1) at the end returned true"); x.outcome(mc::hash(w));
}
int main(int argc, char **argv) { quiet(); return mc::main_(argc, argv, [] { mc::add("row-numbers", body, 0, 0, 600); }); }
