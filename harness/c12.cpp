// C12: column filters.
#include "ops.hpp"
#include "rows.hpp"
using namespace hx;
namespace cf = cppsas7bdat::ColumnFilter;
struct Want { std::vector<size_t> cols; };
static std::string pick_row(const Case &c, size_t i, const std::vector<size_t> &cols) { std::string r; for (auto k : cols) r += expect_value(c.l.f, c.cols[k], c.rows[i]) + "|"; return r; }
template <class F> static void compare(Ctx &x, const Case &c, F &&filter, const std::vector<size_t> &want, const std::string &what, bool via_rows = false) {
  auto log = std::make_shared<Log>();
  cs::Reader r(MemSource(share(c.bytes)), RecSink(log), std::forward<F>(filter));
  auto bad = [&](const std::string &m) { x.fail(c.l.str() + " " + what + ": " + m); };
  const auto &p = r.properties();
  if (p.columns.size() != want.size()) bad(format("%zu columns, %zu accepted", p.columns.size(), want.size()));
  for (size_t i = 0; i < want.size(); ++i) {
    const auto &e = c.cols[want[i]]; const auto &g = p.columns[i];
    if (g.name != e.name || g.label != e.label || g.format != e.format || type_name(g.type) != std::string(ref::kind_name(ref::kind(e))) || g.length() != e.len) bad(format("column %zu is ", i) + g.name + ", expected " + e.name);
  }
  if (p.column_count != c.cols.size() || p.row_count != c.row_count || p.row_length != c.row_length || p.compression != (c.l.comp == sg::Comp::none ? cs::Compression::none : c.l.comp == sg::Comp::rle ? cs::Compression::RLE : cs::Compression::RDC) || p.dataset_name != c.h.dataset || p.page_length != c.h.page_length || p.page_count != c.h.page_count || p.encoding != "UTF-8") bad("dataset properties changed");
  if (via_rows) { while (r.read_rows(2)) {} } else r.read_all();
  size_t n = 0, ends = 0;
  for (auto &e : log->ev) {
    if (e.kind == 'R') { if (n >= c.rows.size()) bad("more rows than stored"); if (e.index != n) bad("row index"); std::string w = pick_row(c, n, want); if (e.row != w) bad(format("row %zu is ", n) + e.row + " expected " + w); ++n; }
    else if (e.kind == 'E') ++ends;
    else if (e.index != want.size()) bad("the sink was told other columns");
  }
  if (n != c.rows.size() || ends != 1) bad(format("%zu rows of %zu, %zu ends", n, c.rows.size(), ends));
  x.checked(n + want.size() + 1);
  x.outcome(mc::hash(c.l.str() + what));
}
static std::vector<Layout> layouts(Ctx &x, uint32_t fmts) { return zoo(pick_fmt(x, fmts)); }
// names as the user may write them: k-th variant of a name
static std::string variant(const std::string &n, uint32_t k) {
  switch (k) {
  case 0: return n + "x"; case 1: return n.substr(0, n.size() - 1); case 2: { auto s = n; for (auto &c : s) c = char(toupper(c)); return s; }
  case 3: return n + " "; case 4: return " " + n; case 5: return ""; case 6: return "x" + n; case 7: return std::string("label of ") + n; case 8: return n + std::string(1, '\0'); default: return n + n;
  }
}
static void sets(Ctx &x) {
  auto ls = layouts(x, 2); const Case &c = cached(x.pick(ls)); size_t n = c.cols.size();
  if (n > 5) n = 5; // the sets range over the first five columns; the others stay unnamed
  uint32_t kind = x.choose(3), inc = kind != 1 ? x.choose(1u << n) : 0, exc = kind != 0 ? x.choose(1u << n) : 0;
  cf::IncludeExclude f; std::vector<size_t> want; std::string s = kind == 0 ? "Include" : kind == 1 ? "Exclude" : "IncludeExclude"; s += format(" include %x exclude %x", inc, exc);
  for (size_t i = 0; i < n; ++i) { if (inc >> i & 1) f.included.insert(c.cols[i].name); if (exc >> i & 1) f.excluded.insert(c.cols[i].name); }
  for (size_t i = 0; i < c.cols.size(); ++i) {
    bool in = i < n && (inc >> i & 1), ex = i < n && (exc >> i & 1);
    bool ok = kind == 0 ? in : kind == 1 ? !ex : inc ? in : !ex;
    if (ok) want.push_back(i);
  }
  x.note(c.l.str() + " " + s);
  if (kind == 0) { cf::Include g; g.included = f.included; compare(x, c, std::move(g), want, s); }
  else if (kind == 1) { cf::Exclude g; g.excluded = f.excluded; compare(x, c, std::move(g), want, s); }
  else compare(x, c, std::move(f), want, s);
}
// names that do not match exactly
static void near_names(Ctx &x) {
  auto ls = layouts(x, 4); const Case &c = cached(x.pick(ls)); size_t col = x.choose(uint32_t(c.cols.size())); uint32_t v = x.choose(10), kind = x.choose(5); bool other = x.flag();
  std::string nm = variant(c.cols[col].name, v); size_t o = (col + 1) % c.cols.size(); if (other && c.cols.size() == 1) x.prune();
  bool exact = false; size_t hit = 0; for (size_t i = 0; i < c.cols.size(); ++i) if (c.cols[i].name == nm) { exact = true; hit = i; }
  std::set<std::string> names{nm}; if (other) names.insert(c.cols[o].name);
  auto in = [&](size_t i) { return (exact && i == hit) || (other && i == o); };
  std::vector<size_t> want; std::string s = format("kind %u names '%s'%s", kind, nm.c_str(), other ? " and another" : "");
  for (size_t i = 0; i < c.cols.size(); ++i) { bool k = kind == 0 || kind == 2 ? in(i) : kind == 1 || kind == 3 ? !in(i) : in(i); if (k) want.push_back(i); }
  x.note(c.l.str() + " " + s);
  switch (kind) {
  case 0: { cf::Include f; f.included = names; compare(x, c, f, want, s); } break;
  case 1: { cf::Exclude f; f.excluded = names; compare(x, c, std::move(f), want, s, true); } break;
  case 2: { cf::IncludeExclude f; f.included = names; compare(x, c, f, want, s, true); } break;
  case 3: { cf::IncludeExclude f; f.excluded = names; compare(x, c, std::move(f), want, s); } break;
  default: { cf::IncludeExclude f; f.included = names; f.excluded = names; compare(x, c, std::move(f), want, s); } break; // the include set wins
  }
}
struct Pred {
  uint32_t mask; std::shared_ptr<std::vector<std::string>> seen;
  bool accept(const cs::Column &c) const { size_t k = seen->size(); seen->push_back(c.name + "/" + c.label + "/" + c.format + "/" + std::to_string(c.length()) + "/" + type_name(c.type)); return mask >> k & 1; }
};
struct ByType { int t; bool accept(const cs::Column &c) const { return int(c.type) == t; } };
static void predicates(Ctx &x) {
  auto ls = layouts(x, 2); const Case &c = cached(x.pick(ls)); size_t n = c.cols.size(); uint32_t m = x.choose(1u << n);
  std::vector<size_t> want; for (size_t i = 0; i < n; ++i) if (m >> i & 1) want.push_back(i);
  auto seen = std::make_shared<std::vector<std::string>>(); x.note(c.l.str() + format(" predicate %x", m));
  compare(x, c, Pred{m, seen}, want, format("predicate %x", m), m & 1);
  x.check(seen->size() == n, "the predicate is asked once per column");
  for (size_t i = 0; i < n; ++i) { auto &e = c.cols[i]; if ((*seen)[i] != e.name + "/" + e.label + "/" + e.format + "/" + std::to_string(e.len) + "/" + ref::kind_name(ref::kind(e))) x.fail("the predicate saw " + (*seen)[i]); }
}
static void types(Ctx &x) {
  auto ls = layouts(x, 4); const Case &c = cached(x.pick(ls)); int t = int(x.choose(8));
  std::vector<size_t> want; for (size_t i = 0; i < c.cols.size(); ++i) if (t == 7 || std::string(ref::kind_name(ref::kind(c.cols[i]))) == type_name(cs::Column::Type(t))) want.push_back(i);
  std::string s = format("type %d", t); x.note(c.l.str() + " " + s);
  if (t == 7) { cf::AcceptAll a; compare(x, c, a, want, "all"); compare(x, c, cf::IncludeExclude{}, want, "empty sets"); compare(x, c, cf::Exclude{}, want, "empty exclude"); compare(x, c, cf::Include{}, {}, "empty include"); }
  else compare(x, c, ByType{t}, want, s);
}
// many columns, alike names
static void alike(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); uint32_t n = 2 + x.choose(60); Case c; c.l.f = f;
  for (uint32_t i = 0; i < n; ++i) { sg::Col k; k.name = i % 3 == 0 ? std::string(1 + i / 3, 'a') : i % 3 == 1 ? format("V%u", i) : format("v%u", i - 1); k.num = i % 2; k.len = k.num ? 8 : 5; c.cols.push_back(k); }
  c.row_length = sg::layout_columns(c.cols); for (size_t i = 0; i < 3; ++i) c.rows.push_back(make_row(f, c.cols, c.row_length, i)); c.row_count = 3;
  sg::Dataset d; d.f = f; d.cols = c.cols; d.row_length = c.row_length; auto ms = sg::meta_subs(d, 3); sg::File fl; fl.h.f = f; sg::Page m; m.subs = ms.all(); sg::Page q; q.type = sg::DATA; q.rows = c.rows; fl.pages = {m, q};
  fl.h.page_length = uint32_t((std::max(sg::page_need(f, m), sg::page_need(f, q)) + 63) / 64 * 64); c.bytes = fl.render_all(); c.h = fl.h;
  uint32_t k = x.choose(n); bool inc = x.flag(); std::vector<size_t> want; for (size_t i = 0; i < n; ++i) if ((c.cols[i].name == c.cols[k].name) == inc) want.push_back(i);
  std::string s = format("%u alike columns, %s ", n, inc ? "include" : "exclude") + c.cols[k].name; x.note(s);
  if (inc) { cf::Include g; g.included = {c.cols[k].name}; compare(x, c, std::move(g), want, s); } else { cf::IncludeExclude g; g.excluded = {c.cols[k].name}; compare(x, c, std::move(g), want, s); }
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("sets", sets);
    mc::add("near-names", near_names);
    mc::add("predicates", predicates);
    mc::add("types", types);
    mc::add("alike-names", alike);
  });
}
