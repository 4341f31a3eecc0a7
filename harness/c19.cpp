// C19: the listing of the print sink.
#include "sinks.hpp"
using namespace hx;
static const char ALPHA[] = {'{', '}', '%', '"', ',', '\n', '\\', '\xe9', 'a', '\t', ':', '\r', '$', '#'};
static std::string listing(const Bytes &file) { std::ostringstream os; { cs::Reader r(MemSource(share(file)), cppsas7bdat::datasink::print(os)); r.read_all(); } return os.str(); }
static void whole(Ctx &x, const std::string &what, const sg::Fmt &f, const std::vector<sg::Col> &cols, size_t len, const std::vector<Bytes> &rows, sg::Header h = {}, size_t per_page = 4000) {
  h.f = f; Bytes file = table_file(f, cols, len, rows, per_page, {}, h); std::string out = listing(file), head = listing_head(h, "none", "", "", rows.size(), cols);
  compare(x, what, out, head + row_lines(x, f, cols, lines_of(rows), file)); x.checked(rows.size() * cols.size());
}
// every short string; the reader strips blanks and NULs at the end
static void strings(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); size_t n = mc::thorough() ? 5 : 4, A = 12; uint32_t a = x.choose(uint32_t(A)), b = x.choose(uint32_t(A)); std::vector<sg::Col> cols{{"s", "", "$", false, uint32_t(n), 0}, {"i", "", "", true, 2, 0}, {"t", "", "$", false, uint32_t(n + 3), 0}}; size_t len = sg::layout_columns(cols); std::vector<Bytes> rows; size_t rest = 1; for (size_t k = 2; k < n; ++k) rest *= A + 1;
  for (size_t q = 0; q < rest; ++q) {
    std::string s{ALPHA[a], ALPHA[b]}; size_t v = q; bool ok = true, end = false; for (size_t k = 2; k < n; ++k, v /= A + 1) { size_t d = v % (A + 1); if (d == A) end = true; else { if (end) ok = false; s += ALPHA[d]; } } if (!ok) continue;
    Bytes r(len, ' '); r.replace(cols[0].off, s.size(), s); sg::putn(r, cols[1].off, q, 2, f.big); std::string t = s; std::reverse(t.begin(), t.end()); r.replace(cols[2].off, t.size(), t); rows.push_back(r);
  }
  x.note(format("strings %s with %02x %02x", f.str().c_str(), uint8_t(ALPHA[a]), uint8_t(ALPHA[b]))); whole(x, "strings", f, cols, len, rows); for (auto &r : rows) x.outcome(mc::hash(r));
}
// names, labels and formats with three letters of the alphabet
static void names(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); size_t A = 12; uint32_t a = x.choose(uint32_t(A)), b = x.choose(uint32_t(A)), where = x.choose(4);
  for (size_t c = 0; c < A; ++c) for (uint32_t ncol = 1; ncol <= 3; ++ncol) {
    std::vector<sg::Col> cols; std::string tail; tail += ALPHA[a]; tail += ALPHA[b]; tail += ALPHA[c];
    for (uint32_t k = 0; k < ncol; ++k) { sg::Col q; q.name = format("n%u", k); q.num = k == 1; q.len = k == 1 ? 2 : 4; std::string t = k == 0 ? "x" + tail + "y" : k == 1 ? "}" + tail + "q" : "{" + tail + "}"; if (where == 0 || where == 3) q.name = t; if (where == 1 || where == 3) q.label = t; if (where == 2 || where == 3) q.format = t; cols.push_back(q); }
    size_t len = sg::layout_columns(cols); std::vector<Bytes> rows(2, Bytes(len, 'z')); std::string w = format("%u columns, %u: ", ncol, where) + tail; x.beat(); whole(x, w, f, cols, len, rows); x.outcome(mc::hash(w));
  }
  x.note(format("names %u %u %u", a, b, where));
}
// every letter and length of the texts of the header
static void headers(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t field = x.choose(6), blk = x.choose(8); std::vector<sg::Col> cols{{"s", "", "$", false, 4, 0}}; size_t len = sg::layout_columns(cols); std::vector<Bytes> rows(1, Bytes(len, 'q'));
  auto one = [&](std::string t) {
    static const size_t M[] = {64, 8, 8, 16, 16, 16}; sg::Header h; h.platform = uint8_t("123\0"[blk % 4]); h.created = double(blk) * 1e9; h.modified = blk == 7 ? double(NAN) : 1e9 + 0.25 * blk; if (t.size() > M[field]) t.resize(M[field]);
    if (field == 0) h.dataset = t; else if (field == 1) h.ftype = t; else if (field == 2) h.release = t; else if (field == 3) h.server = t; else if (field == 4) h.os_type = t; else { h.os_name = t; h.os_name2 = "other"; }
    x.beat(); whole(x, format("header field %u '", field) + t + "'", f, cols, len, rows, h); x.outcome(mc::hash(t, field + 10 * blk));
  };
  for (int c = int(blk) * 32; c < int(blk + 1) * 32; ++c) if (c) { if (!isspace(c)) one(std::string(1, char(c)) + "b"); one("a" + std::string(1, char(c)) + "b"); one(std::string("{") + char(c) + "}"); }
  for (size_t n = blk; n <= 64; n += 8) one(std::string(n, 'x'));
  x.note(format("header field %u block %u", field, blk));
}
// compression, creators, all formats, all types: the zoo
static void creators(Ctx &x) {
  auto fs = all_formats(); sg::Fmt f = x.pick(fs); int comp = int(x.choose(3)); uint32_t cr = x.choose(4), pr = x.choose(4), set = x.choose(4), nrows = x.choose(3); static const char *T[] = {"", "SAS", "{x} %s", "DATASTEP"};
  sg::Dataset d; d.f = f; d.comp = sg::Comp(comp); d.cols = column_set(int(set)); d.row_length = sg::layout_columns(d.cols); if (comp == 0) d.creator = T[cr]; d.creator_proc = T[pr]; if (comp == 2 && pr) x.prune(); if (comp && cr) x.prune(); if (cr && pr) x.prune();
  std::vector<Bytes> rows; for (size_t i = 0; i < nrows * 2; ++i) rows.push_back(make_row(f, d.cols, d.row_length, i)); auto ms = sg::meta_subs(d, rows.size());
  sg::File fl; fl.h.f = f; sg::Page m; m.subs = ms.all(); fl.pages.push_back(m);
  if (comp == 0) { sg::Page p; p.type = sg::DATA; p.rows = rows; if (!rows.empty()) fl.pages.push_back(p); } else { sg::Page p; for (size_t i = 0; i < rows.size(); ++i) p.subs.push_back(sg::row_sub(d.comp, rows[i], i % 2)); if (!rows.empty()) fl.pages.push_back(p); }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(f, p)); fl.h.page_length = uint32_t((need + 63) / 64 * 64); Bytes file = fl.render_all();
  std::string w = f.str() + format(" %s creator '%s' proc '%s' columns %u rows %zu", comp_text(d.comp), T[cr], T[pr], set, rows.size()); x.note(w);
  std::string out = listing(file), head = listing_head(fl.h, comp_text(d.comp), T[cr], T[pr], rows.size(), d.cols); compare(x, w, out, head + row_lines(x, f, d.cols, lines_of(rows), file)); x.outcome(mc::hash(w));
}
// all kinds of columns holding anything
static void values(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t blk = x.choose(16); std::vector<sg::Col> cols; for (uint32_t w = 3; w <= 8; ++w) { cols.push_back({format("n%u", w), "", "BEST", true, w, 0}); cols.push_back({format("d%u", w), "", "DATE", true, w, 0}); cols.push_back({format("m%u", w), "", "DATETIME", true, w, 0}); cols.push_back({format("t%u", w), "", "TIME", true, w, 0}); }
  cols.push_back({"i1", "", "", true, 1, 0}); cols.push_back({"i2", "", "", true, 2, 0}); cols.push_back({"s", "", "$", false, 3, 0}); size_t len = sg::layout_columns(cols); std::vector<Bytes> rows;
  auto add = [&](double d) { Bytes r(len, '\0'); for (auto &c : cols) if (c.len >= 3 && c.num) r.replace(c.off, c.len, ref::encode_number(f, d, c.len)); sg::putn(r, cols[25].off, rows.size() * 997 + blk * 2048, 2, f.big); r[cols[24].off] = char(rows.size()); rows.push_back(r); };
  for (int e = int(blk) * 128; e < int(blk + 1) * 128; e += mc::thorough() ? 1 : 4) for (uint64_t m : {0x0ull, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull}) for (int s = 0; s < 2; ++s) { double v = sg::bitsd(uint64_t(e) << 52 | m); if (std::isnan(v)) continue; add(s ? -v : v); }
  for (int m = 0; m < 28; ++m) { uint64_t u = 0xFFFF000000000000ull; int c = m == 0 ? '.' : m == 1 ? '_' : 'A' + m - 2; u &= ~(0xffull << 40); u |= uint64_t((unsigned char)~c) << 40; add(sg::bitsd(u)); }
  for (long d = ref::first_day() + blk; d <= ref::last_day(); d += 16 * (mc::thorough() ? 101 : 977)) { add(double(d)); add(double(d) * 86400 + 12345); }
  // fractional days and halves of microseconds are left open by C07
  std::vector<Bytes> keep; for (auto &r : rows) { bool open = false; for (auto &c : cols) { if (!c.num || c.len < 3) continue; double v = sg::bitsd(ref::number_bits(f, cell(c, r))); auto k = ref::kind(c); if (k == ref::Kind::date && std::isfinite(v) && v != std::floor(v)) open = true; if ((k == ref::Kind::datetime || k == ref::Kind::time) && std::isfinite(v) && std::fabs(v) < 1e12) { double us = v * 1e6; if (us != std::floor(us)) open = true; } } if (!open) keep.push_back(r); }
  x.note(format("values %u %s (%zu rows)", blk, f.str().c_str(), keep.size())); whole(x, "values", f, cols, len, keep); for (auto &r : keep) x.outcome(mc::hash(r));
}
// ---- histories
template <class Sink> static std::vector<Line> drive(Ctx &x, const Case &c, Sink &&sink, const std::vector<Op> &ops, std::string &tr, const std::function<void(const std::vector<Line> &)> &mid) {
  std::vector<Line> rows; cs::Reader r(MemSource(share(c.bytes)), std::forward<Sink>(sink)); mid(rows); size_t pos = 0, N = c.rows.size();
  auto push = [&](size_t n) { while (n-- && pos < N) { rows.push_back({pos, &c.rows[pos]}); ++pos; } };
  for (Op o : ops) {
    tr += std::string(" ") + op_name(o);
    switch (o) {
    case Op::read_row: r.read_row(); push(1); break; case Op::rows2: r.read_rows(2); push(2); break; case Op::rows0: r.read_rows(0); break;
    case Op::skip1: r.skip(1); if (pos < N) ++pos; break; case Op::peek: if (r.read_row_no_sink()) ++pos; break; case Op::read_all: r.read_all(); push(SIZE_MAX); break; case Op::end: r.end_of_data(); break;
    case Op::move_new: { cs::Reader q(std::move(r)); r = std::move(q); } break; default: break;
    }
    x.transition(); mid(rows);
  }
  return rows;
}
static void histories(Ctx &x) {
  auto ls = zoo(x.flag() ? all_formats()[7] : all_formats()[0]); const Case &c = cached(x.pick(ls)); static const std::vector<Op> A{Op::read_row, Op::rows2, Op::skip1, Op::peek, Op::read_all, Op::end, Op::move_new, Op::rows0};
  std::vector<Op> ops; size_t depth = x.choose(mc::thorough() ? 6 : 5); for (size_t k = 0; k < depth; ++k) ops.push_back(x.pick(A));
  // after every call the stream holds exactly what was pushed so far
  std::string tr; std::ostringstream os; std::vector<size_t> lens, counts; auto rows = drive(x, c, cppsas7bdat::datasink::print(os), ops, tr, [&](auto &v) { lens.push_back(os.str().size()); counts.push_back(v.size()); });
  std::string w = c.l.str() + tr; x.note(w); std::string out = os.str(); compare(x, w, out, want_of(x, c, rows)); size_t head = listing_head(c.h, comp_text(c.l.comp), "", zoo_proc(c), c.row_count, c.cols).size();
  for (size_t k = 0; k < lens.size(); ++k) { std::vector<Line> v(rows.begin(), rows.begin() + long(counts[k])); size_t e = head + row_lines(x, c.l.f, c.cols, v, c.bytes).size(); if (lens[k] != e) x.fail(w + format(": %zu bytes after %zu calls, expected %zu", lens[k], k, e)); }
  x.outcome(mc::hash(w)); x.state(mc::hash(c.l.str(), rows.size()));
}
struct Group : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\1"; } char do_decimal_point() const override { return ','; } };
struct Forward { std::unique_ptr<cppsas7bdat::datasink::print> s; void set_properties(const cs::Properties &p) { s->set_properties(p); } void push_row(size_t i, cs::Column::PBUF p) { s->push_row(i, p); } void end_of_data() { s->end_of_data(); } };
static void targets(Ctx &x) {
  auto fs = all_formats(); auto ls = zoo(x.pick(fs)); const Case &c = cached(x.pick(ls)); uint32_t how = x.choose(6), part = x.choose(3); std::vector<Op> ops; if (part == 0) ops = {Op::read_all}; else if (part == 1) ops = {Op::read_row, Op::skip1, Op::move_new, Op::read_row, Op::end, Op::read_row}; std::string tr; namespace ds = cppsas7bdat::datasink; std::ostringstream os; auto none = [](auto &) {}; std::vector<Line> rows;
  switch (how) {
  case 0: rows = drive(x, c, ds::print(os), ops, tr, none); break;
  case 1: { ds::print s(os); rows = drive(x, c, s, ops, tr, none); } break;
  case 2: { ds::print s(os); auto t = std::move(s); rows = drive(x, c, std::move(t), ops, tr, none); } break;
  case 3: os << std::hex << std::showbase << std::scientific << std::showpos; os.precision(2); os.imbue(std::locale(std::locale(), new Group)); os.fill('*'); rows = drive(x, c, ds::print(os), ops, tr, none); break;
  case 4: rows = drive(x, c, Forward{std::make_unique<ds::print>(os)}, ops, tr, none); break;
  case 5: { // copied between the notifications
    auto s = std::make_unique<ds::print>(os); cs::Reader r(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); s->set_properties(r.properties()); size_t i = 0;
    while (auto p = r.read_row_no_sink()) { auto t = std::make_unique<ds::print>(*s); s = std::move(t); s->push_row(i, p); rows.push_back({i, &c.rows[i]}); ++i; }
    s->end_of_data();
  } break;
  }
  std::string w = c.l.str() + format(" target %u part %u", how, part); x.note(w); compare(x, w, os.str(), want_of(x, c, rows)); x.outcome(mc::hash(w));
}
// with a filter: every property still, the chosen columns
static void filters(Ctx &x) {
  auto ls = zoo(x.flag() ? all_formats()[5] : all_formats()[0]); const Case &c = cached(x.pick(ls)); std::vector<sg::Col> keep; cppsas7bdat::ColumnFilter::IncludeExclude f; bool mode = x.flag(); std::string w = c.l.str() + (mode ? " include" : " exclude"); size_t n = std::min<size_t>(c.cols.size(), 5); bool any = false; for (size_t k = 0; k < n; ++k) if (x.flag()) { any = true; w += " " + c.cols[k].name; if (mode) f.included.insert(c.cols[k].name); else f.excluded.insert(c.cols[k].name); }
  for (auto &q : c.cols) if (mode && any ? f.included.count(q.name) : !f.excluded.count(q.name)) keep.push_back(q);
  std::ostringstream os; { cs::Reader r(MemSource(share(c.bytes)), cppsas7bdat::datasink::print(os), f); r.read_all(); }
  std::string head = listing_head(c.h, comp_text(c.l.comp), "", zoo_proc(c), c.row_count, keep); std::string a = format("  column count: %zu\n", keep.size()), b = format("  column count: %zu\n", c.cols.size()); auto at = head.find(a); if (at == std::string::npos) throw mc::ToolError{"head"}; head.replace(at, a.size(), b);
  // numbers read from the unfiltered file
  std::string o; cs::Reader r2(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); cs::COLUMNS c2(r2.properties().columns);
  for (size_t i = 0; i < c.rows.size(); ++i) { auto p = r2.read_row_no_sink(); o += std::to_string(i); for (size_t k = 0; k < c.cols.size(); ++k) { bool in = false; for (auto &q : keep) in |= q.name == c.cols[k].name; if (!in) continue; std::string t; if (!cell_text(c.l.f, c.cols[k], c.rows[i], t)) t = c2[k].to_string(p); o += "," + t; } o += "\n"; }
  x.note(w); compare(x, w, os.str(), head + o); x.outcome(mc::hash(w));
}
// many rows, many columns, long texts
static void large(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); static const uint32_t lens[] = {1, 499, 500, 501, 4096, 32767}; uint32_t L = x.pick(lens), kind = x.choose(3), many = x.choose(3); std::vector<sg::Col> cols{{"s", std::string(many == 2 ? 256 : 3, '{'), "$", false, L, 0}}; for (uint32_t k = 0; k < (many == 1 ? 300u : 2u); ++k) cols.push_back({format("c%u", k), "", "", true, 1, 0}); size_t len = sg::layout_columns(cols); std::vector<Bytes> rows; size_t n = std::max<size_t>(3, std::min<size_t>(1000, 100000 / len));
  for (size_t i = 0; i < n; ++i) { Bytes r(len, char(i)); for (size_t k = 0; k < L; ++k) r[k] = kind == 0 ? 'x' : kind == 1 ? "{}%"[(k + i) % 3] : char(1 + (k * 7 + i) % 255); rows.push_back(r); }
  std::string w = format("%zu rows, string of %u, kind %u, %zu columns", n, L, kind, cols.size()); x.note(w); whole(x, w, f, cols, len, rows, {}, std::max<size_t>(1, 60000 / len)); x.outcome(mc::hash(w + f.str()));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("histories", histories);
    mc::add("targets", targets);
    mc::add("filters", filters);
    mc::add("creators", creators);
    mc::add("strings", strings);
    mc::add("names", names);
    mc::add("headers", headers);
    mc::add("values", values);
    mc::add("large", large);
  });
}
