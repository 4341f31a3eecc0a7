// C13: files cut short.
#include "ops.hpp"
#include <cppsas7bdat/source/ifstream.hpp>
using namespace hx;
// how the cut file is read
enum Mode { M_ALL, M_PEEK, M_ALT, M_ROWS, M_ONE, M_SKIP, M_N };
static const char *mode_name(int m) { static const char *n[] = {"read_all", "no-sink loop", "skip and read", "read_rows(max)", "read_row loop", "skip by two"}; return n[m]; }
struct Result { bool opened = false; size_t reached = 0; std::vector<std::pair<size_t, std::string>> rows; size_t ends = 0; bool threw = false; };
static std::vector<std::string> &column_names(const Case &c) {
  static std::map<const Case *, std::vector<std::string>> m; auto &v = m[&c];
  if (v.empty()) for (auto &k : c.cols) v.push_back(k.name + "/" + k.label + "/" + k.format + "/" + std::to_string(k.len) + "/" + ref::kind_name(ref::kind(k)));
  return v;
}
template <class Src> static void use(Ctx &x, const Case &c, size_t cut, size_t whole, int mode, Src &&src, const std::string &kind) {
  auto where = [&] { return c.l.str() + format(" cut at %zu of %zu, ", cut, c.bytes.size()) + mode_name(mode) + kind; };
  auto log = std::make_shared<Log>();
  std::unique_ptr<cs::Reader> r;
  try { r = std::make_unique<cs::Reader>(std::forward<Src>(src), RecSink(log)); }
  catch (const std::exception &) { if (cut == c.bytes.size()) x.fail(where() + ": the complete file is refused"); x.checked(); x.outcome(mc::hash(c.l.str() + format("%zu/%d refused", cut, mode) + kind)); x.state(0); return; }
  const auto &P = r->properties();
  auto &names = column_names(c);
  // opening may succeed without all of the metadata, but then there are no rows
  bool partial = P.columns.size() != names.size(); size_t ncols = std::min(P.columns.size(), names.size());
  if (partial && (whole || cut >= c.meta_end)) x.fail(where() + format(": opened with %zu of %zu columns", P.columns.size(), names.size()));
  if (P.columns.size() > names.size()) x.fail(where() + ": columns were invented");
  for (size_t i = 0; i < ncols; ++i) { auto &g = P.columns[i]; std::string s = g.name + "/" + g.label + "/" + g.format + "/" + std::to_string(g.length()) + "/" + type_name(g.type); if (s != names[i]) x.fail(where() + ": column " + s + " instead of " + names[i]); }
  if (!partial) { static std::map<const Case *, std::string> m; auto &w = m[&c]; if (w.empty()) { cs::Reader q(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); w = props_text(q.properties()); } std::string g = props_text(P); if (g != w) x.fail(where() + ": properties are " + g + " instead of " + w); }
  cs::COLUMNS cols(P.columns);
  size_t pos = 0; // rows consumed
  size_t seen = 0; bool threw = false, over = false;
  auto sync = [&] {
    for (; seen < log->ev.size(); ++seen) {
      auto &e = log->ev[seen];
      if (e.kind != 'R') continue;
      if (partial) x.fail(where() + ": a row without all columns"); if (e.index >= c.expect.size()) x.fail(where() + format(": row %zu was invented", e.index));
      if (e.index != pos) x.fail(where() + format(": row %zu came after row %zu", e.index, pos));
      if (e.row != c.expect[e.index]) x.fail(where() + format(": row %zu is ", e.index) + e.row + " instead of " + c.expect[e.index]);
      ++pos;
    }
  };
  auto peek = [&]() -> bool {
    const void *p = r->read_row_no_sink();
    if (!p) return false;
    if (partial) x.fail(where() + ": a row without all columns");
    if (pos >= c.expect.size()) x.fail(where() + format(": row %zu was invented", pos));
    std::string s = row_text(cols, p);
    if (s != c.expect[pos]) x.fail(where() + format(": row %zu is ", pos) + s + " instead of " + c.expect[pos]);
    ++pos; return true;
  };
  auto skip = [&](size_t n) -> bool { size_t b = r->current_row_index(); bool ok = r->skip(n); size_t d = r->current_row_index() - b; if (d > n || (ok && d != n)) x.fail(where() + ": skip count"); pos += d; return ok; };
  auto step = [&](int m) -> bool {
    bool more = false;
    try {
      switch (m) {
      case M_ALL: r->read_all(); more = false; break;
      case M_PEEK: more = peek(); break;
      case M_ALT: more = pos % 2 ? skip(1) : r->read_row(); break;
      case M_ROWS: more = r->read_rows(SIZE_MAX); if (more) x.fail(where() + ": endless rows"); break;
      case M_ONE: more = r->read_row(); break;
      case M_SKIP: more = skip(2); break;
      }
    } catch (const std::exception &) { threw = true; sync(); return false; }
    sync();
    if (r->current_row_index() != pos) x.fail(where() + format(": current_row_index is %zu after %zu rows", r->current_row_index(), pos));
    if (pos > c.expect.size()) x.fail(where() + ": more rows than stored");
    return more;
  };
  size_t steps = 0; while (step(mode)) if (++steps > 1000) x.fail(where() + ": never ends");
  over = true; (void)over;
  size_t at_end = pos;
  if (!threw && at_end < whole) x.fail(where() + format(": ended after %zu rows, the complete pages hold %zu", at_end, whole));
  if (threw && at_end < whole) x.fail(where() + format(": raised after %zu rows, the complete pages hold %zu", at_end, whole));
  // further calls stay safe, and deliver nothing that is wrong
  for (int m : {M_ONE, M_PEEK, M_SKIP, M_ROWS, M_ALL}) { size_t before = pos; bool t = threw; step(m); (void)t; if (pos < before) x.fail(where() + ": rows were taken back"); }
  if (cut == c.bytes.size() && (pos != c.rows.size() || threw)) x.fail(where() + ": the complete file is not read completely");
  x.checked(pos + 2); x.state(mc::combine(mc::hash(c.l.str()), pos + 1));
  x.outcome(mc::hash(c.l.str() + format("%zu/%d", cut, mode) + kind));
}
static size_t complete_rows(const Case &c, size_t cut) {
  size_t h = c.h.header_length, pl = c.h.page_length;
  if (cut < h + pl) return 0;
  size_t pages = (cut - h) / pl, n = 0;
  for (size_t k = 0; k < pages && k < c.row_page_end.size(); ++k) n = c.row_page_end[k];
  return n;
}
static void cuts(Ctx &x, int modes, uint32_t fmts) {
  sg::Fmt f = x.pick(all_formats().size() > fmts ? std::vector<sg::Fmt>{all_formats()[0], all_formats()[7]} : all_formats());
  auto ls = zoo(f); const Case &c = cached(x.pick(ls)); int mode = int(x.choose(uint32_t(modes)));
  // cuts in blocks, so that one execution handles several
  const uint32_t B = 64; uint32_t blocks = uint32_t((c.bytes.size() + 1 + B - 1) / B), b = x.choose(blocks);
  x.note(c.l.str() + format(" cuts %u..%u ", b * B, b * B + B - 1) + mode_name(mode));
  for (size_t cut = size_t(b) * B; cut < size_t(b + 1) * B && cut <= c.bytes.size(); ++cut) {
    use(x, c, cut, complete_rows(c, cut), mode, MemSource(share(c.bytes.substr(0, cut))), "");
    x.transition();
  }
}
// files on disk, through the library's own file source
static std::string &scratch() { static std::string d; return d; }
static void disk(Ctx &x) {
  auto fs = all_formats(); sg::Fmt f = x.flag() ? fs[7] : fs[0]; auto ls = zoo(f); const Case &c = cached(x.pick(ls)); int mode = int(x.choose(3)) * 2;
  uint32_t b = x.choose(8); // eighths of the file
  std::string path = scratch() + format("/f%d", int(getpid()));
  FILE *o = fopen(path.c_str(), "wb"); if (!o || fwrite(c.bytes.data(), 1, c.bytes.size(), o) != c.bytes.size() || fclose(o)) throw mc::ToolError{"scratch file"};
  size_t lo = c.bytes.size() * b / 8, hi = b == 7 ? c.bytes.size() : c.bytes.size() * (b + 1) / 8, stride = mc::thorough() ? 1 : 3;
  x.note(c.l.str() + format(" file cut %zu..%zu ", lo, hi) + mode_name(mode));
  // the boundaries of the pages and the ends are always among the cuts
  std::set<size_t> cs_; for (size_t k = hi; k + 1 > lo + 1; k = k > stride ? k - stride : 0) { cs_.insert(k); if (!k) break; }
  for (size_t p = c.h.header_length; p <= c.bytes.size(); p += c.h.page_length) for (long d = -1; d <= 1; ++d) if (long(p) + d >= long(lo) && size_t(long(p) + d) <= hi) cs_.insert(size_t(long(p) + d));
  if (b == 0) cs_.insert(0);
  for (auto i = cs_.rbegin(); i != cs_.rend(); ++i) {
    if (truncate(path.c_str(), long(*i))) throw mc::ToolError{"truncate"};
    use(x, c, *i, complete_rows(c, *i), mode, cppsas7bdat::datasource::ifstream(path.c_str()), " from a file");
    x.transition();
  }
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  quiet();
  char t[] = "/tmp/c13-XXXXXX"; if (!mkdtemp(t)) return 2; scratch() = t;
  int rc = mc::main_(argc, argv, [] {
    mc::add("every-cut", [](Ctx &x) { cuts(x, mc::thorough() ? int(M_N) : 4, mc::thorough() ? 8 : 2); });
    mc::add("files", disk);
  });
  rmdir(t);
  return rc;
}
