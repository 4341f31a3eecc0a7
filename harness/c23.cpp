// C23: files are streamed.
#include "alloc.hpp"
#include "sinks.hpp"
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
using namespace hx;
// ---- how far the source is read
struct Tape { size_t pos = 0; long reads = 0, eofs = 0, late = 0; bool told = false; };
struct TapeSource {
  Data data; Tape *t; bool at_eof = false;
  TapeSource(Data d, Tape *t_) : data(std::move(d)), t(t_) {}
  bool eof() { ++t->eofs; if (at_eof) t->told = true; return at_eof; }
  bool read_bytes(void *p, const size_t n) {
    ++t->reads; if (t->told) ++t->late;
    size_t k = at_eof ? 0 : std::min(n, data->size() - t->pos);
    if (k) memcpy(p, data->data() + t->pos, k);
    t->pos += k; if (k < n) { at_eof = t->told = true; return false; }
    return true;
  }
};
// the end of the page that stores row k
static size_t page_end(const Case &c, size_t k) { size_t i = 0; while (c.row_page_end.at(i) <= k) ++i; return c.h.header_length + (i + 1) * c.h.page_length; }
static std::vector<Layout> layouts(const sg::Fmt &f) {
  using C = sg::Comp; auto v = zoo(f);
  auto add = [&](std::function<void(Layout &)> g) { Layout l; l.f = f; g(l); v.push_back(l); };
  add([](Layout &l) { l.pages = {{'D', 2}, {'D', 1}, {'E', 0}, {'E', 0}, {'u', 0}}; });                                     // pages after the last row
  add([](Layout &l) { l.mix = true; l.mix_rows = 1; l.pages = {{'D', 1}, {'D', 2}, {'D', 2}}; l.surplus = 3; l.cols = 1; }); // pages of rows that are not declared
  add([](Layout &l) { l.comp = C::rle; l.meta_rows = 1; l.pages = {{'M', 2}, {'M', 1}, {'M', 2}, {'m', 0}}; l.surplus = 2; l.cols = 3; });
  add([](Layout &l) { l.comp = C::rdc; l.split = 1; l.pages = {{'E', 0}, {'M', 1}, {'E', 0}, {'M', 1}, {'E', 0}}; l.header_length = 4096; });
  add([](Layout &l) { l.pages = {{'D', 1}, {'D', 1}, {'D', 1}, {'D', 1}}; l.missing = 2; l.cols = 1; });
  return v;
}
static const Case &pick_case(Ctx &x, size_t nfmt) { auto fs = all_formats(); const auto &f = fs[(x.choose(uint32_t(nfmt)) * 5) % fs.size()]; auto ls = layouts(f); return cached(x.pick(ls)); }
static void position(Ctx &x, const std::vector<Op> &alphabet, size_t depth, size_t nfmt) {
  const Case &c = pick_case(x, nfmt); Tape t; bool ended = false;
  {
    Driver d(x, c, true, [&](std::shared_ptr<Log> log) { return std::make_unique<cs::Reader>(TapeSource(share(c.bytes), &t), RecSink(log)); });
    auto bad = [&](const std::string &s) { x.fail(d.where() + ": " + s); };
    size_t floor = c.rows.empty() ? c.bytes.size() : page_end(c, 0);
    auto judge = [&] {
      size_t limit = d.m.pos ? std::max(floor, page_end(c, d.m.pos - 1)) : floor; if (ended && c.l.missing) limit = c.bytes.size();
      if (t.pos > limit) bad(format("%zu bytes were read from the source, %zu suffice for the %zu rows asked for so far", t.pos, limit, d.m.pos));
      if (t.late) bad("the source was asked for more after it had reported its end");
      x.checked(2); x.state(mc::combine(mc::hash(c.l.str(), d.m.pos), t.pos * 2 + ended));
    };
    judge();
    for (size_t k = 0; k < depth; ++k) {
      Op o = x.pick(alphabet); size_t before = d.m.pos, ends = d.m.ev.size(); long reads = t.reads; bool done = ended || (!c.l.missing && before == d.m.N());
      d.step(o);
      for (size_t i = ends; i < d.m.ev.size(); ++i) if (d.m.ev[i].kind == 'E' && o != Op::end) ended = true;
      if (o == Op::peek && before == d.m.N()) ended = true;
      judge();
      bool idle = o == Op::rows0 || o == Op::skip0 || o == Op::move_new || o == Op::move_assign || o == Op::end;
      if (t.reads != reads && (idle || done)) bad(format("%s read from the source", op_name(o)) + (idle ? " though it asks for no row" : " though there is no further row"));
    }
    d.check_held(); d.held = nullptr; x.note(d.where()); x.outcome(mc::hash(d.where()));
    long r0 = t.reads, e0 = t.eofs; d.r.reset(); if (t.reads != r0 || t.eofs != e0) bad("the source was used while the reader was destroyed");
  }
}
// ---- memory
struct FileSource { const Bytes *d; size_t pos = 0; bool at_eof = false; explicit FileSource(const Bytes *b) : d(b) {}
  bool eof() { return at_eof; }
  bool read_bytes(void *p, size_t n) { size_t k = at_eof ? 0 : std::min(n, d->size() - pos); if (k) memcpy(p, d->data() + pos, k); pos += k; if (k < n) { at_eof = true; return false; } return true; } };
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
static size_t g_used; // keeps the values alive
static void use(const cs::Column &c, cs::Column::PBUF p) { g_used += c.to_string(p).size() + c.get_string(p).size() + size_t(c.get_integer(p)) + std::isnan(c.get_number(p)) + c.get_date(p).is_special() + c.get_datetime(p).is_special() + c.get_time(p).is_special(); }
struct UseSink { cs::COLUMNS cols; void set_properties(const cs::Properties &p) { cols = cs::COLUMNS(p.columns); } void push_row(size_t, cs::Column::PBUF p) { for (auto &c : cols) use(c, p); } void end_of_data() {} };
enum class K { row, rows2, rows3, skip1, skip2, peek, move_new, move_assign, end, props, N };
static const char *k_name(K k) { static const char *n[] = {"read_row", "read_rows(2)", "read_rows(3)", "skip(1)", "skip(2)", "read_row_no_sink", "move", "move-assign", "end_of_data", "properties"}; return n[int(k)]; }
static const char *sink_name(int s) { static const char *n[] = {"own sink", "csv", "print", "null"}; return n[s]; }
// the most memory the library holds while the cycle of calls is repeated until the data end
static long peak(Ctx &x, const Case &c, const std::vector<K> &cycle, int sink, const std::function<std::string()> &what, size_t steps = 0) {
  static NullBuf nb; static std::ostream null(&nb);
  long base = mem::bytes; mem::peak = base; size_t rows = 0;
  {
    std::unique_ptr<cs::Reader> r;
    switch (sink) {
    case 0: r.reset(new cs::Reader(FileSource(&c.bytes), UseSink())); break;
    case 1: r.reset(new cs::Reader(FileSource(&c.bytes), cs::datasink::csv(null))); break;
    case 2: r.reset(new cs::Reader(FileSource(&c.bytes), cs::datasink::print(null))); break;
    default: r.reset(new cs::Reader(FileSource(&c.bytes), cs::datasink::null())); break;
    }
    cs::COLUMNS cols(r->properties().columns);
    if (!steps) steps = 2 * c.rows.size() + 4;
    for (size_t k = 0; k < steps; ++k) {
      for (auto o : cycle) switch (o) {
        case K::row: r->read_row(); break;
        case K::rows2: r->read_rows(2); break;
        case K::rows3: r->read_rows(3); break;
        case K::skip1: r->skip(1); break;
        case K::skip2: r->skip(2); break;
        case K::peek: if (auto p = r->read_row_no_sink()) for (auto &q : cols) use(q, p); break;
        case K::move_new: { std::unique_ptr<cs::Reader> q(new cs::Reader(std::move(*r))); r = std::move(q); } break;
        case K::move_assign: { std::unique_ptr<cs::Reader> q(new cs::Reader()); *q = std::move(*r); r = std::move(q); } break;
        case K::end: r->end_of_data(); break;
        case K::props: { cs::Properties copy(r->properties()); g_used += copy.columns.size(); } break;
        case K::N: break;
        }
      if (r->current_row_index() == c.rows.size()) { if (rows++ > 2) break; }
    }
    rows = r->current_row_index();
  }
  if (mem::bytes != base) x.fail(what() + format(": %ld bytes were not released", mem::bytes - base));
  for (auto o : cycle) if (o < K::move_new && rows != c.rows.size()) x.fail(what() + format(": %zu of %zu rows were read", rows, c.rows.size()));
  return mem::peak - base;
}
static constexpr long SLACK = 1024;
// n times the same pages
static Layout shape(const sg::Fmt &f, uint32_t kind, size_t n) {
  using C = sg::Comp; Layout l; l.f = f; std::vector<PSpec> unit;
  switch (kind) {
  case 0: unit = {{'D', 3}}; break;
  case 1: l.mix = true; l.mix_rows = 2; l.split = 1; unit = {{'D', 2}, {'E', 0}}; l.cols = 2; break;
  case 2: l.comp = C::rle; l.meta_rows = 2; unit = {{'M', 3}}; break;
  case 3: l.comp = C::rdc; l.meta_rows = 1; unit = {{'M', 2}, {'m', 0}}; l.cols = 2; break;
  case 4: l.comp = C::rle; l.split = 2; unit = {{'M', 2, true}, {'D', 1}, {'u', 0}}; break;
  case 5: unit = {{'D', 1}, {'A', 0}, {'D', 0}, {'m', 0}}; l.cols = 3; break;
  case 6: l.comp = C::rdc; unit = {{'M', 1}, {'M', 3, true}, {'M', 2}}; l.header_length = 8192; break;
  }
  for (size_t i = 0; i < n; ++i) for (auto &u : unit) l.pages.push_back(u);
  return l;
}
static const Case &shaped(const sg::Fmt &f, uint32_t kind, size_t n) {
  static std::map<std::string, Case> m; std::string k = f.str() + format("/%u/%zu", kind, n); auto i = m.find(k); if (i == m.end()) i = m.emplace(k, build(shape(f, kind, n))).first; return i->second;
}
static void growth(Ctx &x, size_t len, size_t small, size_t big, size_t nfmt) {
  auto fs = all_formats(); const auto &f = fs[(x.choose(uint32_t(nfmt)) * 5) % fs.size()]; uint32_t kind = x.choose(7); int sink = int(x.choose(4));
  size_t n = x.choose(uint32_t(len)) + 1; std::vector<K> cycle; for (size_t i = 0; i < n; ++i) cycle.push_back(K(x.choose(uint32_t(K::N))));
  const Case &a = shaped(f, kind, small), &b = shaped(f, kind, big);
  auto what = [&] { std::string s = f.str() + format("/pages %u, ", kind) + sink_name(sink) + ","; for (auto k : cycle) s += std::string(" ") + k_name(k); return s; };
  static bool warm = false; if (!warm) { for (int s = 0; s < 4; ++s) peak(x, a, {K::row, K::peek, K::props}, s, what); warm = true; }
  bool idle = true; for (auto k : cycle) idle = idle && k >= K::move_new;
  long p = peak(x, a, cycle, sink, what, idle ? small : 0), q = peak(x, b, cycle, sink, what, idle ? big : 0);
  if (q > p + SLACK) x.fail(what() + format(": reading %zu rows takes up to %ld bytes of memory, reading %zu rows %ld", a.rows.size(), p, b.rows.size(), q));
  x.note(what() + format(": %ld and %ld bytes", p, q)); x.outcome(mc::hash(what())); x.state(mc::combine(mc::hash(what()), uint64_t(p))); x.transition(); x.transition(); x.checked(3);
}
// what a file declares takes no memory by itself
static void declared(Ctx &x, size_t nfmt) {
  auto fs = all_formats(); const auto &f = fs[(x.choose(uint32_t(nfmt)) * 5) % fs.size()]; uint32_t kind = x.choose(7), field = x.choose(2); int bit = 4 + int(x.choose(27)), sink = int(x.choose(4)); uint32_t how = x.choose(3);
  Layout l = shape(f, kind, 2); Case a = build(l); size_t v = (size_t(1) << bit) - (field ? 0 : a.rows.size());
  Case b = a; l.missing = field ? 0 : v; if (field == 0) b = build(l); else sg::put32(f, b.bytes, 204 + f.align1(), uint32_t(v));
  auto what = [&] { return f.str() + format("/pages %u, ", kind) + sink_name(sink) + format(", %s declared to be 2^%d, way %u", field ? "pages" : "rows", bit, how); };
  std::vector<K> cycle = how == 0 ? std::vector<K>{K::row} : how == 1 ? std::vector<K>{K::skip1, K::peek} : std::vector<K>{K::rows3, K::props};
  peak(x, a, cycle, sink, what); long p = peak(x, a, cycle, sink, what), q = peak(x, b, cycle, sink, what);
  if (q > p + SLACK) x.fail(what() + format(": %ld bytes of memory instead of %ld", q, p));
  x.note(what() + format(": %ld and %ld bytes", p, q)); x.outcome(mc::hash(what())); x.state(mc::hash(what())); x.transition(); x.checked(3);
}
// ---- what was handed over
static long g_src, g_snk;
struct OwnSource { Bytes const *d; size_t pos = 0; bool at_eof = false, here = true;
  explicit OwnSource(const Bytes *b) : d(b) { ++g_src; } OwnSource(OwnSource &&o) noexcept : d(o.d), pos(o.pos), at_eof(o.at_eof), here(o.here) { ++g_src; o.here = false; } OwnSource(const OwnSource &) = delete; OwnSource &operator=(const OwnSource &) = delete; ~OwnSource() { --g_src; }
  bool eof() { return at_eof; }
  bool read_bytes(void *p, size_t n) { if (!here) return false; size_t k = at_eof ? 0 : std::min(n, d->size() - pos); if (k) memcpy(p, d->data() + pos, k); pos += k; if (k < n) { at_eof = true; return false; } return true; } };
struct OwnSink { std::shared_ptr<std::vector<size_t>> got; size_t mine = 0;
  explicit OwnSink(std::shared_ptr<std::vector<size_t>> g) : got(std::move(g)) { ++g_snk; } OwnSink(OwnSink &&o) noexcept : got(o.got), mine(o.mine) { ++g_snk; } OwnSink(const OwnSink &) = delete; OwnSink &operator=(const OwnSink &) = delete; ~OwnSink() { --g_snk; }
  void set_properties(const cs::Properties &) {} void push_row(size_t i, cs::Column::PBUF) { got->push_back(i); ++mine; } void end_of_data() {} };
static int open_files() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static void ownership(Ctx &x, size_t depth) {
  const Case &c = cached(zoo(all_formats()[x.choose(2) * 5])[x.pick(std::vector<size_t>{0, 4})]); static std::string file, bad; static std::string bad_bytes;
  if (file.empty()) { file = format("/tmp/c23-%d-", int(getpid())); atexit([] { for (auto s : {"0", "1", "bad"}) unlink((file + s).c_str()); }); }
  std::string path = file + (c.l.comp == sg::Comp::none ? "0" : "1"); bad = file + "bad";
  { std::ofstream o(path, std::ios::binary); o << c.bytes; } bad_bytes = c.bytes; bad_bytes[20] ^= 1; { std::ofstream o(bad, std::ios::binary); o << bad_bytes; }
  struct Slot { std::unique_ptr<cs::Reader> r; int kind = 0; size_t pos = 0; std::shared_ptr<std::vector<size_t>> got; std::unique_ptr<OwnSource> src; std::unique_ptr<OwnSink> snk; };
  long src0 = g_src, snk0 = g_snk; int fd0 = open_files(); std::string tr; enum { EMPTY, OWNED, LENT, FILE_ };
  {
    Slot s[2];
    for (size_t k = 0; k < depth; ++k) {
      uint32_t a = x.choose(20), i = a / 10; Slot &u = s[i], &v = s[1 - i]; tr += format(" %c:", 'A' + int(i)); x.transition();
      switch (a % 10) {
      case 0: case 1: case 2: // opening; an open reader is replaced
        { int kind = OWNED + int(a % 10); auto got = std::make_shared<std::vector<size_t>>(); std::unique_ptr<OwnSource> src; std::unique_ptr<OwnSink> snk; std::unique_ptr<cs::Reader> r;
          if (kind == OWNED) r.reset(new cs::Reader(OwnSource(&c.bytes), OwnSink(got)));
          else if (kind == LENT) { src.reset(new OwnSource(&c.bytes)); snk.reset(new OwnSink(got)); r.reset(new cs::Reader(*src, *snk)); }
          else r.reset(new cs::Reader(cs::datasource::ifstream(path.c_str()), OwnSink(got)));
          tr += kind == OWNED ? "open" : kind == LENT ? "open by reference" : "open file";
          u.r.reset(); u.r = std::move(r); u.kind = kind; u.pos = 0; u.got = got; u.src = std::move(src); u.snk = std::move(snk); } break;
      case 3: tr += "refused"; try { cs::Reader r(OwnSource(&bad_bytes), OwnSink(nullptr)); x.fail(tr + ": opened"); } catch (const mc::Violation &) { throw; } catch (const std::exception &) {} break;
      case 4: tr += "refused file"; try { cs::Reader r(cs::datasource::ifstream(bad.c_str()), OwnSink(nullptr)); x.fail(tr + ": opened"); } catch (const mc::Violation &) { throw; } catch (const std::exception &) {} break;
      case 5: if (!u.r) x.prune(); tr += "destroy"; u.r.reset(); u = Slot(); break;
      case 6: if (!u.r) x.prune(); tr += "assigned to the other"; // which is replaced, if it is open
        if (!v.r) v.r.reset(new cs::Reader()); *v.r = std::move(*u.r); v.kind = u.kind; v.pos = u.pos; v.got = u.got; v.src = std::move(u.src); v.snk = std::move(u.snk); u = Slot(); break;
      case 7: if (!u.r) x.prune(); tr += "assigned nothing"; *u.r = cs::Reader(); if (u.r->read_row()) x.fail(tr + ": still reads"); u = Slot(); break;
      case 8: if (!u.r) x.prune(); tr += "read_row"; if (u.r->read_row() != (u.pos < c.rows.size())) x.fail(c.l.str() + tr + ": read_row"); if (u.pos < c.rows.size()) ++u.pos; break;
      case 9: if (!u.r) x.prune(); tr += "read_all"; u.r->read_all(); u.pos = c.rows.size(); break;
      }
      long own = 0, lent = 0, files = 0, from_file = 0;
      for (auto &w : s) if (w.r) { own += w.kind == OWNED; lent += w.kind == LENT; files += w.kind == FILE_; from_file += w.kind == FILE_;
        if (w.r->current_row_index() != w.pos || w.got->size() != w.pos) x.fail(c.l.str() + tr + format(": %zu rows reached the sink, expected %zu", w.got->size(), w.pos));
        if (w.kind == LENT && (w.snk->mine != w.pos)) x.fail(c.l.str() + tr + ": a sink passed by reference was not the one used"); }
      if (g_src - src0 != own + lent) x.fail(c.l.str() + tr + format(": %ld sources exist, expected %ld", g_src - src0, own + lent));
      if (g_snk - snk0 != own + lent + from_file) x.fail(c.l.str() + tr + format(": %ld sinks exist, expected %ld", g_snk - snk0, own + lent + from_file));
      if (open_files() != fd0 + files) x.fail(c.l.str() + tr + format(": %d files are open, expected %ld", open_files() - fd0, files));
      x.checked(4); x.state(mc::combine(mc::hash(c.l.str()), uint64_t(s[0].kind * 1000 + s[1].kind * 100 + (s[0].pos + 1) * 10 + s[1].pos)));
    }
  }
  if (g_src != src0 || g_snk != snk0 || open_files() != fd0) x.fail(c.l.str() + tr + ": something was not released");
  x.note(c.l.str() + tr); x.outcome(mc::hash(c.l.str() + tr));
}
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  return mc::main_(argc, argv, [] {
    static const std::vector<Op> all = {Op::read_row, Op::rows0, Op::rows2, Op::rows_all, Op::skip0, Op::skip1, Op::skip2, Op::skip_all, Op::peek, Op::read_all, Op::move_new, Op::move_assign, Op::end};
    static const std::vector<Op> core = {Op::read_row, Op::skip1, Op::peek, Op::rows3};
    bool t = mc::thorough();
    mc::add("positions", [=](Ctx &x) { position(x, all, t ? 4 : 3, t ? 8 : 4); });
    mc::add("positions-long", [=](Ctx &x) { position(x, core, t ? 8 : 6, t ? 4 : 2); });
    mc::add("memory", [=](Ctx &x) { growth(x, t ? 3 : 2, 6, t ? 150 : 120, t ? 8 : 2); });
    mc::add("declared", [=](Ctx &x) { declared(x, t ? 8 : 2); });
    mc::add("ownership", [=](Ctx &x) { ownership(x, t ? 4 : 3); });
  });
}
