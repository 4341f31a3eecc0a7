// C16: exceptions from sinks, filters and memory.
#include "alloc.hpp"
#include "ops.hpp"
#include <sys/wait.h>
using namespace hx;
struct SinkError { int id; };
struct SinkFault : std::runtime_error { int id; explicit SinkFault(int i) : runtime_error("sink"), id(i) {} };
struct FilterError { int id; };
static long g_sinks, g_filters, g_sources; // living objects
struct Ctl {
  int sink_at = -1, sink_at2 = -1, filter_at = -1; bool sink_std = false; // indices of the callbacks that throw
  int sinks = 0, filters = 0, thrown = 0; std::vector<Event> ev; cs::COLUMNS cols; bool keep = true;
};
struct ThrowSink {
  Ctl *c; explicit ThrowSink(Ctl *c_) : c(c_) { ++g_sinks; } ThrowSink(ThrowSink &&o) noexcept : c(o.c) { ++g_sinks; } ThrowSink(const ThrowSink &) = delete; ~ThrowSink() { --g_sinks; }
  void tick() { int k = c->sinks++; if (k == c->sink_at || k == c->sink_at2) { ++c->thrown; if (c->sink_std) throw SinkFault(c->thrown); throw SinkError{c->thrown}; } }
  void set_properties(const cs::Properties &p) { mem::Arm a(false); c->cols = cs::COLUMNS(p.columns); tick(); }
  void push_row(size_t i, cs::Column::PBUF p) { mem::Arm a(false); c->ev.push_back({'R', i, row_text(c->cols, p)}); tick(); }
  void end_of_data() { mem::Arm a(false); c->ev.push_back({'E', 0, {}}); tick(); }
};
struct ThrowFilter {
  Ctl *c; explicit ThrowFilter(Ctl *c_) : c(c_) { ++g_filters; } ThrowFilter(ThrowFilter &&o) noexcept : c(o.c) { ++g_filters; } ThrowFilter(const ThrowFilter &) = delete; ~ThrowFilter() { --g_filters; }
  bool accept(const cs::Column &) const { mem::Arm a(false); if (c->filters++ == c->filter_at) { ++c->thrown; throw FilterError{c->thrown}; } return true; }
};
struct CountSource { // data without a shared owner, so that nothing but the library allocates
  const Bytes *d; size_t pos = 0; bool at_eof = false; explicit CountSource(const Bytes *b) : d(b) { ++g_sources; } CountSource(CountSource &&o) noexcept : d(o.d), pos(o.pos), at_eof(o.at_eof) { ++g_sources; } CountSource(const CountSource &) = delete; ~CountSource() { --g_sources; }
  bool eof() { return at_eof; }
  bool read_bytes(void *p, size_t n) { size_t k = at_eof ? 0 : std::min(n, d->size() - pos); if (k) memcpy(p, d->data() + pos, k); pos += k; if (k < n) { at_eof = true; return false; } return true; }
};
enum Hist { H_ROW, H_PEEK, H_ALL, H_ROWS2, H_MIX, H_SKIP, NH };
static const char *hist_name(int h) { static const char *n[] = {"read_row", "read_row_no_sink", "read_all", "read_rows(2)", "all kinds", "skip and read"}; return n[h]; }
struct Plan { int sink_at = -1, sink_at2 = -1, filter_at = -1; bool sink_std = false; long a1 = -1, a2 = -1, from = -1;
  std::string str() const { std::string s; if (sink_at >= 0) s += format(" sink callback %d%s throws", sink_at, sink_at2 >= 0 ? format(" and %d", sink_at2).c_str() : ""); if (filter_at >= 0) s += format(" filter call %d throws", filter_at); if (a1 >= 0) s += format(" allocation %ld fails", a1); if (a2 >= 0) s += format(" and %ld fails", a2); if (from >= 0) s += format(" allocations from %ld on fail", from); return s; } };
struct Counts { int sinks = 0, filters = 0; long allocs = 0; };
static long g_pauses = 0;
static Counts run(Ctx &x, const Case &c, const Plan &pl, int hist) {
  auto where = [&] { return c.l.str() + ", " + hist_name(hist) + pl.str(); };
  Counts out; std::string bad; long live0, obj0 = g_sinks + g_filters + g_sources;
  Ctl ctl; ctl.sink_at = pl.sink_at; ctl.sink_at2 = pl.sink_at2; ctl.filter_at = pl.filter_at; ctl.sink_std = pl.sink_std; ctl.ev.reserve(256);
  mem::seen = 0; mem::failed = 0; mem::fail_at = pl.a1; mem::fail_at2 = pl.a2; mem::fail_from = pl.from;
  struct Off { ~Off() { mem::fail_at = mem::fail_at2 = mem::fail_from = -1; mem::armed = false; } } off;
  size_t pos = 0, seen = 0; bool oom = false;
  auto guarded = [&](const char *what, auto &&fn) {
    int t0 = ctl.thrown; long f0 = mem::failed; bool ex = false, own = false, alloc = false; std::string m;
    try { mem::Arm a(true); fn(); }
    catch (const SinkError &e) { ex = own = true; if (e.id != ctl.thrown || ctl.sink_std) x.fail(where() + ": an old exception came out of " + what); }
    catch (const SinkFault &e) { ex = own = true; if (e.id != ctl.thrown || !ctl.sink_std) x.fail(where() + ": an old exception came out of " + what); }
    catch (const FilterError &e) { ex = own = true; if (e.id != ctl.thrown) x.fail(where() + ": an old exception came out of " + what); }
    catch (const mc::Violation &) { throw; } catch (const mc::ToolError &) { throw; }
    catch (const std::bad_alloc &) { ex = alloc = true; }
    catch (const std::exception &e) { ex = true; m = e.what(); }
    if (ctl.thrown != t0 && !own) x.fail(where() + format(": the exception thrown during %s ", what) + (ex ? "was replaced by another: " + m : "was swallowed"));
    if (mem::failed != f0 && !alloc) x.fail(where() + format(": the allocation failure during %s ", what) + (ex ? "became another exception: " + m : "was swallowed"));
    if (ex && ctl.thrown == t0 && mem::failed == f0 && !oom) x.fail(where() + format(": %s raised without a reason: ", what) + m);
    if (alloc) oom = true;
    return ex;
  };
  {
    live0 = mem::live;
    std::unique_ptr<cs::Reader> r; bool partial = false; // allocations of the harness itself: this box, disarmed
    bool refused;
    { void *box = nullptr; refused = guarded("opening", [&] { mem::Arm a(false); box = operator new(sizeof(cs::Reader)); mem::Arm b(true); try { new (box) cs::Reader(CountSource(&c.bytes), ThrowSink(&ctl), ThrowFilter(&ctl)); } catch (...) { operator delete(box); throw; } r.reset(static_cast<cs::Reader *>(box)); }); }
    x.transition();
    if (!refused) {
      if (ctl.cols.size() != c.cols.size()) x.fail(where() + ": columns are missing");
      auto sync = [&] { for (; seen < ctl.ev.size(); ++seen) { auto &e = ctl.ev[seen]; if (e.kind != 'R') continue; if (partial || e.index >= c.expect.size()) x.fail(where() + format(": row %zu was invented", e.index)); if (e.index != pos) x.fail(where() + format(": row %zu was delivered when row %zu was due", e.index, pos)); if (e.row != c.expect[pos]) x.fail(where() + format(": row %zu is ", pos) + e.row + " instead of " + c.expect[pos]); ++pos; } };
      int idle = 0; size_t steps = 0;
      while (idle < 5) {
        if (++steps > 200) x.fail(where() + ": never ends");
        int op = hist; if (hist == H_MIX) { static const int seq[] = {H_ROW, H_PEEK, H_SKIP, H_ROWS2, H_PEEK, H_ALL}; op = seq[steps % 6]; } else if (hist == H_SKIP) op = steps % 2 ? H_SKIP : H_ROW;
        size_t before = pos; const void *p = nullptr; bool more = false;
        bool ex = guarded(op == H_SKIP ? "skip" : hist_name(op), [&] {
          switch (op) { case H_ROW: more = r->read_row(); break; case H_PEEK: p = r->read_row_no_sink(); break; case H_ALL: r->read_all(); break; case H_ROWS2: more = r->read_rows(2); break; case H_SKIP: more = r->skip(1); break; }
        });
        sync();
        if (p) { if (pos >= c.expect.size()) x.fail(where() + ": a row was invented"); std::string s = row_text(ctl.cols, p); if (s != c.expect[pos]) x.fail(where() + format(": row %zu is ", pos) + s + " instead of " + c.expect[pos]); ++pos; }
        size_t cur = r->current_row_index();
        if (op == H_SKIP || oom) { if (cur < pos || cur > c.expect.size()) x.fail(where() + format(": current_row_index is %zu after %zu rows", cur, pos)); pos = cur; }
        else if (cur != pos) x.fail(where() + format(": current_row_index is %zu after %zu rows", cur, pos));
        idle = pos == before && !ex ? idle + 1 : 0;
        x.transition(); x.state(mc::combine(mc::hash(c.l.str(), pos), ex * 2 + more));
      }
      if (!oom && pos != c.expect.size()) x.fail(where() + format(": only %zu of %zu rows came", pos, c.expect.size()));
      { mem::Arm a(true); r.reset(); }
    }
    if (g_sinks + g_filters + g_sources != obj0) x.fail(where() + format(": objects are leaked or destroyed twice (%ld left)", g_sinks + g_filters + g_sources - obj0));
  }
  out = {ctl.sinks, ctl.filters, mem::seen};
  // what the harness keeps is released here, so that only leaks remain
  mem::armed = false; (void)bad;
  size_t nev = ctl.ev.size();
  ctl.ev = std::vector<Event>(); ctl.cols = cs::COLUMNS();
  if (mem::live != live0 - 1) x.fail(where() + format(": %ld allocations were not released", mem::live - (live0 - 1)));
  x.checked(nev + 3);
  return out;
}
static Counts dry(Ctx &x, const Case &c, int hist) {
  static std::map<std::pair<const Case *, int>, Counts> m; auto k = std::make_pair(&c, hist); auto i = m.find(k); if (i != m.end()) return i->second;
  run(x, c, {}, hist); // twice: whatever is set up on first use is there for the second
  Counts r = run(x, c, {}, hist); m[k] = r; return r;
}
static const Case &layout(Ctx &x, uint32_t nf) { auto fs = all_formats(); sg::Fmt f = nf >= 8 ? x.pick(fs) : x.pick(std::vector<sg::Fmt>{fs[0], fs[7]}); auto ls = zoo(f); return cached(x.pick(ls)); }
static void go(Ctx &x, const Case &c, const Plan &p, int h) { std::string s = c.l.str() + format(" %d", h) + p.str() + (p.sink_std ? " std" : ""); x.note(s); x.outcome(mc::hash(s)); run(x, c, p, h); }
static void sinks(Ctx &x) {
  const Case &c = layout(x, 8); int h = int(x.choose(NH)); auto n = dry(x, c, h); Plan p; p.sink_std = x.flag(); uint32_t lim = uint32_t(n.sinks + 2);
  p.sink_at = int(x.choose(lim)); uint32_t k = x.choose(lim + 1); if (k) { p.sink_at2 = int(k) - 1; if (p.sink_at2 <= p.sink_at) x.prune(); } go(x, c, p, h);
}
static void filters(Ctx &x) { const Case &c = layout(x, 8); int h = int(x.choose(2)); auto n = dry(x, c, h); Plan p; p.filter_at = int(x.choose(uint32_t(n.filters + 1))); go(x, c, p, h); }
static void allocs(Ctx &x) {
  const Case &c = layout(x, 8); int h = int(x.choose(NH)); auto n = dry(x, c, h); Plan p; bool on = x.flag(); long k = long(x.choose(uint32_t(n.allocs + 1))); if (on) p.from = k; else p.a1 = k; go(x, c, p, h);
}
static void mixed(Ctx &x) { // a sink exception and an allocation failure, or two of the latter
  const Case &c = layout(x, mc::thorough() ? 8 : 2); int h = mc::thorough() ? int(x.choose(NH)) : int(H_MIX); auto n = dry(x, c, h); Plan p; p.a1 = long(x.choose(uint32_t(n.allocs + 1)));
  if (x.flag()) p.sink_at = int(x.choose(uint32_t(n.sinks))); else { if (!mc::thorough()) { if (p.a1 < n.allocs - 24) x.prune(); } p.a2 = p.a1 + 1 + long(x.choose(16)); }
  go(x, c, p, h);
}
// allocation failures in a process that has used nothing of the library yet
static void cold(Ctx &x) {
  static const int which[] = {1, 4, 7}; auto fs = all_formats(); auto ls = zoo(fs[0]); const Case &c = cached(ls[size_t(x.pick(which))]); const uint32_t N = 700; long k = long(x.choose(N));
  Plan p; p.a1 = k; x.note(c.l.str() + p.str() + " in a new process"); fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) throw mc::ToolError{"fork"};
  if (pid == 0) {
    // no core, no report: the parent judges
    Ctl ctl; mem::fail_at = p.a1; mem::seen = 0; int rc = 0;
    try {
      mem::Arm a(true); cs::Reader r(CountSource(&c.bytes), ThrowSink(&ctl), ThrowFilter(&ctl));
      while (auto b = r.read_row_no_sink()) for (auto &col : r.properties().columns) { (void)col.to_string(b); (void)col.get_number(b); }
      r.read_all();
    } catch (const std::bad_alloc &) { rc = 1; } catch (...) { rc = 2; }
    mem::armed = false; if (mem::failed && rc != 1) rc = 3; if (!mem::failed && rc != 0) rc = 4;
    _exit(rc);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) > 1)) x.fail(c.l.str() + p.str() + format(" in a new process: %s %d", WIFSIGNALED(st) ? "killed by signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
  x.transition(); x.checked(); x.state(100 + uint64_t(WEXITSTATUS(st))); x.outcome(mc::hash(c.l.str() + p.str()));
}
// values and their texts, copies of columns and properties
static void values(Ctx &x) {
  static const int which[] = {0, 3, 7, 10}; auto fs = all_formats(); auto ls = zoo(x.flag() ? fs[7] : fs[0]); const Case &c = cached(ls[size_t(x.pick(which))]); Ctl ctl; ctl.ev.reserve(64);
  cs::Reader r(CountSource(&c.bytes), ThrowSink(&ctl), ThrowFilter(&ctl)); size_t skip = x.choose(2); r.skip(skip); const void *p = r.read_row_no_sink(); if (!p) x.prune();
  const auto &cols = r.properties().columns; uint32_t what = x.choose(uint32_t(cols.size()) + 2);
  auto use = [&] {
    if (what == cols.size()) { cs::COLUMNS copy(cols); if (copy.size() != cols.size()) std::abort(); }
    else if (what > cols.size()) { cs::Properties copy(r.properties()); if (copy.columns.size() != cols.size()) std::abort(); }
    else { const auto &k = cols[what]; (void)k.to_string(p); (void)k.get_string(p); (void)k.get_number(p); (void)k.get_integer(p); (void)k.get_date(p); (void)k.get_datetime(p); (void)k.get_time(p); (void)cs::to_string(k.get_datetime(p).is_special() ? cs::DATETIME(cs::DATE(2000, 1, 1)) : k.get_datetime(p)); }
  };
  use();
  long n; { mem::seen = 0; mem::fail_at = -1; mem::Arm a(true); use(); n = mem::seen; }
  std::string w = c.l.str() + format(" row %zu value %u", skip, what);
  for (long k = 0; k < n; ++k) {
    long live = mem::live; bool got = false; mem::seen = 0; mem::failed = 0; mem::fail_at = k; try { mem::Arm a(true); use(); } catch (const std::bad_alloc &) { got = true; } mem::fail_at = -1;
    if (mem::failed && !got) x.fail(w + format(": failure of allocation %ld was swallowed", k));
    if (mem::live != live) x.fail(w + format(": failure of allocation %ld leaks", k));
    x.checked(); x.transition();
  }
  if (what < cols.size()) { std::string v = value(cols[what], p); if (v != expect_value(c.l.f, c.cols[what], c.rows[skip])) x.fail(w + ": the value changed"); }
  x.state(mc::hash(w)); x.outcome(mc::hash(w)); x.note(w);
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("cold", cold);
    mc::add("sink", sinks);
    mc::add("filter", filters);
    mc::add("allocation", allocs);
    mc::add("two-faults", mixed);
    mc::add("values", values);
  });
}
