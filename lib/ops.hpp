// Operation sequences on a Reader against an abstract model of it: a position in the row list.
#pragma once
#include "layouts.hpp"
#include <map>

namespace hx {
// all that a file's properties say
inline std::string props_text(const cs::Properties &p) {
  std::string s = format("%d %d %d ", int(p.format), int(p.endianness), int(p.platform)) + show(p.date_created) + show(p.date_modified) + p.dataset_name + "|" + p.encoding + "|" + p.file_type + "|" + p.sas_release + "|" +
                  p.sas_server_type + "|" + p.os_type + "|" + p.os_name + format("|%zu %zu %zu %d %zu %zu %zu %zu %zu %zu %zu %zu|", p.header_length, p.page_length, p.page_count, int(p.compression), p.row_length, p.row_count, p.column_count,
                  p.col_count_p1, p.col_count_p2, p.mix_page_row_count, p.lcs, p.lcp) + p.creator + "|" + p.creator_proc;
  for (auto &c : p.columns) s += "|" + c.name + "," + c.label + "," + c.format + "," + type_name(c.type) + format(",%zu", c.length());
  return s;
}
inline const Case &cached(const Layout &l) {
  static std::map<std::string, Case> m;
  auto k = l.str();
  auto i = m.find(k);
  if (i == m.end()) i = m.emplace(k, build(l)).first;
  return i->second;
}
enum class Op { read_row, rows0, rows1, rows2, rows3, rows_all, skip0, skip1, skip2, skip_all, peek, read_all, move_new, move_assign, end, N };
inline const char *op_name(Op o) {
  static const char *n[] = {"read_row", "read_rows(0)", "read_rows(1)", "read_rows(2)", "read_rows(3)", "read_rows(max)", "skip(0)", "skip(1)", "skip(2)", "skip(max)",
                            "read_row_no_sink", "read_all", "move", "move-assign", "end_of_data"};
  return n[int(o)];
}
// The model: position, and the notifications a sink must have seen so far.
struct Model {
  const Case *c;
  size_t pos = 0;
  std::vector<Event> ev;
  size_t N() const { return c->rows.size(); }
  bool row() {
    if (pos == N()) { ev.push_back({'E', 0, {}}); return false; }
    ev.push_back({'R', pos, c->expect[pos]}); ++pos; return true;
  }
  bool rows(size_t n) { while (n && row()) --n; return n == 0; }
  bool skip(size_t n) {
    if (n <= N() - pos) { pos += n; return true; }
    pos = N(); ev.push_back({'E', 0, {}}); return false;
  }
};
inline bool same(const Event &a, const Event &b) { return a.kind == b.kind && (a.kind != 'R' || (a.index == b.index && a.row == b.row)); }

struct Driver {
  Ctx &x;
  const Case &c;
  std::shared_ptr<Log> log = std::make_shared<Log>();
  std::unique_ptr<cs::Reader> r;
  cs::COLUMNS cols;
  Model m;
  const void *held = nullptr; // row obtained without the sink
  size_t held_index = 0;
  std::string trace;
  size_t seen = 1;
  bool notifications; // compare end notifications too
  using Make = std::function<std::unique_ptr<cs::Reader>(std::shared_ptr<Log>)>;
  Driver(Ctx &x_, const Case &c_, bool nt, const Make &make = {}) : x(x_), c(c_), notifications(nt) {
    r = make ? make(log) : std::make_unique<cs::Reader>(MemSource(share(c.bytes)), RecSink(log));
    cols = cs::COLUMNS(r->properties().columns);
    m.c = &c;
    m.ev.push_back({'P', c.cols.size(), {}});
    verify("open");
  }
  std::string where() const { return c.l.str() + ": " + trace; }
  void check_held() {
    if (!held) return;
    std::string s = row_text(cols, held);
    x.checked();
    if (s != c.expect[held_index]) x.fail(where() + format(": the row %zu read without the sink changed before the next call: ", held_index) + s + " expected " + c.expect[held_index]);
  }
  void verify(const char *what) {
    auto bad = [&](const std::string &s) { x.fail(where() + " [" + what + "]: " + s); };
    if (r->current_row_index() != m.pos) bad(format("current_row_index is %zu, %zu rows were consumed", r->current_row_index(), m.pos));
    size_t ri = 0;
    std::vector<const Event *> got, want;
    for (auto &e : log->ev) if (notifications || e.kind == 'R') got.push_back(&e);
    for (auto &e : m.ev) if (notifications || e.kind == 'R') want.push_back(&e);
    for (; ri < got.size() && ri < want.size(); ++ri) if (!same(*got[ri], *want[ri])) break;
    if (ri < got.size() || ri < want.size())
      bad(format("the sink's notification #%zu is ", ri) + (ri < got.size() ? show_log({*got[ri]}) : std::string("missing")) + ", expected " + (ri < want.size() ? show_log({*want[ri]}) : std::string("none")));
    x.checked(got.size() + 1);
  }
  void ret(bool got, bool want) { if (got != want) x.fail(where() + format(": returned %d, expected %d (position %zu of %zu)", got, want, m.pos, m.N())); }
  void step(Op o) {
    trace += std::string(trace.empty() ? "" : " ") + op_name(o);
    x.transition();
    check_held();
    held = nullptr;
    switch (o) {
    case Op::read_row: { bool g = r->read_row(); ret(g, m.row()); } break;
    case Op::rows0: { bool g = r->read_rows(0); ret(g, m.rows(0)); } break;
    case Op::rows1: { bool g = r->read_rows(1); ret(g, m.rows(1)); } break;
    case Op::rows2: { bool g = r->read_rows(2); ret(g, m.rows(2)); } break;
    case Op::rows3: { bool g = r->read_rows(3); ret(g, m.rows(3)); } break;
    case Op::rows_all: { bool g = r->read_rows(SIZE_MAX); ret(g, m.rows(SIZE_MAX)); } break;
    case Op::skip0: { bool g = r->skip(0); ret(g, m.skip(0)); } break;
    case Op::skip1: { bool g = r->skip(1); ret(g, m.skip(1)); } break;
    case Op::skip2: { bool g = r->skip(2); ret(g, m.skip(2)); } break;
    case Op::skip_all: { bool g = r->skip(SIZE_MAX); ret(g, m.skip(SIZE_MAX)); } break;
    case Op::peek: {
      const void *p = r->read_row_no_sink();
      ret(p != nullptr, m.pos < m.N());
      if (p) { held = p; held_index = m.pos++; check_held(); }
    } break;
    case Op::read_all: r->read_all(); while (m.row()) {} break;
    case Op::move_new: { auto q = std::make_unique<cs::Reader>(std::move(*r)); moved_from(*r); r = std::move(q); } break;
    case Op::move_assign: { auto q = std::make_unique<cs::Reader>(); *q = std::move(*r); moved_from(*r); r = std::move(q); } break;
    case Op::end: r->end_of_data(); m.ev.push_back({'E', 0, {}}); break;
    case Op::N: break;
    }
    verify(op_name(o));
  }
  // a reader without a file reads nothing and tells nobody
  void moved_from(cs::Reader &q) {
    if (q.read_row() || q.read_rows(0) || q.read_rows(1) || q.read_rows(SIZE_MAX) || q.read_row_no_sink() || q.skip(0) || q.skip(1) || q.current_row_index() != 0 || !q.properties().columns.empty() || q.properties().row_count) x.fail(where() + ": a moved-from reader still reads");
    q.read_all(); q.end_of_data();
  }
};
// every sequence of up to depth operations of the alphabet
inline void run_ops(Ctx &x, const Case &c, const std::vector<Op> &alphabet, size_t depth, bool notifications) {
  Driver d(x, c, notifications);
  x.state(mc::hash(c.l.str(), d.m.pos));
  for (size_t k = 0; k < depth; ++k) {
    d.step(x.pick(alphabet));
    x.state(mc::combine(mc::hash(c.l.str(), d.m.pos), d.held != nullptr));
  }
  // the rest of the file is still all there
  d.check_held();
  d.trace += " + drain";
  while (d.r->read_row() ) { if (!d.m.row()) x.fail(d.where() + ": more rows than stored"); }
  d.m.row();
  d.verify("drain");
  if (d.m.pos != d.m.N()) x.fail(d.where() + format(": only %zu of %zu rows were delivered", d.m.pos, d.m.N()));
  x.note(d.where());
  x.outcome(mc::hash(d.where()));
}
} // namespace hx
