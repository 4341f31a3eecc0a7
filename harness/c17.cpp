// C17: several readers, nested use, lifetimes of copies.
#include "ops.hpp"
using namespace hx;
static const Case &by(int fmt, int layout) { auto fs = all_formats(); auto ls = zoo(fs[size_t(fmt)]); return cached(ls[size_t(layout)]); }
struct PairSel { int f1, l1, f2, l2; };
// readers of unlike and of like files
static const std::vector<PairSel> &pairs() { static const std::vector<PairSel> v = {{0, 4, 0, 4}, {0, 6, 7, 6}, {0, 1, 5, 7}, {3, 5, 4, 2}, {0, 7, 0, 3}, {7, 6, 7, 4}}; return v; }
static const std::vector<Op> &alpha() { static const std::vector<Op> v = {Op::read_row, Op::peek, Op::skip1, Op::rows2}; return v; }
static void interleave(Ctx &x, size_t n, size_t depth, const std::vector<Op> &ops) {
  const auto &p = x.pick(pairs()); std::vector<std::unique_ptr<Driver>> d; std::vector<const Case *> cs{&by(p.f1, p.l1), &by(p.f2, p.l2), &by(p.f1, p.l2)};
  // opened one after the other, at any moment: the last only when it is first used
  auto open = [&](size_t i) { if (!d[i]) d[i] = std::make_unique<Driver>(x, *cs[i], true); };
  d.resize(n); for (size_t i = 0; i + 1 < n; ++i) open(i);
  std::string tr; std::vector<bool> gone(n, false);
  for (size_t k = 0; k < depth; ++k) {
    uint32_t a = x.choose(uint32_t(n * (ops.size() + 1))); size_t i = a / (ops.size() + 1), o = a % (ops.size() + 1);
    if (gone[i]) x.prune();
    tr += format(" %c:", int('A' + i));
    if (o == ops.size()) { if (!d[i]) x.prune(); d[i].reset(); gone[i] = true; tr += "destroy"; x.transition(); }
    else { open(i); d[i]->step(ops[o]); tr += op_name(ops[o]); }
    for (size_t j = 0; j < n; ++j) if (d[j]) { d[j]->check_held(); d[j]->verify("another reader was used"); }
    uint64_t h = 0; for (size_t j = 0; j < n; ++j) h = mc::combine(h, d[j] ? d[j]->m.pos * 2 + (d[j]->held != nullptr) : 1000 + gone[j]); x.state(mc::combine(h, uint64_t(&p - pairs().data())));
  }
  x.note(cs[0]->l.str() + " with " + cs[1]->l.str() + ":" + tr); x.outcome(mc::hash(cs[0]->l.str() + cs[1]->l.str() + tr + format("%zu", n)));
  for (size_t j = 0; j < n; ++j) if (d[j]) { d[j]->held = nullptr; while (d[j]->r->read_row()) if (!d[j]->m.row()) x.fail("more rows"); d[j]->m.row(); d[j]->verify("drain"); if (d[j]->m.pos != d[j]->m.N()) x.fail(d[j]->where() + ": rows are missing"); }
}
// a sink that uses other readers during its callbacks
struct NestSink {
  Ctx *x; const Case *c; std::shared_ptr<std::vector<Event>> ev; cs::COLUMNS cols; std::function<void(int)> inner; int calls = 0;
  void set_properties(const cs::Properties &p) { cols = cs::COLUMNS(p.columns); inner(calls++); if (p.columns.size() != c->cols.size() || p.columns[0].name != c->cols[0].name) x->fail("the properties changed during a callback"); }
  void push_row(size_t i, cs::Column::PBUF p) {
    std::string a = row_text(cols, p); inner(calls++); std::string b = row_text(cols, p);
    if (a != b) x->fail(c->l.str() + format(": row %zu changed while another reader was used in the callback: ", i) + b + " was " + a);
    ev->push_back({'R', i, a});
  }
  void end_of_data() { inner(calls++); ev->push_back({'E', 0, {}}); }
};
static void nested(Ctx &x) {
  const auto &p = x.pick(pairs()); const Case &a = by(p.f1, p.l1), &b = by(p.f2, p.l2); uint32_t how = x.choose(5), at = x.choose(8); bool swap = x.flag(); const Case &A = swap ? b : a, &B = swap ? a : b;
  auto ev = std::make_shared<std::vector<Event>>(); std::string tr;
  std::unique_ptr<Driver> other; if (how != 0) other = std::make_unique<Driver>(x, B, true);
  auto use = [&](Driver &d, bool all) { if (all) d.step(Op::read_all); else { d.step(Op::read_row); d.step(Op::peek); } };
  NestSink s{&x, &A, ev, {}, {}, 0};
  s.inner = [&, at, how](int k) {
    if (how <= 1 ? k != int(at) : false) return; // once, or in every callback
    switch (how) {
    case 0: { Driver d(x, B, true); use(d, false); use(d, true); } break;               // opened, read and destroyed inside
    case 1: use(*other, true); break;
    case 2: if (other) other->step(Op::read_row); break;                                 // one row of B per row of A
    case 3: if (other) { other->step(Op::peek); if (k == int(at)) other.reset(); } break; // B goes away
    case 4: { auto iv = std::make_shared<std::vector<Event>>(); NestSink in{&x, &B, iv, {}, [&](int m) { if (m == int(at) && other) other->step(Op::read_row); }, 0}; cs::Reader q(MemSource(share(B.bytes)), std::move(in)); if (k == int(at)) q.read_all(); else q.read_row(); size_t n = 0; for (auto &e : *iv) if (e.kind == 'R') { if (e.row != B.expect[n]) x.fail("inner row"); ++n; } } break;
    }
    if (other) other->check_held();
    x.transition();
  };
  { cs::Reader r(MemSource(share(A.bytes)), std::move(s)); r.read_all(); }
  size_t n = 0; for (auto &e : *ev) if (e.kind == 'R') { if (n >= A.expect.size() || e.index != n || e.row != A.expect[n]) x.fail(A.l.str() + format(": row %zu is ", n) + e.row); ++n; }
  if (n != A.expect.size()) x.fail(A.l.str() + ": rows are missing");
  std::string w = A.l.str() + " using " + B.l.str() + format(" way %u at %u", how, at); x.note(w); x.outcome(mc::hash(w)); x.state(mc::hash(w)); x.checked(n);
}
// ---- copies outlive the reader
static void lifetimes(Ctx &x) {
  static const int ls[] = {0, 3, 5, 7, 2}; const Case &c = by(int(x.choose(2)) * 7, x.pick(ls)); size_t depth = mc::thorough() ? 7 : 5;
  struct Obj { std::unique_ptr<cs::COLUMNS> cols; std::unique_ptr<cs::Properties> props; std::unique_ptr<cs::Columns> groups; std::unique_ptr<cs::Column> one; size_t idx = 0; };
  std::unique_ptr<cs::Reader> r = std::make_unique<cs::Reader>(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>()));
  if (c.expect.empty()) x.prune();
  std::vector<Bytes> rows; std::vector<Obj> objs; std::string tr; size_t at = 0;
  auto check_obj = [&](const Obj &o) {
    for (size_t i = 0; i < rows.size(); ++i) {
      // the row's bytes, in an allocation of their own
      std::unique_ptr<unsigned char[]> b(new unsigned char[c.row_length]); memcpy(b.get(), rows[i].data(), c.row_length);
      auto bad = [&](const std::string &s) { x.fail(c.l.str() + tr + format(": row %zu read by a copy is ", i) + s + " instead of " + c.expect[i]); };
      if (o.cols) { auto s = row_text(*o.cols, b.get()); if (s != c.expect[i]) bad(s); }
      if (o.props) { auto s = row_text(o.props->columns, b.get()); if (s != c.expect[i]) bad(s); if (o.props->dataset_name != "DATASET" || o.props->row_count != c.row_count) x.fail(c.l.str() + tr + ": properties changed"); }
      if (o.one) { auto s = value(*o.one, b.get()), e = expect_value(c.l.f, c.cols[o.idx], c.rows[i]); if (s != e || o.one->name != c.cols[o.idx].name || o.one->to_string(b.get()).size() > 100) bad(s); }
      if (o.groups) {
        std::map<std::string, std::vector<const sg::Col *>> g; for (auto &k : c.cols) g[ref::kind_name(ref::kind(k))].push_back(&k);
        auto grp = [&](const char *n, const cs::COLUMNS &cs_) { auto &w = g[n]; if (w.size() != cs_.size()) x.fail(c.l.str() + tr + format(": %zu %s columns", cs_.size(), n)); for (size_t k = 0; k < w.size(); ++k) { if (cs_[k].name != w[k]->name) x.fail("group order"); auto s = value(cs_[k], b.get()); if (s != expect_value(c.l.f, *w[k], c.rows[i])) bad(s); } };
        grp("string", o.groups->strings); grp("number", o.groups->numbers); grp("integer", o.groups->integers); grp("datetime", o.groups->datetimes); grp("date", o.groups->dates); grp("time", o.groups->times);
      }
      x.checked();
    }
  };
  for (size_t k = 0; k < depth; ++k) {
    uint32_t a = x.choose(11); Obj o;
    const cs::Properties *P = r ? &r->properties() : nullptr;
    switch (a) {
    case 0: if (!r) x.prune(); { const void *p = r->read_row_no_sink(); if (!p) x.prune(); rows.push_back(Bytes(static_cast<const char *>(p), c.row_length)); ++at; if (rows.back() != c.rows[rows.size() - 1]) {} } tr += " read"; break;
    case 1: if (!P) x.prune(); o.cols = std::make_unique<cs::COLUMNS>(P->columns); objs.push_back(std::move(o)); tr += " copy-columns"; break;
    case 2: if (!P) x.prune(); o.props = std::make_unique<cs::Properties>(*P); objs.push_back(std::move(o)); tr += " copy-properties"; break;
    case 3: if (!P) x.prune(); o.groups = std::make_unique<cs::Columns>(P->columns); objs.push_back(std::move(o)); tr += " group"; break;
    case 4: if (!P) x.prune(); o.idx = at % c.cols.size(); o.one = std::make_unique<cs::Column>(P->columns[o.idx]); objs.push_back(std::move(o)); tr += " copy-column"; break;
    case 5: if (!r) x.prune(); r.reset(); tr += " destroy-reader"; break;
    case 6: if (!r) x.prune(); { auto q = std::make_unique<cs::Reader>(std::move(*r)); r = std::move(q); } tr += " move-reader"; break;
    case 7: if (objs.empty()) x.prune(); objs.erase(objs.begin()); tr += " drop-oldest"; break;
    case 8: // copy of a copy
      if (objs.empty()) x.prune(); { auto &s = objs.back(); if (s.cols) o.cols = std::make_unique<cs::COLUMNS>(*s.cols); if (s.props) o.props = std::make_unique<cs::Properties>(*s.props); if (s.groups) o.groups = std::make_unique<cs::Columns>(*s.groups); if (s.one) { o.one = std::make_unique<cs::Column>(*s.one); o.idx = s.idx; } } objs.push_back(std::move(o)); tr += " copy-copy"; break;
    case 9: // move of a copy
      if (objs.empty()) x.prune(); { auto s = std::move(objs.back()); objs.pop_back(); if (s.cols) o.cols = std::make_unique<cs::COLUMNS>(std::move(*s.cols)); if (s.props) o.props = std::make_unique<cs::Properties>(std::move(*s.props)); if (s.groups) o.groups = std::make_unique<cs::Columns>(std::move(*s.groups)); if (s.one) { o.one = std::make_unique<cs::Column>(std::move(*s.one)); o.idx = s.idx; } } objs.push_back(std::move(o)); tr += " move-copy"; break;
    case 10: // grown: elements are moved or copied inside
      if (objs.empty() || !objs.back().cols) x.prune(); { auto &v = *objs.back().cols; size_t n = v.size(); cs::Column first(v[0]); v.reserve(v.capacity() + 5); v.emplace_back(first); v.pop_back(); if (v.size() != n) x.fail("size"); } tr += " grow"; break;
    }
    x.transition();
    if (rows.size() && rows.back().size() == c.row_length && k + 1 == depth) {} 
    for (auto &ob : objs) check_obj(ob);
    x.state(mc::combine(mc::hash(c.l.str(), objs.size() * 64 + rows.size() * 8), (r != nullptr) + 2 * (objs.empty() ? 0 : objs.back().cols ? 1 : objs.back().props ? 2 : objs.back().groups ? 3 : 4)));
  }
  if (objs.empty() || rows.empty()) x.prune();
  x.note(c.l.str() + tr); x.outcome(mc::hash(c.l.str() + tr));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    static const std::vector<Op> small{Op::read_row, Op::peek};
    mc::add("interleave-2", [](Ctx &x) { interleave(x, 2, mc::thorough() ? 6 : 5, alpha()); });
    mc::add("interleave-3", [](Ctx &x) { interleave(x, 3, mc::thorough() ? 6 : 5, small); });
    mc::add("nested", nested);
    mc::add("lifetimes", lifetimes);
  });
}
