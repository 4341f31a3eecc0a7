// C03: the sink's notification protocol under every history of calls.
#include "ops.hpp"
using namespace hx;
static const std::vector<Op> ALL{Op::read_row, Op::rows0, Op::rows1, Op::rows2, Op::rows3, Op::rows_all, Op::skip0, Op::skip1, Op::skip2, Op::skip_all, Op::peek, Op::read_all, Op::move_new, Op::move_assign, Op::end};
static const std::vector<Op> CORE{Op::read_row, Op::rows2, Op::skip2, Op::peek, Op::read_all, Op::end};
static Layout layout(Ctx &x, bool all) {
  static const auto F = all_formats(false);
  sg::Fmt f;
  if (all) f = x.pick(F); else { f.big = true; f.u64 = true; f.a1 = true; if (x.flag()) f = sg::Fmt(); }
  auto z = zoo(f);
  // files without rows, in every guise
  { Layout l; l.f = f; l.pages = {{'D', 0}}; z.push_back(l); }
  { Layout l; l.f = f; l.mix = true; l.mix_rows = 0; z.push_back(l); }
  { Layout l; l.f = f; l.comp = sg::Comp::rle; z.push_back(l); }
  { Layout l; l.f = f; l.pages = {{'D', 2}}; l.surplus = 2; z.push_back(l); }
  return z[x.choose(uint32_t(z.size()))];
}
// what a sink is given before its first row equals what the reader reports, however the sink is passed
struct PropSink {
  std::shared_ptr<std::vector<std::string>> out;
  void set_properties(const cs::Properties &p) { out->push_back("P " + props_text(p)); }
  void push_row(size_t i, cs::Column::PBUF) { out->push_back(format("R %zu", i)); }
  void end_of_data() { out->push_back("E"); }
};
static void props_body(Ctx &x) {
  Layout l = layout(x, true);
  const Case &c = cached(l);
  uint32_t how = x.choose(4), filt = x.choose(3);
  auto out = std::make_shared<std::vector<std::string>>();
  PropSink sink{out};
  std::set<std::string> ex;
  if (filt) for (size_t k = 0; k < c.cols.size(); ++k) if (filt == 2 || k == 0) ex.insert(c.cols[k].name);
  struct Not { std::set<std::string> ex; bool accept(const cs::Column &col) const { return !ex.count(col.name); } };
  std::unique_ptr<cs::Reader> r;
  MemSource src(share(c.bytes));
  switch (how) {
  case 0: r = std::make_unique<cs::Reader>(std::move(src), PropSink{out}, Not{ex}); break;
  case 1: r = std::make_unique<cs::Reader>(src, sink, Not{ex}); break;
  case 2: { Not n{ex}; r = std::make_unique<cs::Reader>(src, std::move(sink), n); } break;
  case 3: { cs::Reader q(MemSource(share(c.bytes)), sink, Not{ex}); r = std::make_unique<cs::Reader>(std::move(q)); } break;
  }
  if (how == 2) { Not n{ex}; }
  std::string want = "P " + props_text(r->properties());
  x.note(l.str() + format(" how %u filter %u", how, filt));
  if (how != 2) r->read_all(); else { while (r->read_rows(2)) {} }
  std::vector<std::string> e{want};
  for (size_t i = 0; i < c.rows.size(); ++i) e.push_back(format("R %zu", i));
  e.push_back("E");
  if (*out != e) { size_t k = 0; while (k < out->size() && k < e.size() && (*out)[k] == e[k]) ++k; x.fail(format("notification #%zu: ", k) + (k < out->size() ? (*out)[k] : "missing") + " expected " + (k < e.size() ? e[k] : "none")); }
  x.checked(e.size());
  x.transition(e.size());
  x.state(mc::hash(x.desc));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("properties-first", props_body);
    mc::add("all-operations", [](Ctx &x) { run_ops(x, cached(layout(x, true)), ALL, mc::thorough() ? 5 : 3, true); });
    mc::add("core-operations", [](Ctx &x) { run_ops(x, cached(layout(x, mc::thorough())), CORE, mc::thorough() ? 7 : 5, true); });
  });
}
