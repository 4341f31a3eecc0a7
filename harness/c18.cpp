// C18: CSV output.
#include "sinks.hpp"
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace hx;
static std::string scratch;
static std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<no file>"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static std::string to_csv(const Bytes &file) { std::ostringstream os; { cs::Reader r(MemSource(share(file)), cppsas7bdat::datasink::csv(os)); r.read_all(); } return os.str(); }
static const char ALPHA[] = {'a', '"', ',', '\n', '\r', '{', '}', '\'', ';', ' ', '%', '\xe9', '\t', '\\'};
// all contents of up to n bytes; the reader strips blanks at the end
static void strings(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); size_t n = mc::thorough() ? 5 : 4, A = mc::thorough() ? 13 : 12; uint32_t a = x.choose(uint32_t(A)), b = x.choose(uint32_t(A));
  std::vector<sg::Col> cols{{"s", "", "$", false, uint32_t(n), 0}, {"n", "", "", true, 8, 0}, {"t", "", "$", false, uint32_t(n + 3), 0}}; size_t len = sg::layout_columns(cols);
  std::vector<Bytes> rows; size_t rest = 1; for (size_t k = 2; k < n; ++k) rest *= A + 1;
  for (size_t q = 0; q < rest; ++q) {
    std::string s{ALPHA[a], ALPHA[b]}; size_t v = q; bool ok = true, end = false; for (size_t k = 2; k < n; ++k, v /= A + 1) { size_t d = v % (A + 1); if (d == A) end = true; else { if (end) ok = false; s += ALPHA[d]; } } if (!ok) continue;
    Bytes r(len, ' '); r.replace(cols[0].off, s.size(), s); r.replace(cols[1].off, 8, ref::encode_number(f, double(q))); std::string t = s; std::reverse(t.begin(), t.end()); r.replace(cols[2].off, t.size(), t); rows.push_back(r);
  }
  x.note(format("strings %s with %02x %02x", f.str().c_str(), uint8_t(ALPHA[a]), uint8_t(ALPHA[b])));
  check_csv(x, "strings", to_csv(table_file(f, cols, len, rows)), f, cols, all_rows(rows)); x.outcome(mc::hash(x.desc)); for (auto &r : rows) x.outcome(mc::hash(r));
}
// every byte, alone and between others
static void bytes(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t blk = x.choose(4); std::vector<sg::Col> cols{{"s", "", "$", false, 9, 0}, {"u", "", "$", false, 1, 0}, {"v", "", "$", false, 3, 0}}; size_t len = sg::layout_columns(cols); std::vector<Bytes> rows;
  for (int c = int(blk) * 64; c < int(blk + 1) * 64; ++c) for (int k = 0; k < 4; ++k) { Bytes r(len, ' '); r[cols[1].off] = char(c); r[size_t(cols[2].off) + size_t(k % 3)] = char(c); std::string s = k == 0 ? std::string(1, char(c)) : k == 1 ? std::string("a") + char(c) + "b" : k == 2 ? std::string(3, char(c)) + "z" : std::string("\"") + char(c) + "\""; r.replace(cols[0].off, s.size(), s); rows.push_back(r); }
  x.note(format("bytes %u", blk)); check_csv(x, "bytes", to_csv(table_file(f, cols, len, rows)), f, cols, all_rows(rows)); for (auto &r : rows) x.outcome(mc::hash(r));
}
static void names(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); size_t A = 12; uint32_t a = x.choose(uint32_t(A)), b = x.choose(uint32_t(A)), ncol = 1 + x.choose(3); std::vector<Bytes> rows;
  for (size_t c = 0; c < A; ++c) {
    std::vector<sg::Col> cols; std::string tail; tail += ALPHA[a]; tail += ALPHA[b]; tail += ALPHA[c];
    for (uint32_t k = 0; k < ncol; ++k) { sg::Col q; q.name = k == 0 ? "x" + tail + "y" : k == 1 ? "\"" + tail + "q" : "," + tail + ","; q.num = k == 1; q.len = k == 1 ? 8 : 4; cols.push_back(q); }
    size_t len = sg::layout_columns(cols); rows.assign(2, Bytes(len, ' ')); for (auto &r : rows) if (ncol > 1) r.replace(cols[1].off, 8, ref::encode_number(f, 2.5));
    x.note(cols[0].name); check_csv(x, "column " + cols[0].name, to_csv(table_file(f, cols, len, rows)), f, cols, all_rows(rows)); x.outcome(mc::hash(cols[0].name + format("%u", ncol)));
  }
}
static void numbers(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t blk = x.choose(32); std::vector<sg::Col> cols; for (uint32_t w = 3; w <= 8; ++w) cols.push_back({format("n%u", w), "", "BEST", true, w, 0}); cols.push_back({"i1", "", "", true, 1, 0}); cols.push_back({"i2", "", "", true, 2, 0}); size_t len = sg::layout_columns(cols); std::vector<Bytes> rows;
  auto add = [&](double d) { for (int s = 0; s < 2; ++s) { double v = s ? -d : d; Bytes r(len, '\0'); for (size_t k = 0; k < 6; ++k) r.replace(cols[k].off, cols[k].len, ref::encode_number(f, v, cols[k].len)); r[cols[6].off] = char(rows.size()); sg::putn(r, cols[7].off, rows.size() * 37 + blk * 2048, 2, f.big); rows.push_back(r); } };
  for (int e = int(blk) * 64; e < int(blk + 1) * 64; ++e) for (uint64_t m : {0x0ull, 0x1ull, 0x8000000000000ull, 0xfffffffffffffull, 0x999999999999aull, 0x5555555555555ull}) add(sg::bitsd(uint64_t(e) << 52 | m));
  for (int k = 0; k < 20; ++k) { add(std::pow(10.0, int(blk) * 20 - 320 + k)); add(double(blk * 1000 + unsigned(k)) / 100); add(double(blk) * 1e5 + k * 0.1); }
  for (int m = 0; m < 28 && blk == 0; ++m) { uint64_t u = 0xFFFF000000000000ull; int c = m == 0 ? '.' : m == 1 ? '_' : 'A' + m - 2; u &= ~(0xffull << 40); u |= uint64_t((unsigned char)~c) << 40; add(sg::bitsd(u)); }
  x.note(format("numbers %u %s", blk, f.str().c_str())); check_csv(x, "numbers", to_csv(table_file(f, cols, len, rows)), f, cols, all_rows(rows)); for (auto &r : rows) x.outcome(mc::hash(r));
}
static void dates(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t blk = x.choose(16); std::vector<sg::Col> cols{{"dt", "", "DATETIME", true, 8, 0}, {"d", "", "DATE", true, 8, 0}, {"t", "", "TIME", true, 8, 0}, {"s", "", "$", false, 1, 0}}; size_t len = sg::layout_columns(cols); std::vector<Bytes> rows; long a = ref::first_day(), n = ref::last_day() - a + 1;
  auto add = [&](double dt, double d, double t) { Bytes r(len, 'z'); r.replace(cols[0].off, 8, ref::encode_number(f, dt)); r.replace(cols[1].off, 8, ref::encode_number(f, d)); r.replace(cols[2].off, 8, ref::encode_number(f, t)); rows.push_back(r); };
  for (long d = a + n * long(blk) / 16; d < a + n * long(blk + 1) / 16; d += mc::thorough() ? 1 : 37) add(double(d) * 86400 + double((d * 7919 + 1000000000) % 86400) + (d % 3 ? 0.25 : 0), double(d), double((d * 104729 + 3000000000) % 86400) + (d % 5 ? 0 : 0.5));
  if (blk == 0) for (double v : {double(NAN), double(INFINITY), -double(INFINITY), 1e300, -1e300, 1e13}) { add(v, 5, 6); add(7, v, 8); add(9, 10, v); add(v, v, v); }
  x.note(format("dates %u", blk)); check_csv(x, "dates", to_csv(table_file(f, cols, len, rows)), f, cols, all_rows(rows)); for (auto &r : rows) x.outcome(mc::hash(r));
}
// ---- histories: what was pushed is what is written
template <class Sink> static std::vector<const Bytes *> drive(Ctx &x, const Case &c, Sink &&sink, const std::vector<Op> &ops, std::string &tr, const std::function<void(const std::vector<const Bytes *> &)> &mid) {
  std::vector<const Bytes *> rows; cs::Reader r(MemSource(share(c.bytes)), std::forward<Sink>(sink)); size_t pos = 0, N = c.rows.size();
  auto push = [&](size_t n) { while (n-- && pos < N) rows.push_back(&c.rows[pos++]); };
  for (Op o : ops) {
    tr += std::string(" ") + op_name(o);
    switch (o) {
    case Op::read_row: r.read_row(); push(1); break; case Op::rows2: r.read_rows(2); push(2); break; case Op::rows0: r.read_rows(0); break;
    case Op::skip1: r.skip(1); if (pos < N) ++pos; break; case Op::peek: if (r.read_row_no_sink()) ++pos; break; case Op::read_all: r.read_all(); push(SIZE_MAX); break; case Op::end: r.end_of_data(); break;
    case Op::move_new: { cs::Reader q(std::move(r)); r = std::move(q); } break; default: break;
    }
    x.transition(); mid(rows);
  }
  return rows;
}
static void histories(Ctx &x) {
  auto ls = zoo(x.flag() ? all_formats()[7] : all_formats()[0]); const Case &c = cached(x.pick(ls)); static const std::vector<Op> A{Op::read_row, Op::rows2, Op::skip1, Op::peek, Op::read_all, Op::end, Op::move_new, Op::rows0};
  std::vector<Op> ops; size_t depth = x.choose(mc::thorough() ? 6 : 5); for (size_t k = 0; k < depth; ++k) ops.push_back(x.pick(A));
  std::string tr; std::ostringstream os; auto rows = drive(x, c, cppsas7bdat::datasink::csv(os), ops, tr, [](auto &) {});
  x.note(c.l.str() + tr); check_csv(x, c.l.str() + tr, os.str(), c.l.f, c.cols, rows); x.outcome(mc::hash(c.l.str() + tr)); x.state(mc::hash(c.l.str(), rows.size()));
}
// ---- stream or named file, moved or not, by value or reference
struct ForwardSink { std::unique_ptr<cppsas7bdat::datasink::detail::csv_ofstream> s; void set_properties(const cs::Properties &p) { s->set_properties(p); } void push_row(size_t i, cs::Column::PBUF p) { s->push_row(i, p); } void end_of_data() { s->end_of_data(); } };
struct Group : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
static void targets(Ctx &x) {
  auto ls = zoo(x.flag() ? all_formats()[6] : all_formats()[0]); const Case &c = cached(x.pick(ls)); uint32_t how = x.choose(11), part = x.choose(3); std::vector<Op> ops; if (part == 0) ops = {Op::read_all}; else if (part == 1) ops = {Op::read_row, Op::end, Op::read_row}; std::string tr;
  std::string path = scratch + format("/c%d.csv", int(getpid())); std::vector<const Bytes *> rows; std::string out; auto none = [](auto &) {}; namespace ds = cppsas7bdat::datasink;
  { FILE *f = fopen(path.c_str(), "wb"); if (!f) throw mc::ToolError{"scratch"}; for (int i = 0; i < 3000; ++i) fputs("old,content\n", f); fclose(f); if (how % 2) unlink(path.c_str()); } // an old file is replaced
  bool file = how >= 4 && how <= 9;
  switch (how) {
  case 0: { std::ostringstream os; rows = drive(x, c, ds::csv(os), ops, tr, none); out = os.str(); } break;
  case 1: { std::ostringstream os; auto s = ds::csv(os); rows = drive(x, c, s, ops, tr, none); out = os.str(); } break;                                      // by reference
  case 2: { std::ostringstream os; auto s = ds::csv(os); auto t = std::move(s); rows = drive(x, c, std::move(t), ops, tr, none); out = os.str(); } break;
  case 3: { std::ostringstream os; os << std::hex << std::showbase << std::uppercase << std::scientific << std::showpos; os.precision(2); os.imbue(std::locale(std::locale(), new Group)); os.fill('*'); rows = drive(x, c, ds::csv(os), ops, tr, none); out = os.str(); } break; // settings of the stream
  case 4: rows = drive(x, c, ds::csv(path.c_str()), ops, tr, none); break;
  case 5: { auto s = ds::csv(path.c_str()); auto t = std::move(s); auto u = std::move(t); rows = drive(x, c, std::move(u), ops, tr, none); } break;
  case 6: { auto s = std::make_unique<ds::detail::csv_ofstream>(path.c_str()); auto t = std::make_unique<ds::detail::csv_ofstream>(std::move(*s)); s.reset(); rows = drive(x, c, std::move(*t), ops, tr, none); } break;
  case 7: { auto s = ds::csv(path.c_str()); rows = drive(x, c, s, ops, tr, none); } break;                                                                     // by reference
  case 8: { auto s = ds::csv(path.c_str()); rows = drive(x, c, ForwardSink{std::make_unique<ds::detail::csv_ofstream>(std::move(s))}, ops, tr, none); } break;
  case 9: { // moved between the notifications
    auto s = std::make_unique<ds::detail::csv_ofstream>(path.c_str()); cs::Reader r(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); s->set_properties(r.properties()); size_t i = 0;
    while (auto p = r.read_row_no_sink()) { auto t = std::make_unique<ds::detail::csv_ofstream>(std::move(*s)); s = std::move(t); s->push_row(i, p); rows.push_back(&c.rows[i++]); }
    s->end_of_data();
  } break;
  case 10: { std::ostringstream os; os << "# mine\n"; rows = drive(x, c, ds::csv(os), ops, tr, none); os << "# too\n"; out = os.str(); if (out.compare(0, 7, "# mine\n") || out.size() < 13 || out.compare(out.size() - 6, 6, "# too\n")) x.fail("what the user wrote is gone"); out = out.substr(7, out.size() - 13); } break;
  }
  if (file) { out = slurp(path); unlink(path.c_str()); }
  std::string w = c.l.str() + format(" target %u part %u", how, part); x.note(w); check_csv(x, w, out, c.l.f, c.cols, rows); x.outcome(mc::hash(w)); x.state(mc::hash(w));
  // the same bytes whatever the target
  std::ostringstream ref_; std::string t2; if (how != 9) { drive(x, c, ds::csv(ref_), ops, t2, none); if (ref_.str() != out) x.fail(w + ": other bytes than to a stream"); } else if (to_csv(c.bytes) != out) x.fail(w + ": other bytes than to a stream");
}
// a file that cannot be created
static void unwritable(Ctx &x) {
  uint32_t k = x.choose(5); std::string dir = scratch + format("/d%d", int(getpid())); mkdir(dir.c_str(), 0700); std::string path = k == 0 ? dir : k == 1 ? dir + "/" : k == 2 ? dir + "/none/x.csv" : k == 3 ? "" : dir + "/" + std::string(300, 'n');
  x.note("path " + path); bool threw = false; try { auto s = cppsas7bdat::datasink::csv(path.c_str()); const Case &c = cached(zoo(all_formats()[0])[0]); cs::Reader r(MemSource(share(c.bytes)), std::move(s)); r.read_all(); } catch (const std::exception &) { threw = true; }
  rmdir(dir.c_str()); x.checked(); x.outcome(k); if (!threw) x.fail("no exception for the path '" + path + "'");
}
// no room: every number of bytes that can be written; the file is whole or there is an exception
static void no_room(Ctx &x) {
  auto g = zoo(pick_fmt(x, 2)); const Case &c = cached(g[x.choose(uint32_t(g.size()))]); static std::map<const Case *, std::string> texts; auto &e = texts[&c]; if (e.empty()) e = to_csv(c.bytes);
  uint32_t how = x.choose(3); bool device = x.flag(); size_t size = e.size(), step = device ? size : std::max<size_t>(1, size / (mc::thorough() ? 800 : 40)); uint32_t k = device ? 0 : x.choose(uint32_t(size / step) + 4); size_t n = k <= size / step ? k * step : size - 1 + (k - size / step - 1);
  std::string path = device ? "/dev/full" : scratch + format("/r%d.csv", int(getpid())), w = device ? std::string("full device") : format("room for %zu of %zu bytes", n, size); w += format(" in %s, read %u", c.l.str().c_str(), how); x.note(w); x.outcome(mc::hash(w));
  signal(SIGXFSZ, SIG_IGN); rlimit o; getrlimit(RLIMIT_FSIZE, &o); rlimit l = o; l.rlim_cur = device ? o.rlim_cur : rlim_t(n); std::string what; bool threw = false; size_t spins = 0;
  setrlimit(RLIMIT_FSIZE, &l);
  try { cs::Reader r(MemSource(share(c.bytes)), cppsas7bdat::datasink::csv(path.c_str())); if (how == 0) r.read_all(); else if (how == 1) while (r.read_row()) ++spins; else while (r.read_rows(3)) ++spins; } catch (const std::exception &y) { threw = true; what = y.what(); }
  setrlimit(RLIMIT_FSIZE, &o); std::string b = device ? "" : slurp(path); if (!device) unlink(path.c_str()); x.transition();
  if (device || n < size) { x.checked(); if (!threw) x.fail(w + ": no exception, " + std::to_string(b.size()) + " bytes in the file"); if (what.empty()) x.fail(w + ": no message"); if (!device && b.size() > n) throw mc::ToolError{"limit"}; }
  else { if (threw) x.fail(w + ": " + what); if (b != e) x.fail(w + ": the file differs"); x.checked(2); }
}
// many rows and long fields, across whatever buffers there are
static void large(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); static const uint32_t lens[] = {1, 100, 499, 500, 501, 1000, 4095, 4096, 8192, 20000, 32767}; uint32_t L = x.pick(lens), kind = x.choose(4); std::vector<sg::Col> cols{{"s", "", "$", false, L, 0}, {"n", "", "", true, 8, 0}}; size_t len = sg::layout_columns(cols); std::vector<Bytes> rows; size_t n = std::max<size_t>(3, std::min<size_t>(1000, 200000 / L));
  for (size_t i = 0; i < n; ++i) { Bytes r(len, ' '); for (size_t k = 0; k < L; ++k) r[k] = kind == 0 ? 'x' : kind == 1 ? '"' : kind == 2 ? "a,\n\""[(k + i) % 4] : char(1 + (k * 7 + i) % 255); r.replace(cols[1].off, 8, ref::encode_number(f, double(i) / 3)); rows.push_back(r); }
  Bytes file = table_file(f, cols, len, rows, std::max<size_t>(1, 60000 / len)); std::string path = scratch + format("/l%d.csv", int(getpid())), w = format("%zu rows of %u bytes, kind %u", n, L, kind);
  std::string a = to_csv(file); { cs::Reader r(MemSource(share(file)), cppsas7bdat::datasink::csv(path.c_str())); r.read_all(); } std::string b = slurp(path); unlink(path.c_str());
  x.note(w); check_csv(x, w, a, f, cols, all_rows(rows)); if (a != b) x.fail(w + ": the file has other bytes than the stream"); x.outcome(mc::hash(w + f.str()));
}
int main(int argc, char **argv) {
  quiet();
  char t[] = "/tmp/c18-XXXXXX"; if (!mkdtemp(t)) return 2; scratch = t;
  int rc = mc::main_(argc, argv, [] {
    mc::add("histories", histories);
    mc::add("targets", targets);
    mc::add("unwritable", unwritable);
    mc::add("no_room", no_room);
    mc::add("strings", strings);
    mc::add("bytes", bytes);
    mc::add("names", names);
    mc::add("numbers", numbers);
    mc::add("dates", dates);
    mc::add("large", large);
  });
  rmdir(t);
  return rc;
}
