// C08: string columns.
#include "rows.hpp"
using namespace hx;
// one string column of each width w at the given offset, neighbours filled with a non-padding byte
static void run(Ctx &x, const sg::Fmt &f, size_t off, size_t w, const std::vector<Bytes> &vals, char left, char right) {
  std::vector<sg::Col> cols;
  if (off) cols.push_back({"left", "", "", false, uint32_t(off), 0});
  cols.push_back({"s", "", "$", false, uint32_t(w), off});
  cols.push_back({"right", "", "", false, 4, off + w});
  size_t len = off + w + 4;
  std::vector<Bytes> rows;
  for (auto &v : vals) { if (v.size() != w) sg::bug("width"); rows.push_back(Bytes(off, left) + v + Bytes(4, right)); }
  size_t per = std::max<size_t>(1, std::min<size_t>(4000, (1 << 21) / len));
  cs::Reader r(MemSource(share(table_file(f, cols, len, rows, per))), RecSink(std::make_shared<Log>()));
  const auto &rc = r.properties().columns;
  x.check(rc.size() == cols.size(), "number of columns");
  const auto &c = rc[off ? 1 : 0], &right_c = rc[off ? 2 : 1];
  x.check(c.type == cs::Column::Type::string && c.length() == w, "type or length of the column");
  const Bytes lx = ref::strip(Bytes(off, left)), rx = ref::strip(Bytes(4, right));
  for (size_t i = 0; i < vals.size(); ++i) {
    auto p = r.read_row_no_sink();
    if (!p) x.fail("row missing");
    Bytes e = ref::strip(vals[i]); auto g = c.get_string(p);
    auto at = [&] { return f.str() + format(" column of %zu bytes at offset %zu holding %s: ", w, off, mc::hex(vals[i], 200).c_str()); };
    if (g != e) x.fail(at() + "got " + mc::hex(std::string(g), 200) + " expected " + mc::hex(e, 200));
    if (c.to_string(p) != e) x.fail(at() + "its text is " + mc::hex(c.to_string(p), 200));
    if (right_c.get_string(p) != rx || (off && rc[0].get_string(p) != lx)) x.fail(at() + "neighbour changed");
    if (!std::isnan(c.get_number(p)) || c.get_integer(p) != 0 || !c.get_datetime(p).is_special() || !c.get_date(p).is_special() || !c.get_time(p).is_special()) x.fail(at() + "another kind of value is not empty");
    if (i % 1024 == 0) x.beat();
    x.outcome(mc::hash(vals[i]));
  }
  x.checked(vals.size());
}
static const char A[] = {' ', 0, '\t', '\n', 'A', '\xC3', '\xFF', '"'};
// every content of up to 5 (6) bytes over the alphabet
static void contents(Ctx &x) {
  size_t w = 1 + x.choose(mc::thorough() ? 7 : 6);
  sg::Fmt f = pick_fmt(x, 2);
  static const size_t O[] = {0, 1, 7, 12};
  size_t off = x.pick(O);
  bool blank = x.flag();
  Bytes pre;
  if (w >= 4) { pre += x.pick(A); pre += x.pick(A); }
  size_t rest = w - pre.size(), n = 1; for (size_t k = 0; k < rest; ++k) n *= 8;
  std::vector<Bytes> v;
  for (size_t i = 0; i < n; ++i) { Bytes b = pre; size_t q = i; for (size_t k = 0; k < rest; ++k) { b += A[q % 8]; q /= 8; } v.push_back(b); }
  x.note(format("%s all contents of %zu bytes after %s at offset %zu, neighbours %s", f.str().c_str(), w, mc::hex(pre).c_str(), off, blank ? "blank" : "letters"));
  run(x, f, off, w, v, blank ? ' ' : 'L', blank ? ' ' : 'R');
}
// every byte at every position, over several backgrounds
static void bytes(Ctx &x) {
  static const size_t W[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64};
  size_t w = x.pick(W); static const char BG[] = {'a', ' ', 0, '\xE9', '\t'}; uint32_t k = x.choose(9); char bg = k < 5 ? BG[k] : ' '; // then: blanks and NULs mixed in four ways
  sg::Fmt f = pick_fmt(x, mc::thorough() ? 4 : 2);
  std::vector<Bytes> v;
  for (size_t p = 0; p < w; ++p) for (int b = 0; b < 256; ++b) { Bytes s(w, bg); if (k >= 5) for (size_t q = 0; q < w; ++q) if (k == 5 ? q % 2 : k == 6 ? q % 9 == 4 : k == 7 ? q < w / 2 : q >= w / 2) s[q] = 0; s[p] = char(b); v.push_back(s); }
  x.note(format("%s every byte at each of %zu positions over %02x (%u)", f.str().c_str(), w, (unsigned char)bg, k));
  run(x, f, 3, w, v, 'L', 'R');
}
// two-byte endings: every pair of last bytes
static void endings(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); uint32_t hi = x.choose(64); size_t w = x.flag() ? 9 : 2; size_t off = x.choose(2);
  std::vector<Bytes> v;
  for (uint32_t h = hi * 4; h < hi * 4 + 4; ++h) for (int b = 0; b < 256; ++b) { Bytes s(w, 'm'); s[w - 2] = char(h); s[w - 1] = char(b); v.push_back(s); }
  run(x, f, off, w, v, 'L', 'R');
}
// lengths
static void lengths(Ctx &x) {
  static const std::vector<size_t> Ls = [] { std::vector<size_t> v; for (size_t i = 1; i <= 300; ++i) v.push_back(i); for (size_t i : {511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 16384, 32766, 32767, 65534, 65535, 65536, 65537, 100000}) v.push_back(i); return v; }();
  size_t w = x.pick(Ls); sg::Fmt f = pick_fmt(x, 2); size_t off = x.flag() ? 5 : 0; if (off && w < 20 && x.flag()) { static const size_t O[] = {255, 256, 32767, 65535, 65536, 131071}; off = x.pick(O); }
  std::vector<Bytes> v; Bytes n = noise(w, uint32_t(w));
  std::vector<size_t> tails; for (size_t t = 0; t <= w && t <= 40; ++t) tails.push_back(t);
  for (size_t t : {size_t(255), size_t(256), size_t(257), w / 2, w - 1, w}) if (t <= w) tails.push_back(t);
  for (size_t t : tails) for (char c : {' ', '\0', '\n'}) { Bytes s = n; for (size_t k = w - t; k < w; ++k) s[k] = c; v.push_back(s); if (t < w) { s[0] = ' '; v.push_back(s); s[w - t - 1] = 'z'; if (w - t > 2) s[w - t - 2] = ' '; v.push_back(s); } }
  x.note(format("%s width %zu", f.str().c_str(), w));
  run(x, f, off, w, v, 'L', 'R');
}
// many string columns side by side: each width and offset
static void grid(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t step = 1 + x.choose(12), phase = x.choose(8);
  std::vector<sg::Col> cols; size_t o = phase;
  for (uint32_t i = 0; i < 120; ++i) { uint32_t w = 1 + (i * step) % 41; cols.push_back({"c" + std::to_string(i), "", "", false, w, o}); o += w; }
  std::vector<Bytes> rows;
  for (uint32_t k = 0; k < 60; ++k) { Bytes r(o, ' '); for (size_t i = 0; i < cols.size(); ++i) { size_t n = (k + i) % (cols[i].len + 1); r.replace(cols[i].off, n, noise(n, uint32_t(k * 200 + i))); if (k % 3 == 1) for (size_t q = n; q < cols[i].len; ++q) r[cols[i].off + q] = 0; } rows.push_back(r); }
  cs::Reader r(MemSource(share(table_file(f, cols, o, rows, 7))), RecSink(std::make_shared<Log>()));
  const auto &rc = r.properties().columns; x.check(rc.size() == cols.size(), "columns");
  for (auto &row : rows) { auto p = r.read_row_no_sink(); if (!p) x.fail("row missing");
    for (size_t i = 0; i < cols.size(); ++i) { Bytes e = ref::strip(cell(cols[i], row)); if (rc[i].get_string(p) != e) x.fail(format("column %zu at %zu: ", i, size_t(cols[i].off)) + mc::hex(std::string(rc[i].get_string(p))) + " expected " + mc::hex(e)); }
    x.outcome(mc::hash(row)); x.checked(cols.size()); }
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("contents", contents);
    mc::add("every-byte", bytes);
    mc::add("endings", endings);
    mc::add("lengths", lengths);
    mc::add("side-by-side", grid);
  });
}
