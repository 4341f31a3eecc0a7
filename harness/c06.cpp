// C06: numeric columns, every width and byte order.
#include "rows.hpp"
using namespace hx;

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// one file; many rows; columns of one width at the given offsets
struct Spec { sg::Fmt f; uint32_t w; std::vector<size_t> offs; size_t row_length; std::string fmt; };
static void run(Ctx &x, const Spec &s, const std::vector<Bytes> &vals, char around) {
  std::vector<sg::Col> cols;
  for (auto o : s.offs) cols.push_back({"c" + std::to_string(o), "", s.fmt, true, s.w, o});
  cols.push_back({"txt", "", "", false, uint32_t(s.row_length), 0});
  sg::Dataset d; d.f = s.f; d.cols = cols; d.row_length = s.row_length;
  size_t n = (vals.size() + s.offs.size() - 1) / s.offs.size(); // every value at some offset
  auto ms = sg::meta_subs(d, n);
  sg::File fl; fl.h.f = s.f;
  sg::Page m; m.subs = ms.all(); fl.pages.push_back(m);
  std::vector<Bytes> rows;
  for (size_t i = 0; i < n; ++i) {
    Bytes r(s.row_length, around);
    for (size_t k = 0; k < s.offs.size(); ++k) r.replace(s.offs[k], s.w, vals[(i * s.offs.size() + k) % vals.size()]);
    rows.push_back(r);
  }
  for (size_t i = 0; i < n;) { sg::Page p; p.type = sg::DATA; for (size_t k = 0; k < 2000 && i < n; ++k) p.rows.push_back(rows[i++]); fl.pages.push_back(p); }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(s.f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  cs::Reader r(MemSource(share(fl.render_all())), RecSink(std::make_shared<Log>()));
  const auto &rc = r.properties().columns;
  x.check(rc.size() == cols.size(), "number of columns");
  for (size_t k = 0; k < s.offs.size(); ++k) {
    x.check(std::string(type_name(rc[k].type)) == ref::kind_name(ref::kind(cols[k])), format("width %u reported as %s", s.w, type_name(rc[k].type)));
    x.check(rc[k].length() == s.w, "reported length");
  }
  for (size_t i = 0; i < n; ++i) {
    auto p = r.read_row_no_sink();
    if (!p) x.fail(format("row %zu missing", i));
    for (size_t k = 0; k < s.offs.size(); ++k) {
      Bytes c = rows[i].substr(s.offs[k], s.w);
      auto where = [&] { return format("%s width %u at offset %zu, bytes %s: ", s.f.str().c_str(), s.w, s.offs[k], mc::hex(c).c_str()); };
      const auto &col = rc[k];
      if (s.w <= 2) {
        int e = s.w == 1 ? int((unsigned char)c[0]) : int(int16_t(uint16_t((unsigned char)c[s.f.big ? 0 : 1] << 8 | (unsigned char)c[s.f.big ? 1 : 0])));
        if (col.get_integer(p) != e) x.fail(where() + format("integer %d, expected %d", int(col.get_integer(p)), e));
        if (col.get_number(p) != double(e)) x.fail(where() + format("number %g, expected %d", col.get_number(p), e));
      } else {
        uint64_t e = ref::number_bits(s.f, c), g = bits(col.get_number(p));
        if (g != e) x.fail(where() + format("%016llx, expected %016llx", (unsigned long long)g, (unsigned long long)e));
        double v = col.get_number(p);
        if (std::isnan(v) != (((e >> 52 & 0x7ff) == 0x7ff) && (e << 12))) x.fail(where() + "NaN-ness");
        if (s.fmt.empty() && col.get_integer(p) != 0) x.fail(where() + "integer getter of a number is not empty");
      }
      if (!col.get_string(p).empty()) x.fail(where() + "string getter of a number is not empty");
      if (s.fmt.empty() && (!col.get_date(p).is_special() || !col.get_datetime(p).is_special() || !col.get_time(p).is_special())) x.fail(where() + "calendar getters of a number are not empty");
      x.outcome(mc::combine(mc::hash(c), s.w * 64 + (s.f.big ? 1 : 0)));
    }
    const auto &t = rc.back();
    if (!std::isnan(t.get_number(p)) || t.get_integer(p) != 0 || !t.get_date(p).is_special() || !t.get_datetime(p).is_special() || !t.get_time(p).is_special()) x.fail("getters of a string column are not empty");
    if (i % 256 == 0) x.beat();
  }
  x.checked(n * s.offs.size());
}
// leading two bytes: every value; the others from patterns
static void leading(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t w = 3 + x.choose(6); uint32_t tail = x.choose(mc::thorough() ? 8 : 4), part = x.choose(4);
  std::vector<Bytes> vals;
  for (uint32_t v = part * 16384; v < (part + 1) * 16384; ++v) {
    Bytes b(8, 0);
    for (size_t i = 2; i < 8; ++i) { static const unsigned char P[8][2] = {{0, 0}, {0xff, 0xff}, {0x01, 0x80}, {0x5a, 0xa5}, {0x20, 0x40}, {0x7f, 0xf0}, {0x12, 0x34}, {0xfe, 0x01}}; b[i] = char(P[tail][i % 2] + (tail == 3 ? i * 17 : 0)); }
    b[0] = char(v >> 8); b[1] = char(v & 255); b.resize(w);
    if (!f.big) std::reverse(b.begin(), b.end());
    vals.push_back(b);
  }
  Spec s{f, w, {0, w + 1, 2 * w + 3, 3 * w + 8}, 4 * w + 8, ""};
  x.note(format("%s width %u tail pattern %u block %u", f.str().c_str(), w, tail, part));
  run(x, s, vals, tail % 2 ? char(0xff) : char(0x41));
}
// every byte position x every byte value, over base values; at every offset 0..16; neighbours of both kinds
static void positions(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t w = 1 + x.choose(8); size_t off = x.choose(17); char around = x.flag() ? char(0xff) : char(0);
  static const double B[] = {0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, INFINITY, -INFINITY, 123456789.0};
  std::vector<Bytes> vals;
  for (double d : B) for (size_t i = 0; i < w; ++i) for (int v = 0; v < 256; ++v) {
    Bytes b = ref::encode_number(f, d, w); b[i] = char(v); vals.push_back(b);
  }
  // the missing values: . ._ .A to .Z
  for (int m = 0; m < 28; ++m) { uint64_t u = 0xFFFF000000000000ull; int c = m == 0 ? '.' : m == 1 ? '_' : 'A' + m - 2; u &= ~(0xffull << 40); u |= uint64_t((unsigned char)~c) << 40; Bytes b(w, 0); for (size_t i = 0; i < w; ++i) b[f.big ? i : w - 1 - i] = char(u >> (56 - 8 * i)); if (w >= 3) vals.push_back(b); }
  Spec s{f, w, {off}, off + w + 3, ""};
  x.note(format("%s width %u offset %zu", f.str().c_str(), w, off));
  run(x, s, vals, around);
}
static void small(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t w = 1 + x.choose(2); size_t off = x.choose(9);
  std::vector<Bytes> vals;
  for (uint32_t v = 0; v < (w == 1 ? 256u : 65536u); ++v) vals.push_back(w == 1 ? Bytes(1, char(v)) : Bytes{char(v & 255), char(v >> 8)});
  Spec s{f, w, {off, off + w, off + 2 * w + 1}, off + 3 * w + 2, x.flag() ? "BEST" : ""};
  x.note(format("%s width %u offset %zu: all values", f.str().c_str(), w, off));
  run(x, s, vals, char(0xff));
}
// numeric columns with calendar formats or odd formats still give their number
static void formats(Ctx &x) {
  sg::Fmt f = pick_fmt(x); uint32_t w = 1 + x.choose(8);
  static const std::vector<std::string> F{"BEST", "COMMA", "DOLLAR", "DATE", "DATETIME", "TIME", "TOD", "F", "DATEX", "date", "$", "PERCENT", "YYMMDD", "E8601DT"};
  std::string fm = x.pick(F);
  std::vector<Bytes> vals;
  for (double d : {0.0, 1.0, -1.0, 21915.0, 1.9e9, 3661.0, 0.5, 1e20, -1e20, (double)INFINITY, (double)-INFINITY}) vals.push_back(ref::encode_number(f, d, w));
  vals.push_back(Bytes(w, char(0xff)));
  static const size_t O[] = {3, 255, 256, 32767, 65532, 65535, 65536, 131074};
  size_t off = fm == "BEST" || fm == "DATE" || fm == "DATETIME" || fm == "TIME" ? x.pick(O) : 3;
  Spec s{f, w, {off}, off + w + 1, fm};
  x.note(format("%s width %u format %s offset %zu", f.str().c_str(), w, fm.c_str(), off));
  run(x, s, vals, 'N');
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("leading-bytes", leading);
    mc::add("byte-positions", positions);
    mc::add("all-small-integers", small);
    mc::add("formats", formats);
  });
}
