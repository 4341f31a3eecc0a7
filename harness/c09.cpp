// C09: texts of values.
#include "rows.hpp"
using namespace hx;
static std::string us_text(long long us) { return ref::time_text(us); }
static cs::TIME tm_(long long us) { return cs::TIME(0, 0, 0) + boost::posix_time::microseconds(us); }
static void texts(Ctx &x, const sg::Fmt &f, const std::vector<sg::Col> &cols, size_t len, const std::vector<Bytes> &rows, const std::function<bool(size_t, size_t, std::string &)> &want) {
  cs::Reader r(MemSource(share(table_file(f, cols, len, rows))), RecSink(std::make_shared<Log>()));
  const auto &rc = r.properties().columns; x.check(rc.size() == cols.size(), "number of columns");
  for (size_t i = 0; i < rows.size(); ++i) {
    auto p = r.read_row_no_sink(); if (!p) x.fail("row missing");
    for (size_t k = 0; k < cols.size(); ++k) {
      std::string e; if (!want(i, k, e)) continue;
      std::string g = rc[k].to_string(p);
      if (g != e) x.fail(f.str() + " " + cols[k].format + " column holding " + mc::hex(cell(cols[k], rows[i])) + ": text '" + g + "' expected '" + e + "'");
      x.outcome(mc::hash(e)); x.checked();
    }
    if (i % 1024 == 0) x.beat();
  }
}
static void instants(Ctx &x, const sg::Fmt &f, const std::vector<double> &v) {
  std::vector<sg::Col> cols{{"dt", "", "DATETIME", true, 8, 0}, {"t", "", "TIME", true, 8, 0}, {"d", "", "DATE", true, 8, 0}};
  size_t len = sg::layout_columns(cols, 1);
  std::vector<Bytes> rows;
  for (double d : v) { Bytes r(len, '\0'); double day = std::floor(d / 86400); r.replace(cols[0].off, 8, ref::encode_number(f, d)); r.replace(cols[1].off, 8, ref::encode_number(f, d)); r.replace(cols[2].off, 8, ref::encode_number(f, day)); rows.push_back(r); }
  texts(x, f, cols, len, rows, [&](size_t i, size_t k, std::string &e) {
    Instant t = instant(v[i]);
    double fr = (v[i] - std::floor(v[i])) * 1e6; if (k < 2 && std::fabs(fr - std::floor(fr) - 0.5) < 0.02) return false;
    if (k == 2) { double day = std::floor(v[i] / 86400); if (std::isfinite(day) && day >= double(ref::first_day()) && day <= double(ref::last_day())) e = ref::date_text(long(day)); return true; }
    if (t.valid) e = k ? us_text(t.us) : ref::date_text(t.day) + " " + us_text(t.us);
    return true;
  });
}
static void days(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); uint32_t b = x.choose(64); long a = ref::first_day(), n = ref::last_day() - a + 1;
  static const double T[] = {0, 1, 59, 60, 3599, 3600, 35999, 36000, 43200, 86399, 86399.5, 0.25, 0.015625};
  std::vector<double> v;
  for (long d = a + n * long(b) / 64; d < a + n * long(b + 1) / 64; ++d) for (int k = 0; k < (mc::thorough() ? 13 : 1); ++k) v.push_back(double(d) * 86400 + T[(d * 5 + 13000000 + k) % 13]);
  x.note(format("%s days, block %u", f.str().c_str(), b));
  instants(x, f, v);
}
static void seconds(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); static const long D[] = {0, -1, 21915, -204000, 2900000}; long d = x.pick(D); uint32_t part = x.choose(8);
  static const double F[] = {0, 0.5, 0.000001, 0.1, 0.999999, 0.000999};
  double fr = x.pick(F); std::vector<double> v;
  for (long s = part * 10800; s < long(part + 1) * 10800; ++s) v.push_back(double(d) * 86400 + double(s) + fr);
  x.note(format("%s seconds of day %ld + %g", f.str().c_str(), d, fr));
  instants(x, f, v);
}
// no value: no text
static void missing(Ctx &x) {
  sg::Fmt f = pick_fmt(x); std::vector<double> v{NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e18, -1e18, 4e11, -4e11, 1e13, double(ref::last_day() + 1) * 86400, double(ref::first_day()) * 86400 - 1};
  for (int m = 0; m < 28; ++m) { uint64_t u = 0xFFFF000000000000ull; int c = m == 0 ? '.' : m == 1 ? '_' : 'A' + m - 2; u &= ~(0xffull << 40); u |= uint64_t((unsigned char)~c) << 40; v.push_back(sg::bitsd(u)); }
  static const std::vector<std::string> all = [] { auto a = ref::datetime_formats(); for (auto &s : ref::date_formats()) a.push_back(s); for (auto &s : ref::time_formats()) a.push_back(s); return a; }();
  std::string fm = x.pick(all);
  std::vector<sg::Col> cols; for (uint32_t w = 3; w <= 8; ++w) cols.push_back({"c" + std::to_string(w), "", fm, true, w, 0});
  size_t len = sg::layout_columns(cols); std::vector<Bytes> rows;
  v.push_back(0); v.push_back(4096);
  for (double d : v) { Bytes r(len, '\0'); for (auto &c : cols) r.replace(c.off, c.len, ref::encode_number(f, d, c.len)); rows.push_back(r); }
  x.note(f.str() + " " + fm);
  texts(x, f, cols, len, rows, [&](size_t i, size_t k, std::string &e) {
    double d = sg::bitsd(ref::number_bits(f, cell(cols[k], rows[i])));
    auto kd = ref::kind(cols[k]);
    if (kd == ref::Kind::date) { if (std::isfinite(d) && std::floor(d) != d) return false; e = !std::isfinite(d) || std::fabs(d) > 1e9 || d < double(ref::first_day()) || d > double(ref::last_day()) ? "" : ref::date_text(long(d)); return true; }
    Instant t = instant(d);
    if (t.valid) e = kd == ref::Kind::time ? us_text(t.us) : ref::date_text(t.day) + " " + us_text(t.us);
    return true;
  });
}
// free functions: every microsecond fraction, hours of any number of digits
static void fractions(Ctx &x) {
  uint32_t p = x.choose(100); bool dt = x.flag();
  for (long u = long(p) * 10000; u < long(p + 1) * 10000; ++u) {
    long long us = (long long)(u % 86400) * 1000000 + u;
    std::string e = us_text(us), g;
    if (dt) { long d = ref::first_day() + (u * 3) % (ref::last_day() - ref::first_day()); auto c = ref::civil(d); e = ref::date_text(d) + " " + e; g = cs::to_string(cs::DATETIME(cs::DATE((unsigned short)c.y, (unsigned short)c.m, (unsigned short)c.d), tm_(us))); }
    else g = cs::to_string(tm_(us));
    if (g != e) x.fail("text '" + g + "' expected '" + e + "'");
    x.outcome(mc::hash(e));
  }
  x.checked(10000); x.beat();
}
static void durations(Ctx &x) {
  static const std::vector<long> H = [] { std::vector<long> v; for (long h = 0; h <= 1100; ++h) v.push_back(h); for (long b = 10000; b <= 100000000; b *= 10) for (long k = -2; k <= 2; ++k) v.push_back(b + k); v.push_back(2147483647 / 3600); v.push_back(2147483647); return v; }();
  long h = x.pick(H);
  static const int M[] = {0, 1, 9, 10, 59}; static const int F[] = {0, 1, 10, 999, 1000, 123456, 500000, 999999};
  for (int m : M) for (int s : M) for (int f : F) {
    long long us = ((h * 60ll + m) * 60 + s) * 1000000ll + f;
    std::string e = us_text(us), g = cs::to_string(tm_(us));
    if (g != e) x.fail("text '" + g + "' expected '" + e + "'");
    x.outcome(mc::hash(e)); x.checked();
  }
}
static void integers(Ctx &x) {
  sg::Fmt f = pick_fmt(x); std::vector<sg::Col> cols{{"i1", "", "", true, 1, 0}, {"i2", "", "", true, 2, 1}};
  std::vector<Bytes> rows; for (int v = 0; v < 65536; ++v) { Bytes r(3, '\0'); r[0] = char(v); sg::putn(r, 1, uint64_t(v), 2, f.big); rows.push_back(r); }
  texts(x, f, cols, 3, rows, [&](size_t i, size_t k, std::string &e) { e = k ? format("%d", i < 32768 ? int(i) : int(i) - 65536) : format("%d", int(i & 255)); return true; });
}
static void numbers(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); uint32_t part = x.choose(16); std::vector<double> v;
  static const double Ms[] = {1, 1.5, 9.999999, 9.9999995, 2, 1.0000005, 5, 4.9999999, 1.23456789, 3.3333333333333335};
  if (part < 8) { for (int e = -330 + int(part); e <= 308; e += 8) for (double m : Ms) for (int s = 0; s < 2; ++s) { double d = m * std::pow(10, e); v.push_back(s ? -d : d); } }
  else if (part < 12) { for (int b = 0; b < 64; ++b) for (int q = 0; q < 64; ++q) { uint64_t u = (uint64_t(1) << b) | (uint64_t(1) << q); if (part & 1) u |= 0x3ff0000000000000ull; if (part & 2) u ^= 0x4010000000000000ull; v.push_back(sg::bitsd(u)); } }
  else { for (int i = -4000; i <= 4000; ++i) v.push_back(double(i) / (part == 12 ? 1 : part == 13 ? 1000 : part == 14 ? 1e6 : 2e6)); for (double d : {0., -0., double(NAN), double(INFINITY), -double(INFINITY)}) v.push_back(d); }
  std::vector<sg::Col> cols; for (uint32_t w = 3; w <= 8; ++w) cols.push_back({"n" + std::to_string(w), "", w % 2 ? "BEST" : "", true, w, 0});
  cols.push_back({"s", "", "", false, 10, 0});
  size_t len = sg::layout_columns(cols); std::vector<Bytes> rows;
  for (double d : v) { Bytes r(len, '\0'); for (auto &c : cols) if (c.num) r.replace(c.off, c.len, ref::encode_number(f, d, c.len)); else r.replace(c.off, 10, sg::padded(format("%.7g", d).substr(0, 10), 10, ' ')); rows.push_back(r); }
  x.note(format("%s numbers, part %u", f.str().c_str(), part));
  texts(x, f, cols, len, rows, [&](size_t i, size_t k, std::string &e) {
    if (!cols[k].num) { e = ref::strip(cell(cols[k], rows[i])); return true; }
    double d = sg::bitsd(ref::number_bits(f, cell(cols[k], rows[i])));
    if (std::isnan(d)) return false; // no six-decimal form
    e = format("%.6f", d); return true;
  });
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("every-day", days);
    mc::add("every-second", seconds);
    mc::add("no-value", missing);
    mc::add("fractions", fractions);
    mc::add("durations", durations);
    mc::add("integers", integers);
    mc::add("numbers", numbers);
  });
}
