// C07: dates, datetimes and times.
#include "rows.hpp"
using namespace hx;
struct Val { double v; };
// expected (valid, day, us) of a date column: whole days only
static Instant date_instant(double d) {
  if (!std::isfinite(d) || std::fabs(d) > 1e9) return {false, 0, 0};
  long n = (long)d;
  if (n < ref::first_day() || n > ref::last_day()) return {false, 0, 0};
  return {true, n, 0};
}
static bool same_date(const cs::DATE &d, const Instant &i) {
  if (!i.valid) return d.is_special();
  if (d.is_special()) return false;
  auto c = ref::civil(i.day); auto y = d.year_month_day();
  return int(y.year) == c.y && unsigned(y.month.as_number()) == c.m && unsigned(y.day.as_number()) == c.d;
}
static bool same_time(const cs::TIME &t, const Instant &i) {
  if (!i.valid) return t.is_special();
  return !t.is_special() && t.total_microseconds() == i.us;
}
static bool same_dt(const cs::DATETIME &t, const Instant &i) {
  if (!i.valid) return t.is_special();
  return !t.is_special() && same_date(t.date(), i) && same_time(t.time_of_day(), i);
}
struct ColSpec { std::string fmt; uint32_t w; };
static bool whole(double d) { return !std::isfinite(d) || d == std::floor(d); }
// distance of the fraction from a tie between two microseconds: the exact rounding there is not specified
static bool tie(double s) { if (!std::isfinite(s) || std::fabs(s) > 1e13) return false; double fr = s - std::floor(s), m = fr * 1e6; return std::fabs(m - std::floor(m) - 0.5) < 0.02; }
// every value in every column
static void run(Ctx &x, const sg::Fmt &f, const std::vector<ColSpec> &cs_, const std::vector<double> &vals, size_t start = 1) {
  std::vector<sg::Col> cols;
  for (size_t i = 0; i < cs_.size(); ++i) cols.push_back({"c" + std::to_string(i), "", cs_[i].fmt, true, cs_[i].w, 0});
  size_t len = sg::layout_columns(cols, 1, start);
  sg::Dataset d; d.f = f; d.cols = cols; d.row_length = len;
  auto ms = sg::meta_subs(d, vals.size());
  sg::File fl; fl.h.f = f;
  { sg::Page m; m.subs = ms.all(); fl.pages.push_back(m); }
  for (size_t i = 0; i < vals.size();) {
    sg::Page p; p.type = sg::DATA;
    for (size_t k = 0; k * len < (size_t(1) << 21) && k < 4000 && i < vals.size(); ++k, ++i) { Bytes r(len, char(0xf5)); for (auto &c : cols) r.replace(c.off, c.len, ref::encode_number(f, vals[i], c.len)); p.rows.push_back(r); }
    fl.pages.push_back(p);
  }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  cs::Reader r(MemSource(share(fl.render_all())), RecSink(std::make_shared<Log>()));
  const auto &rc = r.properties().columns;
  x.check(rc.size() == cols.size(), "number of columns");
  std::vector<ref::Kind> kinds;
  for (size_t k = 0; k < cols.size(); ++k) { kinds.push_back(ref::kind(cols[k])); x.check(std::string(type_name(rc[k].type)) == ref::kind_name(kinds[k]), "format " + cols[k].format + format(" width %u reported as %s", cols[k].len, type_name(rc[k].type))); }
  size_t n = 0;
  for (size_t i = 0; i < vals.size(); ++i) {
    auto p = r.read_row_no_sink();
    if (!p) x.fail("row missing");
    for (size_t k = 0; k < cols.size(); ++k) {
      double v = ref::truncated(vals[i], cols[k].len);
      if (std::isnan(vals[i])) v = NAN;
      bool ok = true; std::string got;
      const auto &c = rc[k];
      if (kinds[k] == ref::Kind::date) {
        if (!whole(v)) continue;
        Instant e = date_instant(v);
        ok = same_date(c.get_date(p), e) && same_dt(c.get_datetime(p), e);
        if (!ok) got = show(c.get_date(p)) + " / " + show(c.get_datetime(p)) + " expected " + (e.valid ? show_day(e.day) : "not a date");
      } else {
        if (tie(v)) continue;
        Instant e = instant(v);
        if (kinds[k] == ref::Kind::datetime) {
          ok = same_dt(c.get_datetime(p), e) && same_date(c.get_date(p), e) && same_time(c.get_time(p), e);
          if (!ok) got = show(c.get_datetime(p)) + " / " + show(c.get_date(p)) + " / " + show(c.get_time(p));
        } else { ok = same_time(c.get_time(p), e); if (!ok) got = show(c.get_time(p)); }
        if (!ok) got += " expected " + (e.valid ? show_day(e.day) + format(" %lldus", e.us) : "not a date");
      }
      if (!ok) x.fail(f.str() + " format " + cols[k].format + format(" width %u value %.17g: got ", cols[k].len, v) + got);
      uint64_t u = sg::dbits(v); x.outcome(mc::combine(u, uint64_t(kinds[k]))); ++n;
    }
    if (i % 512 == 0) x.beat();
  }
  x.checked(n);
}
// every day of the calendar, as a date and as datetimes at several times of that day
static void days(Ctx &x) {
  sg::Fmt f = pick_fmt(x, mc::thorough() ? 4 : 2);
  const uint32_t blocks = 64; uint32_t b = x.choose(blocks);
  long a = ref::first_day(), n = ref::last_day() - a + 1, from = a + n * long(b) / blocks, to = a + n * long(b + 1) / blocks;
  std::vector<double> dv, tv;
  static const double T[] = {0, 1, 43200, 86399, 86399.5, 43199.25, 0.75, 36000.001, 86399.999, 3661.125, 59, 60, 3599, 3600};
  for (long d = from; d < to; ++d) { dv.push_back(double(d)); for (size_t k = 0; k < (mc::thorough() ? 6u : 1u); ++k) tv.push_back(double(d) * 86400 + T[size_t(d - from + long(k) * 5) % 14]); }
  x.note(format("%s days %ld to %ld", f.str().c_str(), from, to - 1));
  run(x, f, {{"DATE", 8}, {"YYMMDD", 5}, {"MMDDYY", 4}}, dv);
  run(x, f, {{"DATETIME", 8}, {"TIME", 8}}, tv);
}
// every second of special days
static void seconds(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  static const std::vector<long> D{0, -1, 1, ref::days_of(1400, 1, 1), ref::days_of(9999, 12, 31), ref::days_of(2000, 2, 29), ref::days_of(1900, 2, 28), ref::days_of(1582, 10, 14), ref::days_of(2038, 1, 19), ref::days_of(1969, 12, 31)};
  long d = x.pick(D); uint32_t fr = x.choose(8), part = x.choose(4);
  static const double F[] = {0, 0.5, 0.25, 0.001, 0.999, 0.0001, 1.0 / 64, 0.123456};
  std::vector<double> v;
  for (long s = part * 21600; s < long(part + 1) * 21600; ++s) v.push_back(double(d) * 86400 + double(s) + F[fr]);
  x.note(format("%s seconds of day %ld, fraction %g, part %u", f.str().c_str(), d, F[fr], part));
  run(x, f, {{"DATETIME", 8}, {"TOD", 8}, {"TIME", 8}, {"E8601DT", 7}}, v);
}
// microseconds of a second, in eras where doubles can express them
static void micros(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2); uint32_t part = x.choose(16);
  static const double B[] = {0, 86399, -1, -86400, 1e6, 12345678};
  double base = x.pick(B);
  std::vector<double> v;
  for (long u = part; u < 1000000; u += mc::thorough() ? 16 : 16 * 37) v.push_back(base + double(u) * 1e-6);
  x.note(format("%s microseconds after %g", f.str().c_str(), base));
  run(x, f, {{"DATETIME", 8}, {"TIME", 8}}, v);
}
// every recognised format, every width, special values and the ends of the calendar
static void formats(Ctx &x) {
  static const std::vector<std::string> all = [] { auto v = ref::datetime_formats(); for (auto &s : ref::date_formats()) v.push_back(s); for (auto &s : ref::time_formats()) v.push_back(s); return v; }();
  sg::Fmt f = pick_fmt(x); std::string fm = x.pick(all);
  std::vector<double> v{0, 1, -1, 59, 60, 3600, 86399, 86400, -86400, 21915, 1e9, -1e9, NAN, INFINITY, -INFINITY, 1e10, 1e12, -1e12, 1e13, 1e15, 1e18, 1e19, -1e19, 1e100, -1e100, 1e300, 1.7e308, 5e-324, 4e6, -4e6, 3e6, 4e11, -4e11, 9.2e18, -9.3e18, 2147483647, 2147483648., -2147483648., -2147483649., 4294967296.};
  for (long d : {ref::first_day(), ref::last_day()}) for (long k = -2; k <= 2; ++k) { v.push_back(double(d + k)); for (double s : {0., 1., 86399., 86399.5, 43200.}) v.push_back(double(d + k) * 86400 + s); }
  for (int m = 0; m < 28; ++m) { uint64_t u = 0xFFFF000000000000ull; int c = m == 0 ? '.' : m == 1 ? '_' : 'A' + m - 2; u &= ~(0xffull << 40); u |= uint64_t((unsigned char)~c) << 40; v.push_back(sg::bitsd(u)); }
  std::vector<ColSpec> cs; for (uint32_t w = 3; w <= 8; ++w) cs.push_back({fm, w});
  x.note(f.str() + " format " + fm);
  run(x, f, cs, v);
}
// columns far into the row
static void offsets(Ctx &x) {
  sg::Fmt f = pick_fmt(x); static const size_t S[] = {255, 256, 32767, 65500, 65535, 65536, 131072}; size_t start = x.pick(S);
  x.note(f.str() + format(" columns from offset %zu", start));
  run(x, f, {{"DATE", 8}, {"DATETIME", 8}, {"TIME", 8}, {"DATE", 3}, {"DATETIME", 5}, {"TIME", 4}}, {0, 1, -1, 366, 21915, 86400, 1.5e9, -86400, NAN, 2936547, 59, 253717747199.0, 0.5, INFINITY}, start);
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("every-day", days);
    mc::add("every-second", seconds);
    mc::add("microseconds", micros);
    mc::add("formats-and-limits", formats);
    mc::add("offsets", offsets);
  });
}
