// Reference decoders: what a column must yield for given row bytes. Deliberately boring.
#pragma once
#include "sasgen.hpp"
#include <cstdarg>
#include <set>

namespace ref {
using sg::Bytes;
using sg::Col;
using sg::Fmt;
enum class Kind { unknown, string, number, integer, datetime, date, time };
inline const char *kind_name(Kind k) {
  static const char *n[] = {"unknown", "string", "number", "integer", "datetime", "date", "time"};
  return n[int(k)];
}
inline const std::vector<std::string> &datetime_formats() {
  static const std::vector<std::string> v{"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX", "E8601DN", "E8601DT",
                                          "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
  return v;
}
inline const std::vector<std::string> &date_formats() {
  static const std::vector<std::string> v{
      "DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR",
      "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC",
      "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS",
      "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
  return v;
}
inline const std::vector<std::string> &time_formats() { static const std::vector<std::string> v{"TIME"}; return v; }
inline bool in(const std::vector<std::string> &v, const std::string &s) { for (auto &x : v) if (x == s) return true; return false; }

inline Kind kind(const Col &c) {
  if (!c.num) return Kind::string;
  if (c.len == 1 || c.len == 2) return Kind::integer;
  bool d = c.len >= 3 && c.len <= 8;
  if (in(datetime_formats(), c.format) && d) return Kind::datetime;
  if (in(date_formats(), c.format) && d) return Kind::date;
  if (in(time_formats(), c.format) && d) return Kind::time;
  return d ? Kind::number : Kind::unknown;
}
inline uint64_t number_bits(const Fmt &f, const Bytes &cell) {
  unsigned char b[8] = {0};
  // b[0] is the most significant byte
  size_t n = cell.size();
  for (size_t i = 0; i < n && i < 8; ++i) b[i] = (unsigned char)cell[f.big ? i : n - 1 - i];
  uint64_t u = 0;
  for (int i = 0; i < 8; ++i) u = u << 8 | b[i];
  return u;
}
inline Bytes encode_number(const Fmt &f, double d, size_t n = 8) {
  uint64_t u = sg::dbits(d);
  Bytes r(n, 0);
  for (size_t i = 0; i < n; ++i) { unsigned char by = (unsigned char)(u >> (56 - 8 * i)); r[f.big ? i : n - 1 - i] = char(by); }
  return r;
}
inline double truncated(double d, size_t n) { uint64_t u = sg::dbits(d); if (n < 8) u &= ~((uint64_t(1) << (8 * (8 - n))) - 1); return sg::bitsd(u); }
inline Bytes strip(const Bytes &s) {
  size_t n = s.size();
  auto pad = [](unsigned char c) { return c == 0 || c == ' ' || (c >= 9 && c <= 13); };
  while (n && pad((unsigned char)s[n - 1])) --n;
  return s.substr(0, n);
}
// proleptic Gregorian calendar, days since 1960-01-01
struct Civil { long y; unsigned m, d; };
inline Civil civil(long days) {
  long z = days - 3653 + 719468; // 1960-01-01 is day -3653 of 1970-01-01
  long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = long(yoe) + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  return {y + (m <= 2), m, d};
}
constexpr long MIN_DAY = -204534; // 1400-01-01
constexpr long MAX_DAY = 2936547 + 0; // recomputed by first_day/last_day below
inline long days_of(long y, unsigned m, unsigned d) {
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = unsigned(y - era * 400), doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + long(doe) - 719468 + 3653;
}
inline long first_day() { return days_of(1400, 1, 1); }
inline long last_day() { return days_of(9999, 12, 31); }
inline std::string fmt(const char *f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline std::string date_text(long days) { Civil c = civil(days); return fmt("%04ld-%02u-%02u", c.y, c.m, c.d); }
// microseconds of day or duration
inline std::string time_text(long long us) {
  bool neg = us < 0; unsigned long long u = neg ? (unsigned long long)(-us) : (unsigned long long)us;
  (void)neg;
  unsigned long long s = u / 1000000, fr = u % 1000000;
  std::string r = fmt("%02llu:%02llu:%02llu", s / 3600, s / 60 % 60, s % 60);
  if (fr) r += fmt(".%06llu", fr);
  return r;
}
} // namespace ref
