// Glue between the explorer, the generator and the public API of cpp-sas7bdat.
#pragma once
#include "explore.hpp"
#include "ref.hpp"
#include "sasgen.hpp"

#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/version.hpp>
#include <memory>
#include <spdlog/spdlog.h>

namespace hx {
namespace cs = cppsas7bdat;
using mc::Ctx;
using mc::format;
using sg::Bytes;

using Data = std::shared_ptr<const Bytes>;
inline Data share(Bytes b) { return std::make_shared<const Bytes>(std::move(b)); }

// In-memory source with the semantics of a binary file stream. The bytes live in an allocation
// of exactly their size, so that reads beyond it are visible to AddressSanitizer.
struct MemSource {
  Data data;
  size_t pos = 0;
  bool at_eof = false;
  explicit MemSource(Data d) : data(std::move(d)) {}
  bool eof() { return at_eof; }
  bool read_bytes(void *p, const size_t n) {
    if (at_eof) return false;
    size_t k = std::min(n, data->size() - pos);
    if (k) memcpy(p, data->data() + pos, k);
    pos += k;
    if (k < n) { at_eof = true; return false; }
    return true;
  }
};

// ---- canonical text of everything observable about one cell
inline std::string show(double d) { uint64_t u; memcpy(&u, &d, 8); return std::isnan(d) ? "nan" : format("%016llx", (unsigned long long)u); }
inline std::string show_sv(std::string_view s) { return mc::hex(std::string(s), 1 << 20); }
inline std::string show(const cs::DATE &d) {
  if (d.is_special()) return "nad";
  auto y = d.year_month_day();
  return format("%d-%d-%d", int(y.year), int(y.month), int(y.day));
}
inline std::string show(const cs::TIME &t) {
  if (t.is_special()) return "nad";
  return format("%lldus", (long long)t.total_microseconds());
}
inline std::string show(const cs::DATETIME &t) {
  if (t.is_special()) return "nad";
  return show(t.date()) + "T" + show(t.time_of_day());
}
inline const char *type_name(cs::Column::Type t) {
  switch (t) {
  case cs::Column::Type::unknown: return "unknown";
  case cs::Column::Type::string: return "string";
  case cs::Column::Type::number: return "number";
  case cs::Column::Type::integer: return "integer";
  case cs::Column::Type::datetime: return "datetime";
  case cs::Column::Type::date: return "date";
  case cs::Column::Type::time: return "time";
  }
  return "?";
}
// the value of a cell, by the column's own type
inline std::string value(const cs::Column &c, cs::Column::PBUF p) {
  switch (c.type) {
  case cs::Column::Type::string: return "s:" + show_sv(c.get_string(p));
  case cs::Column::Type::number: return "n:" + show(c.get_number(p));
  case cs::Column::Type::integer: return format("i:%d", int(c.get_integer(p)));
  case cs::Column::Type::datetime: return "dt:" + show(c.get_datetime(p));
  case cs::Column::Type::date: return "d:" + show(c.get_date(p));
  case cs::Column::Type::time: return "t:" + show(c.get_time(p));
  default: return "u";
  }
}
struct Instant { bool valid; long day; long long us; }; // day since 1960, microseconds of day
// seconds since 1960 -> instant, by exact splitting
inline Instant instant(double s) {
  if (!std::isfinite(s)) return {false, 0, 0};
  double w = std::floor(s), fr = s - w; // exact
  if (std::fabs(w) > 1e13) return {false, 0, 0};
  long long t = (long long)w, us = llround(fr * 1e6);
  if (us == 1000000) { us = 0; ++t; }
  long long d = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
  long long sod = t - d * 86400;
  if (d < ref::first_day() || d > ref::last_day()) return {false, 0, 0};
  return {true, long(d), sod * 1000000 + us};
}
inline std::string show_day(long d) { auto c = ref::civil(d); return format("%ld-%u-%u", c.y, c.m, c.d); }
inline Bytes cell(const sg::Col &c, const Bytes &row) { return row.substr(c.off, c.len); }
inline std::string expect_value(const sg::Fmt &f, const sg::Col &c, const Bytes &row) {
  Bytes b = cell(c, row);
  switch (ref::kind(c)) {
  case ref::Kind::string: return "s:" + show_sv(ref::strip(b));
  case ref::Kind::number: return "n:" + show(sg::bitsd(ref::number_bits(f, b)));
  case ref::Kind::integer: {
    if (c.len == 1) return format("i:%d", int((unsigned char)b[0]));
    int v = (unsigned char)b[f.big ? 0 : 1] << 8 | (unsigned char)b[f.big ? 1 : 0];
    if (v >= 32768) v -= 65536;
    return format("i:%d", v);
  }
  case ref::Kind::datetime: {
    Instant i = instant(sg::bitsd(ref::number_bits(f, b)));
    return i.valid ? "dt:" + show_day(i.day) + format("T%lldus", i.us) : "dt:nad";
  }
  case ref::Kind::date: {
    double d = sg::bitsd(ref::number_bits(f, b));
    if (!std::isfinite(d) || std::fabs(d) > 1e8) return "d:nad";
    long n = lround(d);
    return n < ref::first_day() || n > ref::last_day() ? "d:nad" : "d:" + show_day(n);
  }
  case ref::Kind::time: {
    Instant i = instant(sg::bitsd(ref::number_bits(f, b)));
    return i.valid ? format("t:%lldus", i.us) : "t:nad";
  }
  default: return "u";
  }
}
inline std::string row_text(const cs::COLUMNS &cols, cs::Column::PBUF p) {
  std::string r;
  for (auto &c : cols) { r += value(c, p); r += '|'; }
  return r;
}
inline std::string expect_row(const sg::Fmt &f, const std::vector<sg::Col> &cols, const Bytes &row) {
  std::string r;
  for (auto &c : cols) { r += expect_value(f, c, row); r += '|'; }
  return r;
}

// ---- a sink that records every notification
struct Event { char kind; size_t index; std::string row; }; // P properties, R row, E end
struct Log {
  std::vector<Event> ev;
  cs::COLUMNS columns;
  const cs::Properties *props = nullptr;
};
struct RecSink {
  std::shared_ptr<Log> log;
  explicit RecSink(std::shared_ptr<Log> l) : log(std::move(l)) {}
  void set_properties(const cs::Properties &p) {
    log->columns = cs::COLUMNS(p.columns);
    log->props = &p;
    log->ev.push_back({'P', p.columns.size(), {}});
  }
  void push_row(const size_t i, cs::Column::PBUF p) { log->ev.push_back({'R', i, row_text(log->columns, p)}); }
  void end_of_data() { log->ev.push_back({'E', 0, {}}); }
};
inline std::string show_log(const std::vector<Event> &ev, size_t max = 40) {
  std::string r;
  for (size_t i = 0; i < ev.size() && i < max; ++i) { r += ev[i].kind; if (ev[i].kind == 'R') r += std::to_string(ev[i].index) + "{" + ev[i].row.substr(0, 80) + "}"; r += ' '; }
  if (ev.size() > max) r += "...";
  return r;
}

inline void quiet() { spdlog::set_level(spdlog::level::off); }
inline void done_case(Ctx &x, uint64_t h) { x.outcome(h); }
} // namespace hx
