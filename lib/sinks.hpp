// What the text sinks must write.
#pragma once
#include "ops.hpp"
#include "rows.hpp"
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <sstream>
namespace hx {
inline std::string mon_date(long day) { static const char *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; auto c = ref::civil(day); return format("%04ld-%s-%02u", c.y, M[c.m - 1], c.d); }
inline std::string mon_datetime(double s) { Instant i = instant(s); return i.valid ? mon_date(i.day) + " " + ref::time_text(i.us) : std::string("not-a-date-time"); }
// records of fields; a field knows whether it was quoted. Strict RFC 4180 with LF line ends.
struct Field { std::string text; bool quoted = false; };
inline std::vector<std::vector<Field>> parse_csv(const std::string &s, std::string &err) {
  std::vector<std::vector<Field>> out; size_t i = 0;
  while (i < s.size()) {
    std::vector<Field> rec;
    while (true) {
      Field f;
      if (i < s.size() && s[i] == '"') {
        f.quoted = true; ++i;
        while (true) {
          if (i >= s.size()) { err = "unterminated quotes"; return out; }
          if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f.text += '"'; i += 2; continue; } ++i; break; }
          f.text += s[i++];
        }
        if (i < s.size() && s[i] != ',' && s[i] != '\n') { err = format("text after a quoted field at byte %zu", i); return out; }
      } else while (i < s.size() && s[i] != ',' && s[i] != '\n') { if (s[i] == '"') { err = format("quote within a field at byte %zu", i); return out; } f.text += s[i++]; }
      rec.push_back(f);
      if (i >= s.size()) { err = "no line end at the end"; out.push_back(rec); return out; }
      if (s[i++] == '\n') break;
    }
    out.push_back(rec);
  }
  return out;
}
// empty if the field holds the cell's value
inline std::string field_differs(const sg::Fmt &f, const sg::Col &c, const Bytes &row, const Field &g) {
  Bytes b = cell(c, row);
  auto bad = [&](const std::string &w) { return "'" + g.text + "' instead of '" + w + "'"; };
  auto number = [&](double d) -> std::string {
    if (std::isnan(d)) return g.text.empty() ? "" : bad("");
    char *e = nullptr; double v = strtod(g.text.c_str(), &e); uint64_t a, w; memcpy(&a, &v, 8); memcpy(&w, &d, 8);
    return g.text.empty() || *e || a != w ? bad(format("%.17g", d)) : std::string();
  };
  switch (ref::kind(c)) {
  case ref::Kind::string: { std::string w(ref::strip(b)); return g.text == w ? "" : bad(w); }
  case ref::Kind::number: return number(sg::bitsd(ref::number_bits(f, b)));
  case ref::Kind::integer: { std::string w = expect_value(f, c, row).substr(2); return g.text == w ? "" : bad(w); }
  case ref::Kind::datetime: { std::string w = mon_datetime(sg::bitsd(ref::number_bits(f, b))); if (w[0] == 'n' && g.text.empty()) return ""; return g.text == w ? "" : bad(w); }
  case ref::Kind::date: { double d = sg::bitsd(ref::number_bits(f, b)); bool ok = std::isfinite(d) && d >= double(ref::first_day()) && d <= double(ref::last_day()); std::string w = ok ? mon_date(long(d)) : "not-a-date-time"; if (!ok && g.text.empty()) return ""; return g.text == w ? "" : bad(w); }
  case ref::Kind::time: { Instant i = instant(sg::bitsd(ref::number_bits(f, b))); std::string w = i.valid ? ref::time_text(i.us) : "not-a-date-time"; if (!i.valid && g.text.empty()) return ""; return g.text == w ? "" : bad(w); }
  default: return "";
  }
}
// the whole output against the rows that were pushed
inline void check_csv(Ctx &x, const std::string &what, const std::string &out, const sg::Fmt &f, const std::vector<sg::Col> &cols, const std::vector<const Bytes *> &rows) {
  std::string err; auto recs = parse_csv(out, err);
  auto bad = [&](const std::string &s) { x.fail(what + ": " + s); };
  if (!err.empty()) bad(err);
  if (recs.size() != rows.size() + 1) bad(format("%zu lines for %zu rows", recs.size(), rows.size()));
  if (recs[0].size() != cols.size()) bad(format("the header has %zu fields for %zu columns", recs[0].size(), cols.size()));
  for (size_t k = 0; k < cols.size(); ++k) if (recs[0][k].text != cols[k].name) bad("the header names '" + recs[0][k].text + "' instead of '" + cols[k].name + "'");
  for (size_t i = 0; i < rows.size(); ++i) {
    if (recs[i + 1].size() != cols.size()) bad(format("row line %zu has %zu fields for %zu columns", i, recs[i + 1].size(), cols.size()));
    for (size_t k = 0; k < cols.size(); ++k) { auto d = field_differs(f, cols[k], *rows[i], recs[i + 1][k]); if (!d.empty()) bad(format("row line %zu, column ", i) + cols[k].name + ": " + d); }
  }
  x.checked(rows.size() * cols.size() + cols.size());
}
inline std::vector<const Bytes *> all_rows(const std::vector<Bytes> &v) { std::vector<const Bytes *> r; for (auto &b : v) r.push_back(&b); return r; }
// the listing: everything up to and including the line of the column names
inline std::string listing_head(const sg::Header &h, const std::string &comp, const std::string &creator, const std::string &proc, size_t row_count, const std::vector<sg::Col> &cols, const std::string &encoding = "UTF-8") {
  std::string o = "Properties:\n";
  auto L = [&](const char *k, const std::string &v) { o += std::string("  ") + k + ": " + v + "\n"; };
  auto t = [](const Bytes &b) { return std::string(ref::strip(b)); };
  L("format", h.f.u64 ? "64bits" : "32bits"); L("endianness", h.f.big ? "big" : "little"); L("platform", h.platform == '1' ? "unix" : h.platform == '2' ? "windows" : "unknown");
  L("date created", mon_datetime(h.created)); L("date modified", mon_datetime(h.modified)); L("dataset name", t(h.dataset)); L("encoding", encoding); L("file type", t(h.ftype)); L("SAS release", t(h.release)); L("SAS server type", t(h.server)); L("OS type", t(h.os_type)); L("OS name", t(h.os_name.empty() ? h.os_name2 : h.os_name));
  L("compression", comp); L("creator", creator); L("creator proc", proc); L("row count", std::to_string(row_count)); L("column count", std::to_string(cols.size()));
  o += "Columns:\n";
  for (size_t i = 0; i < cols.size(); ++i) o += format("  - column #%zu\n    name: ", i) + cols[i].name + "\n    label: " + cols[i].label + "\n    format: " + cols[i].format + "\n    type: " + ref::kind_name(ref::kind(cols[i])) + "\n";
  o += "Data:\n#"; for (auto &c : cols) o += "," + c.name;
  return o + "\n";
}
// the text of a cell; false: left open
inline bool cell_text(const sg::Fmt &f, const sg::Col &c, const Bytes &row, std::string &e) {
  Bytes b = cell(c, row);
  switch (ref::kind(c)) {
  case ref::Kind::string: e = ref::strip(b); return true;
  case ref::Kind::integer: e = expect_value(f, c, row).substr(2); return true;
  case ref::Kind::datetime: { Instant i = instant(sg::bitsd(ref::number_bits(f, b))); e = i.valid ? ref::date_text(i.day) + " " + ref::time_text(i.us) : ""; return true; }
  case ref::Kind::date: { double d = sg::bitsd(ref::number_bits(f, b)); e = std::isfinite(d) && d >= double(ref::first_day()) && d <= double(ref::last_day()) ? ref::date_text(long(d)) : ""; return true; }
  case ref::Kind::time: { Instant i = instant(sg::bitsd(ref::number_bits(f, b))); e = i.valid ? ref::time_text(i.us) : ""; return true; }
  default: return false;
  }
}
inline const char *comp_text(sg::Comp c) { return c == sg::Comp::none ? "none" : c == sg::Comp::rle ? "RLE" : "RDC"; }
struct Line { size_t index; const Bytes *row; };
// the lines of rows; numbers as the library itself renders them (their text is C09's matter), read by other means
inline std::string row_lines(Ctx &x, const sg::Fmt &f, const std::vector<sg::Col> &cols, const std::vector<Line> &rows, const Bytes &file) {
  std::string o; cs::Reader r2(MemSource(share(file)), RecSink(std::make_shared<Log>())); cs::COLUMNS c2(r2.properties().columns); bool lib = false; for (auto &c : cols) if (ref::kind(c) == ref::Kind::number) lib = true;
  for (auto &l : rows) {
    cs::Column::PBUF p = nullptr; if (lib) { if (r2.current_row_index() > l.index) x.fail("order of the rows"); r2.skip(l.index - r2.current_row_index()); p = r2.read_row_no_sink(); if (!p) x.fail("row missing"); }
    o += std::to_string(l.index);
    for (size_t k = 0; k < cols.size(); ++k) {
      std::string t; if (!cell_text(f, cols[k], *l.row, t)) {
        t = c2[k].to_string(p); double d = sg::bitsd(ref::number_bits(f, cell(cols[k], *l.row)));
        if (!std::isnan(d)) { char *e = nullptr; double v = strtod(t.c_str(), &e); uint64_t a, b; memcpy(&a, &v, 8); memcpy(&b, &d, 8); if (t.empty() || *e || a != b) x.fail("number " + t); }
      }
      o += "," + t;
    }
    o += "\n";
  }
  return o;
}
inline void compare(Ctx &x, const std::string &what, const std::string &out, const std::string &want) {
  x.checked(); if (out == want) return;
  size_t i = 0; while (i < out.size() && i < want.size() && out[i] == want[i]) ++i;
  auto line = [&](const std::string &s) { size_t a = i ? s.rfind('\n', i - 1) : std::string::npos; a = a == std::string::npos || a > s.size() ? 0 : a + 1; size_t b = s.find('\n', i); if (b == std::string::npos) b = s.size(); if (a > s.size()) a = s.size(); if (b < a) b = a; return "'" + s.substr(a, std::min<size_t>(300, b - a)) + "'" + (b == s.size() ? " (end)" : ""); };
  x.fail(what + format(": byte %zu of %zu (expected %zu) differs: ", i, out.size(), want.size()) + line(out) + " instead of " + line(want));
}
inline std::vector<Line> lines_of(const std::vector<Bytes> &v) { std::vector<Line> r; for (size_t i = 0; i < v.size(); ++i) r.push_back({i, &v[i]}); return r; }
inline const char *zoo_proc(const Case &c) { return c.l.comp == sg::Comp::rdc ? "" : "DATASTEP"; }
inline std::string want_of(Ctx &x, const Case &c, const std::vector<Line> &rows) { return listing_head(c.h, comp_text(c.l.comp), "", zoo_proc(c), c.row_count, c.cols) + row_lines(x, c.l.f, c.cols, rows, c.bytes); }
} // namespace hx
