// Files made of explicitly encoded rows, observed byte for byte.
#pragma once
#include "common.hpp"
namespace hx {
struct EncRow {
  Bytes enc;                 // as stored (shorter than the row: decompressed by the reader)
  std::vector<Bytes> accept; // rows a reader may deliver; the first is the encoded row
  bool may_throw = false;    // malformed
  int known = -1;            // index into accept of the outcome of a recorded finding
  std::string what;
};
// "all": the whole row as a string; numbers over the last bytes (over everything if the row is short)
inline std::vector<sg::Col> byte_columns(size_t L) {
  std::vector<sg::Col> c;
  c.push_back({"all", "", "", false, uint32_t(L), 0});
  size_t k = L / 8, first = L <= 256 ? 0 : k > 12 ? k - 12 : 0, base = L % 8;
  for (size_t i = first; i < k; ++i) c.push_back({"n" + std::to_string(i), "", "", true, 8, base + 8 * i});
  if (first == 0) for (size_t i = 0; i < base; ++i) c.push_back({"b" + std::to_string(i), "", "", true, 1, i});
  return c;
}
inline bool row_is(const sg::Fmt &f, const std::vector<sg::Col> &sc, const cs::COLUMNS &cols, cs::Column::PBUF p, const Bytes &e) {
  if (cols[0].get_string(p) != ref::strip(e)) return false;
  for (size_t i = 1; i < cols.size(); ++i) {
    if (sc[i].len == 8) {
      double d = cols[i].get_number(p); uint64_t u, w = ref::number_bits(f, e.substr(sc[i].off, 8)); memcpy(&u, &d, 8);
      if (u != w) return false;
    } else if (cols[i].get_integer(p) != (unsigned char)e[sc[i].off]) return false;
  }
  return true;
}
inline std::string row_dump(const std::vector<sg::Col> &sc, const cs::COLUMNS &cols, cs::Column::PBUF p) {
  std::string r = "string=" + mc::hex(std::string(cols[0].get_string(p)), 400) + " tail:";
  for (size_t i = 1; i < cols.size(); ++i) { if (sc[i].len == 8) { double d = cols[i].get_number(p); uint64_t u; memcpy(&u, &d, 8); r += format(" %016llx", (unsigned long long)u); } }
  return r;
}
inline Bytes rows_file(const sg::Fmt &f, sg::Comp comp, size_t L, const std::vector<EncRow> &rows, const std::vector<sg::Col> &cols, size_t per_page, bool on_meta = false) {
  sg::Dataset d; d.f = f; d.comp = comp; d.cols = cols; d.row_length = L;
  auto ms = sg::meta_subs(d, rows.size());
  sg::File fl; fl.h.f = f;
  sg::Page m; m.subs = ms.all(); fl.pages.push_back(m);
  for (size_t i = 0; i < rows.size();) {
    sg::Page p;
    if (on_meta && i == 0) { p = m; fl.pages.clear(); }
    for (size_t k = 0; k < per_page && i < rows.size(); ++k, ++i) {
      sg::Sub s; s.data = rows[i].enc; s.type = 1; s.comp = rows[i].enc.size() < L ? 4 : 0; p.subs.push_back(s);
      if (s.data.size() > L) sg::bug("encoding longer than the row");
    }
    fl.pages.push_back(p);
  }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  return fl.render_all();
}
// reads all rows one by one and compares each; returns how many showed the recorded finding
inline size_t check_rows(Ctx &x, const sg::Fmt &f, sg::Comp comp, size_t L, const std::vector<EncRow> &rows, size_t per_page = 256, bool on_meta = false) {
  auto cols = byte_columns(L);
  auto log = std::make_shared<Log>();
  cs::Reader r(MemSource(share(rows_file(f, comp, L, rows, cols, per_page, on_meta))), RecSink(log));
  const cs::COLUMNS &rc = r.properties().columns;
  x.check(rc.size() == cols.size() && r.properties().row_count == rows.size(), "columns or row count of the file");
  size_t known = 0;
  for (size_t i = 0; i < rows.size(); ++i) {
    x.beat();
    const auto &e = rows[i];
    cs::Column::PBUF p = nullptr; bool threw = false; std::string ex;
    try { p = r.read_row_no_sink(); } catch (const std::exception &q) { threw = true; ex = q.what(); }
    if (threw) {
      if (!e.may_throw) x.fail(format("row %zu (%s): exception '%s' while decoding %s", i, e.what.c_str(), ex.c_str(), mc::hex(e.enc, 200).c_str()));
      if (r.current_row_index() == i) r.skip(1);
      continue;
    }
    if (!p) x.fail(format("row %zu of %zu (%s): end of data instead of the row", i, rows.size(), e.what.c_str()));
    bool ok = false;
    for (size_t k = 0; k < e.accept.size() && !ok; ++k) if (row_is(f, cols, rc, p, e.accept[k])) { ok = true; if (int(k) == e.known && e.accept[k] != e.accept[0]) ++known; }
    if (!ok) x.fail(format("row %zu of %zu (%s), encoded as %s: got %s, expected %s", i, rows.size(), e.what.c_str(), mc::hex(e.enc, 300).c_str(), row_dump(cols, rc, p).c_str(), mc::hex(e.accept[0], 400).c_str()));
    x.outcome(mc::combine(mc::hash(e.enc), mc::hash(e.accept[0])));
  }
  x.check(r.read_row_no_sink() == nullptr, "a row beyond the declared ones");
  x.checked(rows.size());
  return known;
}
// an uncompressed file holding the rows as they are
inline Bytes table_file(const sg::Fmt &f, const std::vector<sg::Col> &cols, size_t row_length, const std::vector<Bytes> &rows, size_t per_page = 4000, const sg::TextPlan &tp = {}, sg::Header h = {}) {
  sg::Dataset d; d.f = f; d.cols = cols; d.row_length = row_length;
  auto ms = sg::meta_subs(d, rows.size(), tp);
  sg::File fl; fl.h = h; fl.h.f = f;
  sg::Page m; m.subs = ms.all(); fl.pages.push_back(m);
  for (size_t i = 0; i < rows.size();) {
    sg::Page p; p.type = sg::DATA;
    for (size_t k = 0; k < per_page && i < rows.size(); ++k, ++i) p.rows.push_back(rows[i]);
    fl.pages.push_back(p);
  }
  size_t need = 0; for (auto &p : fl.pages) need = std::max(need, sg::page_need(f, p));
  fl.h.page_length = uint32_t((need + 63) / 64 * 64);
  return fl.render_all();
}
inline sg::Fmt pick_fmt(Ctx &x, uint32_t n = 4) {
  static const int O[] = {0, 3, 1, 2}; // LE32 BE64 BE32 LE64
  int k = O[x.choose(n)]; sg::Fmt f; f.big = k & 1; f.u64 = k & 2; return f;
}
inline Bytes noise(size_t n, uint32_t seed) {
  Bytes r(n, 0); uint32_t s = seed * 2654435761u + 12345;
  for (size_t i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; r[i] = char(s >> 24); if (r[i] == ' ' || r[i] == 0) r[i] = 'q'; }
  return r;
}
} // namespace hx
