// C14: corrupted files.
#include "ops.hpp"
#include "alloc.hpp"
using namespace hx;
static uint64_t g_sum;
static void touch(const cs::Column &c, cs::Column::PBUF p) {
  auto guard = [&](auto &&fn) { try { fn(); } catch (const std::exception &) {} };
  guard([&] { auto s = c.get_string(p); g_sum = mc::hash(s.data(), s.size(), g_sum); });
  guard([&] { double d = c.get_number(p); g_sum = mc::hash(&d, 8, g_sum); });
  guard([&] { int d = c.get_integer(p); g_sum = mc::hash(&d, sizeof d, g_sum); });
  guard([&] { g_sum += c.get_date(p).is_special(); });
  guard([&] { g_sum += c.get_datetime(p).is_special(); });
  guard([&] { g_sum += c.get_time(p).is_special(); });
  guard([&] { auto s = c.to_string(p); g_sum = mc::hash(s, g_sum); });
}
struct TouchSink {
  cs::COLUMNS cols; size_t *rows;
  explicit TouchSink(size_t *r) : rows(r) {}
  void set_properties(const cs::Properties &p) { cols = cs::COLUMNS(p.columns); }
  void push_row(size_t i, cs::Column::PBUF p) { ++*rows; g_sum += i; size_t n = 0; for (auto &c : cols) { touch(c, p); if (++n == 64) break; } }
  void end_of_data() {}
};
static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
// every operation on whatever the bytes are
static void abuse(Ctx &x, const Bytes &bytes, const std::function<std::string()> &what, bool valid = false) {
  double t0 = cpu();
  mem::cap = size_t(64) << 20;
  g_sum = 0; size_t rows = 0; uint64_t end = 0;
  auto t = [&](auto &&fn) { try { fn(); return true; } catch (const std::exception &e) { end = mc::combine(end, mc::hash(std::string(e.what()).substr(0, 12))); return false; } };
  {
    std::unique_ptr<cs::Reader> r;
    auto src = MemSource(share(bytes));
    if (t([&] { r = std::make_unique<cs::Reader>(std::move(src), TouchSink(&rows)); })) {
      const auto &P = r->properties();
      for (auto *s : {&P.dataset_name, &P.file_type, &P.sas_release, &P.sas_server_type, &P.os_type, &P.os_name, &P.encoding, &P.creator, &P.creator_proc}) g_sum = mc::hash(*s, g_sum);
      t([&] { g_sum = mc::hash(cs::to_string(P.date_created), g_sum); }); t([&] { g_sum = mc::hash(cs::to_string(P.date_modified), g_sum); });
      for (auto &c : P.columns) g_sum = mc::hash(c.name + c.label + c.format, g_sum) + uint64_t(c.type);
      auto peek = [&] { t([&] { if (const void *p = r->read_row_no_sink()) { size_t n = 0; for (auto &c : r->properties().columns) { touch(c, p); if (++n == 64) break; } } }); };
      peek(); t([&] { r->read_row(); }); t([&] { r->skip(1); }); peek();
      size_t b = r->current_row_index();
      t([&] { r->read_rows(60); });
      if (r->current_row_index() > b + 60) x.fail(what() + ": read_rows(60) consumed more rows");
      t([&] { r->skip(100); }); t([&] { r->read_rows(2); });
      t([&] { r->end_of_data(); }); peek(); t([&] { r->skip(3); }); t([&] { r->read_rows(3); });
      // an exception is not the end: everything can be called again
      for (int k = 0; k < 4; ++k) t([&] { r->read_row(); });
    } else if (valid) x.fail(what() + ": refused");
  }
  double dt = cpu() - t0;
  if (dt > 5) x.fail(what() + format(": took %.1f s of CPU time for a file of %zu bytes", dt, bytes.size()));
  x.checked(); x.transition(16);
  x.state(mc::combine(end, g_sum)); // distinct behaviours observed
}
static const Case &small(Ctx &x, uint32_t nf, int only = -1) {
  auto fs = all_formats(); sg::Fmt f = nf >= fs.size() ? x.pick(fs) : x.pick(std::vector<sg::Fmt>(nf == 1 ? std::vector<sg::Fmt>{fs[0]} : std::vector<sg::Fmt>{fs[0], fs[7]}));
  auto ls = zoo(f); for (auto &l : ls) l.slack = 0;
  return cached(only >= 0 ? ls[size_t(only)] : x.pick(ls));
}
static void bytes_(Ctx &x) {
  const Case &c = small(x, mc::thorough() ? 8 : 2);
  static const int vals[] = {0x00, 0xFF, -1, -0x80, -256, -257, 0x7F, 0x20, 0x04, -0x40};
  const uint32_t B = 32; uint32_t b = x.choose(uint32_t((c.bytes.size() + B - 1) / B)), o = b * B + x.choose(std::min<uint32_t>(B, uint32_t(c.bytes.size()) - b * B));
  // the filler between what is stored is not worth more than one value
  uint32_t k = x.choose(mc::thorough() ? 10 : 6); uint8_t v, was = uint8_t(c.bytes[o]);
  switch (vals[k]) { case -256: v = uint8_t(was + 1); break; case -257: v = uint8_t(was - 1); break; default: v = vals[k] < 0 ? uint8_t(was ^ -vals[k]) : uint8_t(vals[k]); }
  Bytes d = c.bytes; d[o] = char(v); if (v == was) x.prune();
  auto what = [&] { return c.l.str() + format(" byte %u set to %02x", o, v); };
  x.note(what()); x.outcome(mc::hash(what())); abuse(x, d, what);
}
// ---- the numbers that steer the reader, found by walking the pages
struct Field { size_t off; uint32_t size; std::string name; };
static uint64_t get(const Bytes &b, size_t o, size_t n, bool big) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= uint64_t(uint8_t(b[o + (big ? n - 1 - i : i)])) << (8 * i); return v; }
static const std::vector<Field> &fields(const Case &c) {
  static std::map<const Case *, std::vector<Field>> m; auto &v = m[&c]; if (!v.empty()) return v;
  const sg::Fmt &f = c.l.f; size_t a = f.align1(), I = f.isz(), bo = f.bit_offset(); const Bytes &b = c.bytes; auto S = sg::sigs(f);
  auto add = [&](size_t o, uint32_t n, std::string s) { v.push_back({o, n, s}); };
  add(32, 1, "header.word-size"); add(35, 1, "header.alignment"); add(37, 1, "header.endian"); add(70, 1, "header.encoding");
  add(196 + a, 4, "header.length"); add(200 + a, 4, "header.page_length"); add(204 + a, 4, "header.page_count");
  for (size_t pg = 0, p = c.h.header_length; p + c.h.page_length <= b.size(); ++pg, p += c.h.page_length) {
    std::string n = format("page%zu", pg); add(p + bo, 2, n + ".type"); add(p + bo + 2, 2, n + ".blocks"); add(p + bo + 4, 2, n + ".subheaders");
    size_t ns = get(b, p + bo + 4, 2, f.big); if (get(b, p + bo, 2, f.big) == sg::DATA) ns = 0;
    size_t fmts = 0;
    for (size_t k = 0; k < ns; ++k) {
      size_t q = p + bo + 8 + k * 3 * I, off = get(b, q, I, f.big), len = get(b, q + I, I, f.big); std::string s = n + format(".sub%zu", k);
      Bytes sg_ = len >= I && off + len <= c.h.page_length ? b.substr(p + off, I) : Bytes(); size_t o = p + off;
      bool isfmt = sg_ == S.fmt; if (isfmt && fmts++ > 0) continue; // one format subheader stands for the others
      add(q, uint32_t(I), s + ".offset"); add(q + I, uint32_t(I), s + ".length"); add(q + 2 * I, 1, s + ".compression"); add(q + 2 * I + 1, 1, s + ".type");
      if (sg_.empty()) continue;
      if (sg_ == S.rowsize) { add(o + 5 * I, uint32_t(I), "row_length"); add(o + 6 * I, uint32_t(I), "row_count"); add(o + 9 * I, uint32_t(I), "col_p1"); add(o + 10 * I, uint32_t(I), "col_p2"); add(o + 15 * I, uint32_t(I), "mix_rows"); add(o + (f.u64 ? 682 : 354), 2, "lcs"); add(o + (f.u64 ? 706 : 378), 2, "lcp"); }
      else if (sg_ == S.colsize) add(o + I, uint32_t(I), "column_count");
      else if (sg_ == S.text) { add(o + I, 2, "text.size"); add(o + I + 12, 4, "text.magic"); }
      else if (sg_ == S.name) { add(o + I, 2, "name.size"); for (size_t j = 0; j < 2; ++j) if (j < c.cols.size()) for (size_t z = 0; z < 3; ++z) add(o + I + 8 + 8 * j + 2 * z, 2, format("name%zu.%zu", j, z)); }
      else if (sg_ == S.attr) { add(o + I, 2, "attr.size"); for (size_t j = 0; j < 2; ++j) if (j < c.cols.size()) { size_t z = o + I + 8 + (I + 8) * j; add(z, uint32_t(I), format("attr%zu.offset", j)); add(z + I, 4, format("attr%zu.length", j)); add(z + I + 6, 1, format("attr%zu.type", j)); } }
      else if (isfmt) for (size_t z = 0; z < 6; ++z) add(o + 3 * I + 22 + 2 * z, 2, format("fmt.%zu", z));
      if (I && sg_.size()) add(o, uint32_t(I), s + ".signature");
    }
  }
  return v;
}
static void put(const sg::Fmt &f, Bytes &b, const Field &d, uint64_t v) { sg::putn(b, d.off, v, d.size, f.big); }
static const size_t NV = 10, NQ = 5;
static uint64_t boundary(const Case &c, const Field &d, size_t k) {
  uint64_t was = get(c.bytes, d.off, d.size, c.l.f.big), max = d.size == 8 ? UINT64_MAX : (uint64_t(1) << (8 * d.size)) - 1;
  switch (k) { case 0: return 0; case 1: return max; case 2: return was + 1; case 3: return was - 1; case 4: return max / 2 + 1; case 5: return was * 2; case 6: return c.h.page_length; case 7: return c.h.page_length - 1; case 8: return max / 2; default: return c.row_length + 1; }
}
static void single(Ctx &x) {
  const Case &c = small(x, 8); auto &fs = fields(c); const Field &a = fs[x.choose(uint32_t(fs.size()))]; size_t k = x.choose(uint32_t(NV + (a.size <= 2 ? 8 : 64)));
  uint64_t v = k < NV ? boundary(c, a, k) : a.size <= 2 ? uint64_t(1) << ((k - NV) * a.size) : k - NV < 8 * a.size ? uint64_t(1) << (k - NV) : (x.prune(), 0);
  Bytes d = c.bytes; put(c.l.f, d, a, v); auto what = [&] { return c.l.str() + " " + a.name + format(" = %llx", (unsigned long long)v); };
  x.note(what()); x.outcome(mc::hash(what())); abuse(x, d, what);
}
static void pairs(Ctx &x) {
  const Case *pc; uint32_t w = x.choose(mc::thorough() ? 11 : 4), nv = mc::thorough() ? 8 : NQ;
  { static const int pick[] = {1, 4, 6, 0}; pc = &small(x, mc::thorough() ? 2 : 1, mc::thorough() ? int(w) : pick[w]); }
  const Case &c = *pc; auto &fs = fields(c); uint32_t i = x.choose(uint32_t(fs.size() - 1)), j = i + 1 + x.choose(uint32_t(fs.size()) - i - 1);
  uint32_t k = x.choose(nv), l = x.choose(nv);
  uint64_t u = boundary(c, fs[i], k), v = boundary(c, fs[j], l);
  Bytes d = c.bytes; put(c.l.f, d, fs[i], u); put(c.l.f, d, fs[j], v);
  auto what = [&] { return c.l.str() + " " + fs[i].name + format(" = %llx, ", (unsigned long long)u) + fs[j].name + format(" = %llx", (unsigned long long)v); };
  if (x.want_desc) x.note(what()); x.outcome(mc::combine(mc::combine(w, uint64_t(i) << 20 | j), uint64_t(k) << 8 | l) ^ mc::hash(c.l.str())); abuse(x, d, what);
}
// pages in any order, repeated or missing
static void pages(Ctx &x) {
  const Case &c = small(x, mc::thorough() ? 8 : 2); size_t n = (c.bytes.size() - c.h.header_length) / c.h.page_length; size_t len = x.choose(mc::thorough() ? 6 : 5);
  Bytes d = c.bytes.substr(0, c.h.header_length); std::string s;
  for (size_t k = 0; k < len; ++k) { size_t p = x.choose(uint32_t(n)); d += c.bytes.substr(c.h.header_length + p * c.h.page_length, c.h.page_length); s += format(" %zu", p); }
  auto what = [&] { return c.l.str() + " pages" + s; };
  x.note(what()); x.outcome(mc::hash(what())); abuse(x, d, what);
}
// bytes lost or added
static void shifts(Ctx &x) {
  const Case &c = small(x, mc::thorough() ? 8 : 2); const uint32_t B = 64; uint32_t b = x.choose(uint32_t((c.bytes.size() + B - 1) / B));
  static const int ns[] = {-1, 1, -2, -4, -8, 4, 512, -512}; int n = ns[x.choose(mc::thorough() ? 8 : 2)];
  for (uint32_t o = b * B; o < (b + 1) * B && o < c.bytes.size(); o += mc::thorough() ? 1 : 2) {
    Bytes d = c.bytes; if (n < 0) d.erase(o, size_t(-n)); else d.insert(o, size_t(n), '\x01');
    auto what = [&] { return c.l.str() + format(" %d bytes at %u", n, o); };
    x.outcome(mc::hash(what())); abuse(x, d, what);
  }
  x.note(c.l.str() + format(" %d bytes at %u..", n, b * B));
}
// no file at all: short and constant contents
static void nofile(Ctx &x) {
  uint32_t kind = x.choose(4); sg::Fmt f; f.u64 = x.flag(); f.big = x.flag(); f.a1 = x.flag(); sg::Header h; h.f = f; Bytes b;
  static const size_t ns[] = {0, 1, 31, 32, 35, 36, 64, 163, 164, 200, 287, 288, 289, 300, 1023, 1024, 4096, 8192, 20000};
  static const uint32_t lens[] = {0, 1, 32, 287, 288, 296, 1024, 0x7FFFFFFF, 0xFFFFFFFF};
  if (kind == 0) b = Bytes(x.pick(ns), char(x.pick({0, 1, 32, 255})));
  else {
    b = h.render(); uint32_t hl = x.pick(lens), pl = x.pick(lens), pc = x.pick(lens); size_t a = f.align1();
    sg::put32(f, b, 196 + a, hl); sg::put32(f, b, 200 + a, pl); sg::put32(f, b, 204 + a, pc);
    b += kind == 1 ? Bytes(4096, 0) : kind == 2 ? Bytes(4096, '\xff') : Bytes(); if (kind == 3) { if (hl || pl || pc) b.resize(std::min<size_t>(b.size(), hl % 1025)); }
  }
  auto what = [&] { return format("kind %u size %zu ", kind, b.size()) + f.str() + mc::hex(b.substr(196, 20)); };
  if (b.size() < 200) { auto w = [&] { return format("kind %u size %zu ", kind, b.size()); }; x.note(w()); x.outcome(mc::hash(b)); abuse(x, b, w); return; }
  x.note(what()); x.outcome(mc::hash(b)); abuse(x, b, what);
}
// a piece of metadata (or a compressed row) cut short by the end of its page, at every byte
static void cut_pieces(Ctx &x) {
  sg::Fmt f = x.pick(all_formats()); uint32_t comp = x.choose(3);
  struct Pieces { sg::Dataset d; std::vector<sg::Sub> subs; std::vector<Bytes> rows; };
  static std::map<std::string, Pieces> m; auto &P = m[f.str() + char('0' + comp)];
  if (P.subs.empty()) {
    sg::Dataset &d = P.d; d.f = f; d.comp = sg::Comp(comp); d.cols.resize(3);
    d.cols[0].name = "first"; d.cols[0].num = true; d.cols[0].format = "DATE"; d.cols[0].label = "The first"; d.cols[1].name = "second"; d.cols[1].len = 11; d.cols[1].label = "The second"; d.cols[2].name = "third"; d.cols[2].num = true; d.cols[2].format = "BEST";
    d.row_length = sg::layout_columns(d.cols); if (comp == 0) d.creator = "CREATOR"; if (comp == 1) d.creator_proc = "DATASTEP";
    auto ms = sg::meta_subs(d, 2); auto add = [&](auto &v) { for (auto &s : v) P.subs.push_back(s); };
    P.subs = {ms.rowsize, ms.colsize, ms.counts}; add(ms.texts); add(ms.names); add(ms.attrs); P.subs.push_back(ms.list); add(ms.fmts);
    for (size_t i = 0; i < 2; ++i) { Bytes r(d.row_length, 0); for (size_t j = 0; j < r.size(); ++j) r[j] = char(j * 37 + i * 11 + 5); P.rows.push_back(r); };
    if (comp) for (auto &r : P.rows) { sg::Sub s; s.data = comp == 1 ? sg::rle_encode(r.substr(0, 20) + Bytes(r.size() - 20, ' ')) : sg::rdc_encode(r.substr(0, 16) + Bytes(r.size() - 16, ' ')); s.comp = 4; s.type = 1; P.subs.push_back(s); }
  }
  size_t k = x.choose(uint32_t(P.subs.size())), mode = x.choose(2), full = P.subs[k].data.size(), o = x.choose(uint32_t((full + 15) / 16)) * 16;
  auto what0 = [&] { return f.str() + format(" compression %u piece %zu ends with the page, %s,", comp, k, mode ? "its length as before" : "its length correct"); };
  for (size_t n = o; n < o + 16 && n < full; ++n) {
    std::vector<sg::Sub> v{P.subs[k]}; v[0].data.resize(n); for (size_t j = 0; j < P.subs.size(); ++j) if (j != k) v.push_back(P.subs[j]);
    sg::Page a, b; a.subs = v; b.type = sg::DATA; if (!comp) b.rows = P.rows;
    sg::File fl; fl.h.f = f; size_t len = std::max(sg::page_need(f, a), sg::page_need(f, b)); fl.h.page_length = uint32_t((len + 63) / 64 * 64); fl.pages.push_back(a); if (!comp) fl.pages.push_back(b);
    Bytes bytes = fl.render_all();
    // the pointers in their usual order
    size_t I3 = 3 * f.isz(), t = fl.h.header_length + f.bit_offset() + 8; Bytes first = bytes.substr(t, I3); if (mode) sg::putn(first, f.isz(), full, f.isz(), f.big);
    bytes.erase(t, I3); bytes.insert(t + k * I3, first);
    auto what = [&] { return what0() + format(" %zu of %zu bytes", n, full); };
    x.outcome(mc::hash(what())); abuse(x, bytes, what);
  }
  x.note(what0());
}
// every length of the header and of a page
static void geometry(Ctx &x) {
  const Case &c = small(x, mc::thorough() ? 8 : 2); bool hdr = x.flag(); size_t a = c.l.f.align1(), max = 2 * (hdr ? c.h.header_length : c.h.page_length), o = x.choose(uint32_t((max + 15) / 16)) * 16;
  for (size_t n = o; n < o + 16 && n < max; ++n) {
    Bytes d = c.bytes; sg::put32(c.l.f, d, (hdr ? 196 : 200) + a, uint32_t(n));
    auto what = [&] { return c.l.str() + format(" %s length = %zu", hdr ? "header" : "page", n); };
    x.outcome(mc::hash(what())); abuse(x, d, what);
  }
  x.note(c.l.str() + format(" %s length = %zu..", hdr ? "header" : "page", o));
}
// a piece of metadata lying in the unused bytes at the start of its page, of every length
static void page_head(Ctx &x) {
  const Case &c = small(x, mc::thorough() ? 8 : 4, 0); const sg::Fmt &f = c.l.f; size_t I = f.isz(), bo = f.bit_offset(), p = c.h.header_length;
  size_t ns = get(c.bytes, p + bo + 4, 2, f.big); auto S = sg::sigs(f); const Bytes sg_[] = {S.rowsize, S.colsize, S.counts, S.text, S.name, S.attr, S.fmt, S.list};
  size_t w = x.choose(8), k = x.choose(uint32_t(ns)), o = x.choose(uint32_t(bo - I + 1)), fill = x.choose(2);
  for (size_t n = 0; n <= 2 * bo + 8; ++n) {
    Bytes d = c.bytes; for (size_t j = 0; j < bo; ++j) d[p + j] = char(fill ? 0xff : 0); d.replace(p + o, I, sg_[w]);
    sg::putn(d, p + bo + 8 + k * 3 * I, o, I, f.big); sg::putn(d, p + bo + 8 + k * 3 * I + I, n, I, f.big);
    auto what = [&] { return f.str() + format(" piece %zu, of kind %zu, at byte %zu of its page, %zu long, filler %zu", k, w, o, n, fill); };
    x.outcome(mc::hash(what())); abuse(x, d, what);
  }
  x.note(f.str() + format(" piece %zu, of kind %zu, at byte %zu of its page, every length", k, w, o));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("intact", [](Ctx &x) { const Case &c = small(x, 8); x.note(c.l.str()); abuse(x, c.bytes, [&] { return c.l.str(); }, true); });
    mc::add("no-file", nofile);
    mc::add("fields", single);
    mc::add("cut-pieces", cut_pieces);
    mc::add("page-head", page_head);
    mc::add("geometry", geometry);
    mc::add("pages", pages);
    mc::add("bytes", bytes_);
    mc::add("shifts", shifts);
    mc::add("field-pairs", pairs);
  });
}
