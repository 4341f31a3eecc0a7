// C10: header properties.
#include "layouts.hpp"
#include "rows.hpp"
using namespace hx;
static Bytes file_of(const sg::Header &h0, uint32_t page_length, uint32_t declared_pages, int magic = -1, uint8_t flip = 0) {
  sg::Dataset d; d.f = h0.f; d.cols = column_set(1); d.row_length = sg::layout_columns(d.cols);
  auto ms = sg::meta_subs(d, 0);
  sg::Page m; m.subs = ms.all();
  sg::Header h = h0; h.page_length = page_length; h.page_count = declared_pages;
  Bytes b = h.render() + sg::render(h.f, m, page_length);
  if (magic >= 0) b[size_t(magic)] = char(b[size_t(magic)] ^ flip);
  return b;
}
static std::string dt_text(double s) { Instant i = instant(s); return i.valid ? show_day(i.day) + format("T%lldus", i.us) : "nad"; }
static const char *const *encodings() {
  static const char *t[256]; static bool init = false;
  if (!init) {
    init = true; for (auto &e : t) e = "WINDOWS-1252";
    struct E { int k; const char *n; };
    static const E e[] = {{20, "UTF-8"}, {28, "US-ASCII"}, {29, "ISO-8859-1"}, {30, "ISO-8859-2"}, {31, "ISO-8859-3"}, {32, "ISO-8859-4"}, {33, "ISO-8859-5"}, {34, "ISO-8859-6"}, {35, "ISO-8859-7"}, {36, "ISO-8859-8"}, {37, "ISO-8859-9"}, {39, "ISO-8859-11"}, {40, "ISO-8859-15"},
      {41, "CP437"}, {42, "CP850"}, {43, "CP852"}, {44, "CP857"}, {45, "CP858"}, {46, "CP862"}, {47, "CP864"}, {48, "CP865"}, {49, "CP866"}, {50, "CP869"}, {51, "CP874"}, {52, "CP921"}, {53, "CP922"}, {54, "CP1129"}, {55, "CP720"}, {56, "CP737"}, {57, "CP775"}, {58, "CP860"}, {59, "CP863"},
      {60, "WINDOWS-1250"}, {61, "WINDOWS-1251"}, {62, "WINDOWS-1252"}, {63, "WINDOWS-1253"}, {64, "WINDOWS-1254"}, {65, "WINDOWS-1255"}, {66, "WINDOWS-1256"}, {67, "WINDOWS-1257"}, {68, "WINDOWS-1258"},
      {69, "MACROMAN"}, {70, "MACARABIC"}, {71, "MACHEBREW"}, {72, "MACGREEK"}, {73, "MACTHAI"}, {75, "MACTURKISH"}, {76, "MACUKRAINE"}, {118, "CP950"}, {119, "EUC-TW"}, {123, "BIG5-HKSCS"}, {125, "GB18030"}, {126, "CP936"}, {128, "CP1381"}, {134, "EUC-JP"}, {136, "CP949"}, {137, "CP942"}, {138, "CP932"}, {140, "EUC-KR"}, {141, "CP949"}, {142, "CP949"},
      {163, "MACICELAND"}, {167, "ISO-2022-JP"}, {168, "ISO-2022-KR"}, {169, "ISO-2022-CN"}, {172, "ISO-2022-CN-EXT"}, {205, "GB18030"}, {227, "ISO-8859-14"}, {242, "ISO-8859-13"}, {245, "MACCROATIAN"}, {246, "MACCYRILLIC"}, {247, "MACROMANIA"}, {248, "SHIFT_JISX0213"}};
    for (auto &p : e) t[p.k] = p.n;
  }
  return t;
}
static void compare(Ctx &x, const sg::Header &h, uint32_t page_length, uint32_t pages) {
  cs::Reader r(MemSource(share(file_of(h, page_length, pages))), RecSink(std::make_shared<Log>()));
  const cs::Properties &p = r.properties();
  std::string w = h.f.str() + format(" header of %u bytes: ", h.header_length);
  auto eq = [&](const char *what, const std::string &g, const std::string &e) { x.checked(); if (g != e) x.fail(w + what + " is '" + mc::hex(g, 100) + "' (" + g + "), stored '" + e + "'"); };
  auto T = [](const Bytes &s) { return s; };
  eq("format", std::string(cs::to_string(p.format)), h.f.u64 ? "64bits" : "32bits");
  eq("byte order", std::string(cs::to_string(p.endianness)), h.f.big ? "big" : "little");
  eq("platform", std::string(cs::to_string(p.platform)), h.platform == '1' ? "unix" : h.platform == '2' ? "windows" : "unknown");
  eq("encoding", p.encoding, encodings()[h.encoding]);
  eq("dataset name", p.dataset_name, T(h.dataset)); eq("file type", p.file_type, T(h.ftype));
  eq("creation time", show(p.date_created), dt_text(h.created)); eq("modification time", show(p.date_modified), dt_text(h.modified));
  eq("SAS release", p.sas_release, T(h.release)); eq("server type", p.sas_server_type, T(h.server)); eq("OS type", p.os_type, T(h.os_type));
  eq("OS name", p.os_name, T(h.os_name.empty() ? h.os_name2 : h.os_name));
  auto num = [&](const char *what, size_t g, size_t e) { x.checked(); if (g != e) x.fail(w + format("%s is %zu, stored %zu", what, g, e)); };
  num("header length", p.header_length, h.header_length); num("page length", p.page_length, page_length); num("page count", p.page_count, pages);
  num("row length", p.row_length, 8); num("row count", p.row_count, 0); num("column count", p.column_count, 1); num("columns", p.columns.size(), 1);
  x.outcome(mc::hash(h.render()) + page_length * 31 + pages);
}
static sg::Fmt any(Ctx &x) { return x.pick(all_formats()); }
static void geometry(Ctx &x) {
  sg::Header h; h.f = any(x);
  static const uint32_t HL[] = {0, 1, 4, 100, 224, 736, 1024 - 288, 8192 - 288, 65536 - 288, 100000};
  h.header_length = uint32_t(288 + h.f.total()) + x.pick(HL); if (h.header_length % 4096 < 16) h.header_length &= ~63u;
  static const uint32_t PL[] = {2048, 2560, 4096, 4099, 8192, 65536, 131072}; static const uint32_t PC[] = {0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff};
  static const uint8_t F[] = {0, 0xFF, ' ', 0x33, 0x01};
  h.fill = x.pick(F); uint32_t pl = x.pick(PL), pc = x.pick(PC);
  x.note(h.f.str() + format(" header %u page %u count %u fill %02x", h.header_length, pl, pc, h.fill));
  compare(x, h, pl, pc);
}
static void bytes(Ctx &x) {
  sg::Header h; h.f = any(x);
  if (x.flag()) h.encoding = uint8_t(x.choose(256)); else h.platform = uint8_t(x.choose(256));
  compare(x, h, 4096, 1);
}
// every text field with every length, its neighbours empty or full, padded with blanks or NULs
static Bytes text(size_t n, uint32_t seed, bool high) { Bytes r = noise(n, seed); for (auto &c : r) { unsigned char u = (unsigned char)c; if (!high || u < 0x80) u = (unsigned char)(33 + u % 94); c = char(u); } return r; }
static void texts(Ctx &x) {
  sg::Header h; h.f = any(x);
  struct F { Bytes sg::Header::*m; size_t n; };
  static const F fs[] = {{&sg::Header::dataset, 64}, {&sg::Header::ftype, 8}, {&sg::Header::release, 8}, {&sg::Header::server, 16}, {&sg::Header::os_type, 16}, {&sg::Header::os_name2, 16}, {&sg::Header::os_name, 16}};
  uint32_t k = x.choose(7); size_t n = x.choose(uint32_t(fs[k].n) + 1); int others = int(x.choose(3)); bool high = x.flag(); h.pad = x.flag() ? 0 : ' ';
  for (uint32_t i = 0; i < 7; ++i) h.*fs[i].m = i == k ? text(n, i * 100 + uint32_t(n), high) : others == 0 ? Bytes() : text(others == 1 ? fs[i].n : fs[i].n / 2, i, high);
  // inside a text, blanks stay
  if (n > 4) (h.*fs[k].m)[n / 2] = ' ';
  if (k == 5) h.os_name.clear();
  if (k == 6 && n == 0 && h.pad == ' ') { }
  x.note(h.f.str() + format(" text field %u of %zu bytes, others %d, pad %d, high %d", k, n, others, h.pad, high));
  compare(x, h, 4096, 1);
}
// every byte a text may hold, at the ends and in the middle
static void letters(Ctx &x) {
  sg::Header h; h.f = any(x);
  struct F { Bytes sg::Header::*m; size_t n; };
  static const F fs[] = {{&sg::Header::dataset, 64}, {&sg::Header::ftype, 8}, {&sg::Header::release, 8}, {&sg::Header::server, 16}, {&sg::Header::os_type, 16}, {&sg::Header::os_name, 16}};
  uint32_t b = x.choose(224) + 32; uint32_t where = x.choose(4);
  if (b == 32 && where != 1) x.prune();
  if (b == 127) x.prune();
  for (auto &f : fs) { size_t n = where == 3 ? 1 : f.n; Bytes t = text(n, 5, false); t[where == 0 ? 0 : where == 1 ? n / 2 : n - 1] = char(b); h.*f.m = t; }
  compare(x, h, 4096, 1);
}
static void times(Ctx &x) {
  sg::Header h; h.f = any(x);
  static const double V[] = {0, 1, -1, 1.5e9, 1.9e9 + 0.25, 86399.999, -86400, NAN, INFINITY, 1e300, 2.5e11, -1.7e10, 253717747199., 1e12};
  h.created = x.pick(V); h.modified = x.pick(V);
  compare(x, h, 4096, 1);
}
static void magic(Ctx &x) {
  sg::Header h; h.f = any(x); int at = int(x.choose(32)); uint8_t fl = uint8_t(1 + x.choose(255));
  x.checked();
  try { cs::Reader r(MemSource(share(file_of(h, 4096, 1, at, fl))), RecSink(std::make_shared<Log>())); }
  catch (const std::exception &) { x.outcome(mc::hash(h.f.str()) + uint64_t(at) * 256 + fl); return; }
  x.fail(h.f.str() + format(": byte %d of the magic number changed by %02x, but the file is accepted", at, fl));
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("geometry", geometry);
    mc::add("codes", bytes);
    mc::add("texts", texts);
    mc::add("letters", letters);
    mc::add("times", times);
    mc::add("magic-number", magic);
  });
}
