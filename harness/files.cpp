// Writes a set of files for the checks of the language bindings: files DIR formats
// One JSON object per file on stdout: what was stored, and what the C++ reader reports about it.
#include "ops.hpp"
#include "rows.hpp"
#include <cppsas7bdat/source/ifstream.hpp>
using namespace hx;
static std::string H(std::string_view s) { static const char *d = "0123456789abcdef"; std::string r = "\""; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r + "\""; }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
struct Grab {
  cs::COLUMNS c; std::shared_ptr<std::vector<std::string>> rows;
  void set_properties(const cs::Properties &p) { c = cs::COLUMNS(p.columns); }
  void push_row(size_t, cs::Column::PBUF p) { std::string r = "["; for (auto &k : c) { if (r.size() > 1) r += ","; r += H(k.to_string(p)); } rows->push_back(r + "]"); }
  void end_of_data() {}
};
static void put(const std::string &dir, const std::string &group, const std::string &name, const Bytes &b, const sg::Fmt &f, const std::vector<sg::Col> &cols, const std::vector<std::string> &expect) {
  std::string path = dir + "/" + name + ".sas7bdat";
  FILE *o = fopen(path.c_str(), "wb"); if (!o || fwrite(b.data(), 1, b.size(), o) != b.size() || fclose(o)) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(3); }
  std::string s = "{\"group\":" + Q(group) + ",\"name\":" + Q(name) + ",\"path\":" + Q(path) + ",\"fmt\":" + Q(f.str()) + ",\"columns\":[";
  for (size_t i = 0; i < cols.size(); ++i) s += (i ? "," : "") + format("{\"name\":") + H(cols[i].name) + ",\"label\":" + H(cols[i].label) + ",\"format\":" + H(cols[i].format) + ",\"type\":" + Q(ref::kind_name(ref::kind(cols[i]))) + format(",\"len\":%u}", unsigned(cols[i].len));
  s += "],\"expect\":[";
  for (size_t i = 0; i < expect.size(); ++i) s += (i ? "," : "") + Q(expect[i]);
  s += "]";
  auto texts = std::make_shared<std::vector<std::string>>(); Grab g; g.rows = texts;
  cs::Reader r(MemSource(share(b)), g);
  const auto &p = r.properties();
  auto T = [&](const char *k, const std::string &v) { s += std::string(",\"") + k + "\":" + H(v); };
  auto E = [&](const char *k, std::string_view v) { s += std::string(",\"") + k + "\":" + Q(std::string(v)); };
  auto N = [&](const char *k, size_t v) { s += format(",\"%s\":%zu", k, v); };
  s += ",\"props\":{\"x\":0";
  E("format", to_string(p.format)); E("endianness", to_string(p.endianness)); E("platform", to_string(p.platform)); E("compression", to_string(p.compression));
  auto D = [&](const char *k, const cs::DATETIME &d) { E(k, "dt:" + show(d)); if (!d.is_special()) E((std::string(k) + "_text").c_str(), cs::to_string(d)); };
  D("date_created", p.date_created); D("date_modified", p.date_modified);
  T("dataset_name", p.dataset_name); T("encoding", p.encoding); T("file_type", p.file_type); T("sas_release", p.sas_release); T("sas_server_type", p.sas_server_type); T("os_type", p.os_type); T("os_name", p.os_name); T("creator", p.creator); T("creator_proc", p.creator_proc);
  N("header_length", p.header_length); N("page_length", p.page_length); N("page_count", p.page_count); N("row_length", p.row_length); N("row_count", p.row_count); N("column_count", p.column_count); N("col_count_p1", p.col_count_p1); N("col_count_p2", p.col_count_p2); N("mix_page_row_count", p.mix_page_row_count); N("lcs", p.lcs); N("lcp", p.lcp);
  s += "},\"texts\":[";
  r.read_all();
  for (size_t i = 0; i < texts->size(); ++i) s += (i ? "," : "") + (*texts)[i];
  s += "]}";
  puts(s.c_str());
}
// one row per special value of each kind of column
static void values(const std::string &dir, const sg::Fmt &f) {
  std::vector<sg::Col> c;
  auto S = [&](const char *n, uint32_t l) { c.push_back({n, "", "$", false, l, 0}); };
  auto N = [&](const char *n, uint32_t l, const char *fm) { c.push_back({n, "", fm, true, l, 0}); };
  S("s", 9); N("x", 8, ""); N("d", 8, "DATE"); N("dt", 8, "DATETIME"); N("t", 8, "TIME"); N("i1", 1, ""); N("i2", 2, ""); N("x3", 3, "BEST"); N("d4", 4, "YYMMDD"); S("e", 1);
  size_t L = sg::layout_columns(c);
  const std::vector<Bytes> strings{"", "a", "a b", "\"q,\n", "\xc3\xa9", "\xff\xfe\x80", Bytes("a\0b", 3), Bytes("\0\0z", 3), "123456789", " lead", "\t", "NA", "nan", "'", "\\", "%s%n", "\xf0\x9f\x98\x80"};
  const std::vector<double> numbers{0, -0.0, 1, -1, 0.1, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN, 123456789.125, 2147483647, 2147483648.0, -2147483648.0, 4294967296.0, 1e15};
  const std::vector<double> days{0, 1, -1, 366, -138061, 2936547, 21914, 21915, 59, 60, -500, NAN, 1e9, INFINITY, 10000, -10000, 100};
  const std::vector<double> secs{0, 1, -1, 0.5, -0.5, 86399.999999, 86400, -11928470400.0, 253717747199.0, 1.5e9, 1e9 + 0.25, NAN, 1e14, INFINITY, 3600, -86400.25, 12345678.125};
  std::vector<Bytes> rows; std::vector<std::string> ex;
  size_t n = 4 * strings.size();
  for (size_t i = 0; i < n; ++i) {
    Bytes r(L, 0); size_t k = i % strings.size();
    auto num = [&](const sg::Col &q, double v) {
      if (q.len == 8) { Bytes b; sg::putn(b, 0, std::isnan(v) ? 0xFFFFFE0000000000ull : sg::dbits(v), 8, f.big); return b; }
      uint64_t u = std::isnan(v) ? 0xFFFFFE0000000000ull : sg::dbits(v); Bytes b(q.len, 0); for (size_t j = 0; j < q.len; ++j) b[f.big ? j : q.len - 1 - j] = char(u >> (56 - 8 * j)); return b;
    };
    for (auto &q : c) {
      Bytes v;
      if (!q.num) v = sg::padded(strings[(k + i / strings.size()) % strings.size()].substr(0, q.len), q.len, ' ');
      else if (q.len == 1) v = Bytes(1, char(i * 15)); else if (q.len == 2) sg::putn(v, 0, uint16_t(i * 3855), 2, f.big);
      else if (q.format == "DATE" || q.format == "YYMMDD") { double d = days[(k + 3 * (i / strings.size())) % days.size()]; if (q.len < 8 && std::fabs(d) > 2000) d = 2048; v = num(q, d); }
      else if (q.format == "DATETIME" || q.format == "TIME") v = num(q, secs[(k + 5 * (i / strings.size())) % secs.size()]);
      else v = num(q, numbers[(k + 7 * (i / strings.size())) % numbers.size()]);
      r.replace(q.off, q.len, v);
    }
    rows.push_back(r); ex.push_back(expect_row(f, c, r));
  }
  put(dir, "values", "values-" + f.str(), table_file(f, c, L, rows, 20), f, c, ex);
}
// names and texts that are no identifiers, or not UTF-8
static void names(const std::string &dir, const sg::Fmt &f) {
  std::vector<sg::Col> c{{"with space", "label \xe9t\xe9", "$", false, 5, 0}, {"a.b", "", "BEST", true, 8, 0}, {"caf\xe9", "caf\xc3\xa9", "", true, 8, 0}, {"_x", "x y", "DATE", true, 8, 0}, {"\xc3\xa9t\xc3\xa9", "", "\xff""F", true, 8, 0}, {"if", "1", "", false, 3, 0}};
  size_t L = sg::layout_columns(c); std::vector<Bytes> rows; std::vector<std::string> ex;
  for (size_t i = 0; i < 4; ++i) { rows.push_back(make_row(f, c, L, i)); ex.push_back(expect_row(f, c, rows[i])); }
  sg::Header h; h.dataset = "D\xe9J\xc0"; h.encoding = 29; h.created = NAN; h.os_name = "\xfc"; h.server = "S\xe8";
  put(dir, "names", "names-" + f.str(), table_file(f, c, L, rows, 3, {}, h), f, c, ex);
  h.created = 0; h.modified = NAN; h.dataset = "plain";
  put(dir, "names", "nodate-" + f.str(), table_file(f, c, L, rows, 3, {}, h), f, c, ex);
}
static void large(const std::string &dir, const sg::Fmt &f, size_t n, int set, const char *group = "large") {
  auto c = column_set(set); size_t L = sg::layout_columns(c); std::vector<Bytes> rows; std::vector<std::string> ex;
  for (size_t i = 0; i < n; ++i) { rows.push_back(make_row(f, c, L, i)); ex.push_back(expect_row(f, c, rows[i])); }
  put(dir, group, format("large%zu-", n) + f.str(), table_file(f, c, L, rows, n > 1000 ? 999 : 70), f, c, ex);
}
// more rows than 16 bits count
static void vast(const std::string &dir, const sg::Fmt &f) {
  std::vector<sg::Col> c{{"x", "", "", true, 8, 0}, {"s", "", "$", false, 5, 0}};
  size_t L = sg::layout_columns(c); std::vector<Bytes> rows; std::vector<std::string> ex;
  for (size_t i = 0; i < 66000; ++i) {
    Bytes r(L, 0), b; sg::putn(b, 0, sg::dbits(double(i) + 0.5), 8, f.big); r.replace(c[0].off, 8, b); r.replace(c[1].off, 5, format("%05zu", i % 100000));
    rows.push_back(r); ex.push_back(expect_row(f, c, r));
  }
  put(dir, "vast", "vast-" + f.str(), table_file(f, c, L, rows, 4096), f, c, ex);
}
int main(int argc, char **argv) {
  quiet();
  if (argc < 3) return 2;
  std::string dir = argv[1]; size_t nf = size_t(atoi(argv[2]));
  auto fs = all_formats(); std::vector<size_t> order{0, 7, 2, 4, 1, 3, 5, 6};
  for (size_t i = 0; i < nf && i < order.size(); ++i) {
    auto &f = fs[order[i]];
    size_t k = 0;
    for (auto &l : zoo(f)) { const Case &c = cached(l); put(dir, "zoo", format("zoo%zu-", k++) + f.str(), c.bytes, f, c.cols, c.expect); }
    values(dir, f); names(dir, f);
    if (i == 0) { large(dir, f, 700, 0); large(dir, f, 257, 2); large(dir, f, 20500, 0, "long"); vast(dir, f); }
  }
}
