// Independent writer of sas7bdat files (no code shared with /repo), and the reference decoders
// that say what a reader must observe.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sg {
using Bytes = std::string;
[[noreturn]] inline void bug(const char *m) { fprintf(stderr, "sasgen: generator bug: %s\n", m); abort(); }

struct Fmt {
  bool big = false, u64 = false, a1 = false; // a1: byte 35 == '3' (4 bytes of padding before the dates)
  size_t isz() const { return u64 ? 8 : 4; }
  size_t align1() const { return a1 ? 4 : 0; }
  size_t total() const { return (a1 ? 4 : 0) + (u64 ? 4 : 0); }
  size_t bit_offset() const { return u64 ? 32 : 16; }
  std::string str() const { return std::string(big ? "BE" : "LE") + (u64 ? "64" : "32") + (a1 ? "a" : ""); }
};

inline void putn(Bytes &b, size_t off, uint64_t v, size_t n, bool big) {
  if (b.size() < off + n) b.resize(off + n, 0);
  for (size_t i = 0; i < n; ++i) b[off + i] = char((v >> (8 * (big ? n - 1 - i : i))) & 0xff);
}
inline void put16(const Fmt &f, Bytes &b, size_t off, uint64_t v) { putn(b, off, v, 2, f.big); }
inline void put32(const Fmt &f, Bytes &b, size_t off, uint64_t v) { putn(b, off, v, 4, f.big); }
inline void putint(const Fmt &f, Bytes &b, size_t off, uint64_t v) { putn(b, off, v, f.isz(), f.big); }
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline void putd(const Fmt &f, Bytes &b, size_t off, double d) { putn(b, off, dbits(d), 8, f.big); }
inline void puts_(Bytes &b, size_t off, const Bytes &s) { if (b.size() < off + s.size()) b.resize(off + s.size(), 0); memcpy(&b[off], s.data(), s.size()); }
inline Bytes padded(const Bytes &s, size_t n, char c) { if (s.size() > n) bug("text too long"); Bytes r = s; r.resize(n, c); return r; }

// ---------------------------------------------------------------- header
struct Header {
  Fmt f;
  uint8_t platform = '1', encoding = 20;
  Bytes dataset = "DATASET", ftype = "DATA", release = "9.0401M2", server = "Linux", os_type = "3.10.0", os_name = "x86_64", os_name2 = "";
  double created = 1.5e9, modified = 1.6e9;
  uint32_t header_length = 1024, page_length = 4096, page_count = 1;
  char pad = ' ';
  uint8_t fill = 0; // unspecified bytes
  Bytes render() const {
    Bytes b(header_length, char(fill));
    static const unsigned char magic[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 8, 0, 9, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
    memcpy(&b[0], magic, 32);
    b[32] = f.u64 ? '3' : '"';
    b[35] = f.a1 ? '3' : '2';
    b[37] = f.big ? 0 : 1;
    b[39] = char(platform);
    b[70] = char(encoding);
    puts_(b, 84, "SAS FILE");
    puts_(b, 92, padded(dataset, 64, pad));
    puts_(b, 156, padded(ftype, 8, pad));
    size_t a = f.align1(), t = f.total();
    putd(f, b, 164 + a, created);
    putd(f, b, 172 + a, modified);
    put32(f, b, 196 + a, header_length);
    put32(f, b, 200 + a, page_length);
    put32(f, b, 204 + a, page_count);
    puts_(b, 216 + t, padded(release, 8, pad));
    puts_(b, 224 + t, padded(server, 16, pad));
    puts_(b, 240 + t, padded(os_type, 16, pad));
    puts_(b, 256 + t, padded(os_name2, 16, pad));
    Bytes on = os_name.empty() ? Bytes(16, 0) : padded(os_name, 16, pad);
    puts_(b, 272 + t, on);
    if (b.size() != header_length) bug("header overflow");
    return b;
  }
};

// ---------------------------------------------------------------- pages
enum : uint16_t { META = 0, DATA = 256, MIX1 = 512, MIX2 = 640, AMD = 1024, METC = 16384 };
struct Sub { Bytes data; uint8_t comp = 0, type = 0; bool ghost = false; uint64_t ghost_len = 0; };
struct Page {
  uint16_t type = META;
  std::vector<Sub> subs;
  std::vector<Bytes> rows;  // placed where a DATA or MIX page keeps its rows
  int block_count = -1;     // default: number of subheaders + rows (META/MIX) or rows (DATA)
  int nsubs = -1;           // declared number of subheaders (default: actual)
  uint8_t fill = 0;
};
inline size_t row_start(const Fmt &f, uint16_t type, size_t nsubs) {
  size_t o = f.bit_offset() + 8;
  if (type == MIX1 || type == MIX2) { o += nsubs * 3 * f.isz(); o = (o + 7) / 8 * 8; } // rows start 8-aligned
  return o;
}
// bytes of a page kept for subheader data plus pointers plus rows
inline size_t page_need(const Fmt &f, const Page &p) {
  size_t n = f.bit_offset() + 8 + p.subs.size() * 3 * f.isz() + 8;
  for (auto &s : p.subs) n += s.data.size() + 8;
  for (auto &r : p.rows) n += r.size();
  return n;
}
inline Bytes render(const Fmt &f, const Page &p, size_t len, bool pack_low = false) {
  Bytes b(len, char(p.fill));
  size_t bo = f.bit_offset(), ns = p.subs.size();
  put16(f, b, bo, p.type);
  size_t bc = p.block_count >= 0 ? size_t(p.block_count) : (p.type == DATA ? p.rows.size() : ns + p.rows.size());
  put16(f, b, bo + 2, bc);
  put16(f, b, bo + 4, p.nsubs >= 0 ? size_t(p.nsubs) : ns);
  put16(f, b, bo + 6, 0);
  size_t ptr = bo + 8, hi = len, lo = bo + 8 + ns * 3 * f.isz();
  size_t rs = row_start(f, p.type, ns), re = rs;
  for (auto &r : p.rows) { if (re + r.size() > len) bug("rows exceed page"); puts_(b, re, r); re += r.size(); }
  if (!p.rows.empty()) lo = re;
  for (auto &s : p.subs) {
    size_t off;
    if (s.ghost) off = 0;
    else if (pack_low) { off = lo; lo += s.data.size(); if (lo > len) bug("page overflow"); }
    else { if (hi < s.data.size() + lo) bug("page overflow"); hi -= s.data.size(); off = hi; }
    if (!s.ghost) puts_(b, off, s.data);
    putint(f, b, ptr, off);
    putint(f, b, ptr + f.isz(), s.ghost ? s.ghost_len : s.data.size());
    b[ptr + 2 * f.isz()] = char(s.comp);
    b[ptr + 2 * f.isz() + 1] = char(s.type);
    for (size_t i = 2; i < f.isz(); ++i) b[ptr + 2 * f.isz() + i] = 0;
    ptr += 3 * f.isz();
  }
  if (b.size() != len) bug("page size");
  return b;
}

// ---------------------------------------------------------------- metadata subheaders
enum class Comp { none, rle, rdc };
struct Col {
  Bytes name, label, format;
  bool num = false;
  uint32_t len = 8;
  uint64_t off = 0;
};
struct Sig { Bytes rowsize, colsize, counts, text, name, attr, fmt, list; };
inline Bytes sig(const Fmt &f, uint64_t s32, uint64_t s64) { Bytes b; putn(b, 0, f.u64 ? s64 : s32, f.isz(), f.big); return b; }
inline Sig sigs(const Fmt &f) {
  return {sig(f, 0xF7F7F7F7u, 0x00000000F7F7F7F7ull), sig(f, 0xF6F6F6F6u, 0x00000000F6F6F6F6ull), sig(f, 0xFFFFFC00u, 0xFFFFFFFFFFFFFC00ull),
          sig(f, 0xFFFFFFFDu, 0xFFFFFFFFFFFFFFFDull), sig(f, 0xFFFFFFFFu, 0xFFFFFFFFFFFFFFFFull), sig(f, 0xFFFFFFFCu, 0xFFFFFFFFFFFFFFFCull),
          sig(f, 0xFFFFFBFEu, 0xFFFFFFFFFFFFFBFEull), sig(f, 0xFFFFFFFEu, 0xFFFFFFFFFFFFFFFEull)};
}

struct TextPlan {
  size_t blocks = 1;
  // text block of column i's name (0), label (1) or format (2)
  std::function<size_t(size_t, int)> block = [](size_t, int) { return size_t(0); };
  size_t name_chunk = SIZE_MAX, attr_chunk = SIZE_MAX; // columns per NAME / ATTR subheader
  size_t align = 4;                                    // start alignment of each string in its block
  size_t lead = 0;                                     // unused bytes before the strings of a block
  bool swap_sig = false;                               // 64-bit: F7/F6 signature in the other half
  bool absent_empty = true;                            // empty label/format: offset 0, length 0
  int type_string = 2;                                 // type byte of string columns
  size_t attr_tail = 0;                                // unused bytes at the end of an ATTR subheader (0..4/8)
  Bytes name_tail;                                     // padding stored (and counted) after each text
  size_t fmt_tail = 0;
};
struct Dataset {
  Fmt f;
  Comp comp = Comp::none;
  std::vector<Col> cols;
  uint64_t row_length = 0;
  std::vector<Bytes> rows;
  Bytes creator, creator_proc; // as stored in the file
  uint64_t mix_rows = 0;
  uint64_t p1 = UINT64_MAX, p2 = 0; // declared column counts (default: all, 0)
};

struct MetaSubs {
  Sub rowsize, colsize, counts, list;
  std::vector<Sub> texts, names, attrs, fmts;
  std::vector<Sub> all() const {
    std::vector<Sub> r{rowsize, colsize, counts};
    r.insert(r.end(), texts.begin(), texts.end());
    r.insert(r.end(), names.begin(), names.end());
    r.insert(r.end(), attrs.begin(), attrs.end());
    r.insert(r.end(), fmts.begin(), fmts.end());
    r.push_back(list);
    return r;
  }
};
inline MetaSubs meta_subs(const Dataset &d, uint64_t declared_rows, const TextPlan &tp = {}) {
  const Fmt &f = d.f;
  const Sig S = sigs(f);
  const size_t I = f.isz(), n = d.cols.size();
  MetaSubs m;
  auto half = [&](const Bytes &s) { return tp.swap_sig && f.u64 ? s.substr(4) + s.substr(0, 4) : s; };
  // creator strings: uncompressed files keep the creator where compressed ones keep the method
  uint64_t lcs = 0, lcp = 0;
  if (d.comp == Comp::none && !d.creator.empty()) lcs = d.creator.size();
  if (!d.creator_proc.empty()) lcp = d.creator_proc.size();
  {
    Bytes b(f.u64 ? 808 : 480, 0);
    puts_(b, 0, half(S.rowsize));
    putint(f, b, 5 * I, d.row_length);
    putint(f, b, 6 * I, declared_rows);
    putint(f, b, 9 * I, d.p1 == UINT64_MAX ? n : d.p1);
    putint(f, b, 10 * I, d.p2);
    putint(f, b, 15 * I, d.mix_rows);
    put16(f, b, f.u64 ? 682 : 354, lcs);
    put16(f, b, f.u64 ? 706 : 378, lcp);
    m.rowsize.data = b;
  }
  { Bytes b(3 * I, 0); puts_(b, 0, half(S.colsize)); putint(f, b, I, n); m.colsize.data = b; }
  { Bytes b(f.u64 ? 600 : 304, 0); puts_(b, 0, S.counts); m.counts.data = b; }
  { Bytes b(I * 2 + 8 + 2 * n, 0); puts_(b, 0, S.list); m.list.data = b; }
  // text blocks. Block content starts after the signature; offsets count from there.
  struct Ref { size_t idx = 0, off = 0, len = 0; };
  std::vector<Bytes> blk(tp.blocks);
  for (size_t k = 0; k < tp.blocks; ++k) {
    Bytes &b = blk[k];
    b.assign(k == 0 ? 8 : 4, 0);
    if (k == 0) {
      // relative to content: compression literal at 12, creator proc at 12+16 or 12+24
      b.resize(12 + 8 + 8 + 8, ' ');
      if (d.comp == Comp::rle) { puts_(b, 12, "SASYZCRL"); b.resize(12 + 24, ' '); b += d.creator_proc; }
      else if (d.comp == Comp::rdc) { puts_(b, 12, "SASYZCR2"); }
      else if (lcs) { puts_(b, 12, d.creator); }
      else { b.resize(12 + 16, ' '); b += d.creator_proc; }
      while (b.size() < 12 + 32) b += ' ';
    }
    b.append(tp.lead, '#');
    while (b.size() % tp.align) b += char(0);
  }
  auto put = [&](size_t k, const Bytes &s) {
    Ref r;
    if (s.empty() && tp.absent_empty) return r;
    Bytes &b = blk[k];
    r.idx = k; r.off = b.size(); r.len = s.size();
    b += s;
    while (b.size() % tp.align) b += char(0);
    return r;
  };
  std::vector<Ref> rn(n), rl(n), rf(n);
  for (size_t i = 0; i < n; ++i) {
    rn[i] = put(tp.block(i, 0), d.cols[i].name + tp.name_tail);
    auto pad = [&](const Bytes &s) { return s.empty() && tp.absent_empty ? s : s + tp.name_tail; };
    rl[i] = put(tp.block(i, 1), pad(d.cols[i].label));
    rf[i] = put(tp.block(i, 2), pad(d.cols[i].format));
  }
  for (auto &b : blk) {
    if (b.size() > 32767) bug("text block too long");
    put16(f, b, 0, b.size());
    Sub s; s.data = S.text + b;
    m.texts.push_back(s);
  }
  for (size_t i = 0; i < n || i == 0;) {
    size_t e = std::min(n, i + std::min(tp.name_chunk, n - i)), k = e - i;
    Bytes b = S.name; b.resize(I + 8, 0); put16(f, b, I, 8 * k + 8);
    b.resize(2 * I + 12 + 8 * k, 0);
    for (size_t j = 0; j < k; ++j) { size_t o = I + 8 + 8 * j; put16(f, b, o, rn[i + j].idx); put16(f, b, o + 2, rn[i + j].off); put16(f, b, o + 4, rn[i + j].len); }
    m.names.push_back({b});
    i = e; if (n == 0) break;
  }
  for (size_t i = 0; i < n || i == 0;) {
    size_t e = std::min(n, i + std::min(tp.attr_chunk, n - i)), k = e - i;
    Bytes b = S.attr; b.resize(I + 8, 0);
    b.resize(I + 12 + (I + 8) * k + tp.attr_tail, 0);
    for (size_t j = 0; j < k; ++j) {
      size_t o = I + 8 + (I + 8) * j; const Col &c = d.cols[i + j];
      putint(f, b, o, c.off); put32(f, b, o + I, c.len); put16(f, b, o + I + 4, 0); b[o + I + 6] = char(c.num ? 1 : tp.type_string); b[o + I + 7] = 0;
    }
    m.attrs.push_back({b});
    i = e; if (n == 0) break;
  }
  for (size_t i = 0; i < n; ++i) {
    Bytes b = S.fmt; b.resize((f.u64 ? 64 : 52) + tp.fmt_tail, 0);
    size_t o = 3 * I;
    put16(f, b, o + 22, rf[i].idx); put16(f, b, o + 24, rf[i].off); put16(f, b, o + 26, rf[i].len);
    put16(f, b, o + 28, rl[i].idx); put16(f, b, o + 30, rl[i].off); put16(f, b, o + 32, rl[i].len);
    m.fmts.push_back({b});
  }
  return m;
}

inline size_t layout_columns(std::vector<Col> &cols, size_t gap = 0, size_t start = 0) {
  size_t o = start;
  for (auto &c : cols) { c.off = o; o += c.len + gap; }
  return o;
}

// ---------------------------------------------------------------- compression (encoders)
// RLE: simple encoder - runs of blank / NUL / '@' / other bytes and copies.
inline void rle_copy(Bytes &o, const char *p, size_t n) {
  while (n) {
    size_t k = std::min<size_t>(n, 4096 + 63);
    if (k > 64) { size_t v = k - 64; o += char(0x00 | (v >> 8)); o += char(v & 255); }
    else if (k >= 49) o += char(0xB0 | (k - 49));
    else if (k >= 33) o += char(0xA0 | (k - 33));
    else if (k >= 17) o += char(0x90 | (k - 17));
    else o += char(0x80 | (k - 1));
    o.append(p, k); p += k; n -= k;
  }
}
inline Bytes rle_encode(const Bytes &r) {
  Bytes o; size_t i = 0, lit = 0;
  auto flush = [&](size_t e) { if (e > lit) rle_copy(o, &r[lit], e - lit); };
  while (i < r.size()) {
    size_t j = i; while (j < r.size() && r[j] == r[i]) ++j;
    size_t n = j - i; char c = r[i];
    bool special = c == ' ' || c == 0 || c == '@';
    if (n >= 3 || (n >= 2 && special)) {
      flush(i);
      size_t k;
      if (special) {
        k = std::min<size_t>(n, 4095 + 17);
        char lo = c == ' ' ? char(0xE0) : c == 0 ? char(0xF0) : char(0xD0), hi = c == ' ' ? 0x60 : c == 0 ? 0x70 : 0x50;
        if (k >= 18) { size_t v = k - 17; o += char(hi | (v >> 8)); o += char(v & 255); } else o += char(lo | (k - 2));
      } else {
        k = std::min<size_t>(n, 255 + 15 * 16 + 18);
        if (k > 18) { size_t v = k - 18; size_t h = std::min<size_t>(15, v / 16); o += char(0x40 | h); o += char(v - h * 16); o += c; }
        else { o += char(0xC0 | (k - 3)); o += c; }
      }
      i += k; lit = i;
    } else i = j;
  }
  flush(r.size());
  return o;
}
// RDC: item writer with control words
struct RdcWriter {
  Bytes out; Bytes pend; uint16_t bits = 0; int nb = 0;
  void item(bool cmd, const Bytes &b) {
    bits = uint16_t(bits | ((cmd ? 1 : 0) << (15 - nb))); pend += b; ++nb;
    if (nb == 16) flush();
  }
  void flush() { if (!nb) return; out += char(bits >> 8); out += char(bits & 255); out += pend; pend.clear(); bits = 0; nb = 0; }
  Bytes done() { flush(); return out; }
  void literal(char c) { item(false, Bytes(1, c)); }
  void run(char c, size_t n) { // n in 3..18 short, 19..(19+15+255*16) long
    if (n <= 18) item(true, Bytes(1, char(0x00 | (n - 3))) + c);
    else { size_t v = n - 19; item(true, Bytes(1, char(0x10 | (v & 15))) + char(v >> 4) + c); }
  }
  void ref(size_t dist, size_t n) { // dist 3..4098; n 3..15 short, 16..271 long
    size_t v = dist - 3;
    if (n <= 15) item(true, Bytes(1, char((n << 4) | (v & 15))) + char(v >> 4));
    else item(true, Bytes(1, char(0x20 | (v & 15))) + char(v >> 4) + char(n - 16));
  }
};
inline Bytes rdc_encode(const Bytes &r) {
  RdcWriter w; size_t i = 0;
  while (i < r.size()) {
    size_t j = i; while (j < r.size() && r[j] == r[i]) ++j;
    size_t n = std::min<size_t>(j - i, 19 + 15 + 255 * 16);
    if (n >= 3) { w.run(r[i], n); i += n; continue; }
    // back reference: longest match at distance >= max(3, len) (no overlap here), up to 4098
    size_t bl = 0, bd = 0;
    for (size_t d = 3; d <= 4098 && d <= i; ++d) { size_t l = 0; while (l < 271 && l < d && i + l < r.size() && r[i + l] == r[i - d + l]) ++l; if (l > bl) { bl = l; bd = d; } }
    if (bl >= 3) { w.ref(bd, bl); i += bl; continue; }
    w.literal(r[i]); ++i;
  }
  return w.done();
}
// RDC rows get two filler bytes (ignored once the row is complete): the reader's handling of a row
// whose last command has fewer than 3 bytes left is a recorded finding, decided by C05 alone.
inline Bytes compress(Comp c, const Bytes &r) { return c == Comp::rle ? rle_encode(r) : c == Comp::rdc ? rdc_encode(r) + Bytes(2, '\0') : r; }

// data subheader for a row of a compressed file
inline Sub row_sub(Comp c, const Bytes &row, bool raw = false) {
  Sub s; s.type = 1;
  Bytes z = compress(c, row);
  if (raw || z.size() >= row.size()) { s.data = row; s.comp = 0; } else { s.data = z; s.comp = 4; }
  return s;
}

// ---------------------------------------------------------------- file
struct File {
  Header h;
  std::vector<Page> pages;
  bool pack_low = false;
  Bytes render_all() {
    h.page_count = uint32_t(pages.size());
    Bytes b = h.render();
    for (auto &p : pages) b += sg::render(h.f, p, h.page_length, pack_low);
    return b;
  }
};
} // namespace sg
