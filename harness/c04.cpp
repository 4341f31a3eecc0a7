// C04: RLE command sequences, through the real reader.
#include "rows.hpp"
using namespace hx;

struct Cmd { Bytes code; Bytes out; size_t head; }; // head: bytes of the command before copied ones
static const int NIB[] = {0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static Cmd cmd(int nib, int lo, int b, uint32_t seed, char fillc) {
  Cmd c; c.code = Bytes(1, char(nib << 4 | lo)); size_t n; Bytes data;
  switch (nib) {
  case 0: n = size_t(lo << 8) + size_t(b) + 64; c.code += char(b); c.head = 2; c.out = noise(n, seed); c.code += c.out; break;
  case 4: n = size_t(lo << 4) + size_t(b) + 18; c.code += char(b); c.code += fillc; c.head = 3; c.out = Bytes(n, fillc); break;
  case 5: case 6: case 7: n = size_t(lo << 8) + size_t(b) + 17; c.code += char(b); c.head = 2; c.out = Bytes(n, nib == 5 ? '@' : nib == 6 ? ' ' : '\0'); break;
  case 8: case 9: case 10: case 11: n = size_t(lo) + (nib == 8 ? 1 : nib == 9 ? 17 : nib == 10 ? 33 : 49); c.head = 1; c.out = noise(n, seed); c.code += c.out; break;
  case 12: n = size_t(lo) + 3; c.code += fillc; c.head = 2; c.out = Bytes(n, fillc); break;
  default: n = size_t(lo) + 2; c.head = 1; c.out = Bytes(n, nib == 13 ? '@' : nib == 14 ? ' ' : '\0'); break;
  }
  return c;
}
// n bytes of filler (n == 0 or n >= 3), tersely
static void filler(Bytes &enc, Bytes &out, size_t n, char c) {
  while (n) {
    size_t k;
    if (n >= 18) { k = std::min<size_t>(n, 513); if (n - k == 1 || n - k == 2) k -= 3; size_t v = k - 18, h = std::min<size_t>(15, v / 16); enc += char(0x40 | h); enc += char(v - 16 * h); enc += c; }
    else { k = n; enc += char(0xC0 | (k - 3)); enc += c; }
    out += Bytes(k, c); n -= k;
  }
}
// places a sequence in a row of L bytes; 0: at the end, 1: at the start, 2: in the middle, 3: at the start, rest of the row left out
static EncRow place(const Bytes &code, const Bytes &out, size_t L, uint32_t where, const std::string &what) {
  EncRow e; e.what = what; Bytes o; size_t rest = L - out.size();
  size_t a = where == 0 ? rest : where == 2 ? std::max<size_t>(3, rest / 2) : 0;
  filler(e.enc, o, a, 'f');
  e.enc += code; o += out;
  if (where == 3) o.resize(L, 0); else filler(e.enc, o, rest - a, '~');
  e.accept = {o};
  return e;
}
static void single(Ctx &x) {
  int nib = x.pick(NIB); uint32_t lo = x.choose(16);
  sg::Fmt f = pick_fmt(x, mc::thorough() ? 4 : 2);
  uint32_t where = x.choose(4);
  bool two = nib == 0 || (nib >= 4 && nib <= 7);
  static const unsigned char V[] = {'x', 0, ' ', '@', 0xff, 0x80};
  std::vector<EncRow> rows; size_t L = 0;
  std::vector<Cmd> cs;
  for (int b = 0; b < (two ? 256 : 1); ++b) for (size_t v = 0; v < (nib == 4 ? 2 : nib == 12 ? 6 : 1); ++v) {
    cs.push_back(cmd(nib, int(lo), b, uint32_t(b) * 16 + lo, char(V[(v + (nib == 4 ? size_t(b) : 0)) % 6])));
    L = std::max(L, cs.back().out.size());
  }
  L += 64; // room for filler: the encoding is shorter than the row
  for (auto &c : cs) rows.push_back(place(c.code, c.out, L, where, format("command %x%x %s", nib, lo, where == 0 ? "last" : where == 1 ? "first" : where == 2 ? "in the middle" : "only")));
  x.note(format("%s nibble %x low %u position %u: %zu rows of %zu bytes", f.str().c_str(), nib, lo, where, rows.size(), L));
  check_rows(x, f, sg::Comp::rle, L, rows, 100);
}
struct Sym { int nib, lo, b; char c; };
static const std::vector<Sym> A{{8, 0, 0, 0}, {8, 15, 0, 0}, {9, 0, 0, 0}, {10, 15, 0, 0}, {11, 3, 0, 0}, {0, 0, 0, 0}, {0, 1, 5, 0}, {12, 0, 0, 'x'}, {12, 15, 0, ' '}, {4, 0, 0, 'y'}, {4, 1, 3, 0},
                                {13, 0, 0, 0}, {14, 0, 0, 0}, {15, 0, 0, 0}, {5, 0, 0, 0}, {6, 0, 1, 0}, {7, 0, 0, 0}, {14, 15, 0, 0}, {6, 1, 0, 0}, {7, 1, 2, 0}};
static void sequences(Ctx &x) {
  uint32_t where = x.choose(4);
  sg::Fmt f = pick_fmt(x, 2);
  size_t k = mc::thorough() ? 5 : 3;
  size_t L = 330 * k + 64;
  Bytes code, out; std::string what; uint32_t seed = 1;
  auto add = [&](Bytes &c, Bytes &o, std::string &w, size_t s) { auto q = cmd(A[s].nib, A[s].lo, A[s].b, seed++, A[s].c); c += q.code; o += q.out; w += format("%x%x/%zu ", A[s].nib, A[s].lo, q.out.size()); };
  for (size_t i = 2; i < k; ++i) add(code, out, what, x.choose(uint32_t(A.size())));
  std::vector<EncRow> rows;
  for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) {
    Bytes c = code, o = out; std::string w = what; add(c, o, w, i); add(c, o, w, j);
    rows.push_back(place(c, o, L, where, w));
  }
  x.note(format("%s position %u prefix [%s]: %zu rows", f.str().c_str(), where, what.c_str(), rows.size()));
  check_rows(x, f, sg::Comp::rle, L, rows);
}
// short rows, all of whose bytes come from one command: row lengths 1..80
static void short_rows(Ctx &x) {
  sg::Fmt f = pick_fmt(x);
  size_t L = 4 + x.choose(100);
  std::vector<EncRow> rows;
  for (int nib : NIB) for (int lo = 0; lo < 16; ++lo) for (int b = 0; b < (nib == 0 || (nib >= 4 && nib <= 7) ? 70 : 1); ++b) {
    auto c = cmd(nib, lo, b, uint32_t(L), 'k');
    if (c.out.size() != L || c.code.size() >= L) continue;
    rows.push_back({c.code, {c.out}, false, -1, format("%x%x alone", nib, lo)});
    // a leading copy of one byte, then the command
    auto d = cmd(8, 0, 0, 9, 0);
    if (c.code.size() + d.code.size() < L) rows.push_back({c.code + d.code, {c.out}, false, -1, "bytes after the row is complete"});
  }
  // two commands that fill the row exactly
  for (int n1 : NIB) for (int lo = 0; lo < 16; ++lo) {
    auto c1 = cmd(n1, lo, 0, 3, '!');
    for (int n2 : {13, 14, 15, 12, 8}) for (int l2 = 0; l2 < 16; ++l2) { auto c2 = cmd(n2, l2, 0, 5, '?'); if (c1.out.size() + c2.out.size() == L && c1.code.size() + c2.code.size() < L) rows.push_back({c1.code + c2.code, {c1.out + c2.out}, false, -1, format("%x%x %x%x", n1, lo, n2, l2)}); }
  }
  if (rows.empty()) x.prune();
  rows.push_back({noise(L, 77), {noise(L, 77)}, false, -1, "stored as is"});
  x.note(format("%s rows of %zu bytes: %zu encodings", f.str().c_str(), L, rows.size()));
  check_rows(x, f, sg::Comp::rle, L, rows);
}
// malformed: cut anywhere, unknown commands, too long; sound rows around stay sound
static void malformed(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  uint32_t kind = x.choose(3); // 0 cut, 1 unknown command, 2 overflow
  size_t L = 400;
  std::vector<EncRow> rows;
  auto good = [&] { Bytes o; EncRow e; filler(e.enc, o, L, char(0xee)); e.accept = {o}; e.what = "sound row"; rows.push_back(e); };
  auto bad = [&](Bytes enc, std::vector<Bytes> acc, const std::string &w) {
    if (enc.empty() || enc.size() >= L) return; // nothing stored, or stored as is
    good(); EncRow e; e.enc = std::move(enc); e.may_throw = true; e.what = w;
    for (auto &a : acc) { if (a.size() > L) a.resize(L); a.resize(L, 0); e.accept.push_back(a); }
    rows.push_back(e); good();
  };
  size_t s1 = x.choose(uint32_t(A.size()));
  auto c1 = cmd(A[s1].nib, A[s1].lo, A[s1].b, 1, A[s1].c);
  if (c1.out.size() > 340) c1 = cmd(0, 1, 0, 1, 0);
  for (size_t s2 = 0; s2 < A.size(); ++s2) {
    auto c2 = cmd(A[s2].nib, A[s2].lo, A[s2].b, 2, A[s2].c);
    if (kind == 0) {
      Bytes all = c1.code + c2.code;
      if (c1.out.size() + c2.out.size() > L) continue;
      for (size_t n = 1; n < all.size(); ++n) {
        std::vector<Bytes> acc;
        Bytes done;
        auto part = [&](const Cmd &c, size_t m) { // m bytes of c present
          acc.push_back(done);
          bool copy = c.code.size() > c.head;
          if (copy && m > c.head) acc.push_back(done + c.out.substr(0, m - c.head));
        };
        if (n < c1.code.size()) part(c1, n); else { done = c1.out; part(c2, n - c1.code.size()); }
        bad(all.substr(0, n), acc, format("cut after %zu of %zu bytes", n, all.size()));
      }
    } else if (kind == 1) {
      for (int nib = 1; nib <= 3; ++nib) for (int lo : {0, 1, 15}) {
        bad(c1.code + Bytes(1, char(nib << 4 | lo)) + c2.code, {c1.out}, format("unknown command %x%x", nib, lo));
        bad(Bytes(1, char(nib << 4 | lo)), {Bytes()}, "unknown command alone");
      }
    } else {
      // leave exactly out-1 .. 1 bytes for the second command
      for (size_t room : {size_t(1), c2.out.size() - 1}) {
        if (room == 0 || room >= c2.out.size() || c1.out.size() + room + 3 > L) continue;
        Bytes e, o; size_t pad = L - room - c1.out.size(); if (pad < 3) continue;
        filler(e, o, pad, 'p'); e += c1.code; o += c1.out; Bytes base = o;
        bad(e + c2.code, {base, base + c2.out}, format("%zu bytes for a command of %zu", room, c2.out.size()));
      }
    }
  }
  if (rows.empty()) x.prune();
  x.note(format("%s malformed kind %u after %x%x: %zu rows", f.str().c_str(), kind, A[s1].nib, A[s1].lo, rows.size()));
  check_rows(x, f, sg::Comp::rle, L, rows, 30);
}
// rows whose encoding starts like the signature of a metadata subheader
static void signature_like(Ctx &x) {
  sg::Fmt f = pick_fmt(x); bool on_meta = x.flag();
  auto S = sg::sigs(f);
  std::vector<EncRow> rows;
  const size_t L = 5000;
  for (const Bytes &s : {S.rowsize, S.colsize, S.counts, S.text, S.name, S.attr, S.fmt, S.list}) for (bool swap : {false, true}) {
    Bytes code = swap && f.u64 ? s.substr(4) + s.substr(0, 4) : s, out, probe = code + noise(L, 5);
    // decode the commands the signature spells, letting the last one run on into more bytes
    size_t i = 0; bool ok = true;
    while (i < s.size() && ok) {
      unsigned char c = (unsigned char)probe[i]; int nib = c >> 4, lo = c & 15; unsigned char b = (unsigned char)probe[i + 1];
      if (nib >= 1 && nib <= 3) { ok = false; break; }
      auto q = cmd(nib, lo, (nib == 0 || (nib >= 4 && nib <= 7)) ? b : 0, 1, nib == 4 ? probe[i + 2] : probe[i + 1]);
      if (q.code.size() > q.head) q.out = probe.substr(i + q.head, q.out.size());
      out += q.out; i += q.code.size();
    }
    if (!ok || out.size() > L || i >= L) continue;
    Bytes o = out; o.resize(L, 0);
    rows.push_back({probe.substr(0, i), {o}, false, -1, "encoding starts with " + mc::hex(code)});
  }
  if (rows.empty()) x.prune();
  x.note(format("%s rows spelled like signatures, %s: %zu rows", f.str().c_str(), on_meta ? "on the metadata page" : "on their own page", rows.size()));
  check_rows(x, f, sg::Comp::rle, L, rows, 256, on_meta);
}
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("single-commands", single);
    mc::add("sequences", sequences);
    mc::add("short-rows", short_rows);
    mc::add("malformed", malformed);
    mc::add("signature-like", signature_like);
  });
}
