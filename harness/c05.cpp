// C05: RDC item sequences, through the real reader.
#include "rows.hpp"
using namespace hx;

enum { KNOWN_TAIL = 0 };
struct Item { char kind; size_t n = 1, dist = 0; char c = 0; }; // L literal, R run, P pattern
static std::string show(const Item &i) { return i.kind == 'L' ? format("L%02x", (unsigned char)i.c) : i.kind == 'R' ? format("R%zu", i.n) : format("P%zu@%zu", i.n, i.dist); }
static size_t expand(const Item &i, Bytes &o) {
  if (i.kind == 'P') { for (size_t k = 0; k < i.n; ++k) o += o[o.size() - i.dist]; return i.n <= 15 ? 2 : 3; }
  o.append(i.n, i.c); return i.kind == 'L' ? 1 : i.n <= 18 ? 2 : 3;
}
struct Seq {
  sg::RdcWriter w; Bytes out; std::string what; size_t items = 0;
  std::vector<size_t> cost; std::vector<size_t> outlen; // after each item
  void add(const Item &i) {
    if (i.kind == 'L') w.literal(i.c); else if (i.kind == 'R') w.run(i.c, i.n); else w.ref(i.dist, i.n);
    cost.push_back(expand(i, out)); outlen.push_back(out.size()); ++items;
    if (what.size() < 120) what += show(i) + " ";
  }
  void literals(const Bytes &b) { for (char c : b) add({'L', 1, 0, c}); }
  void fill(size_t n, char c) { while (n) { size_t k = std::min<size_t>(n, 4114); if (n - k == 1 || n - k == 2) k -= 3; add({'R', k, 0, c}); n -= k; } }
};
// the row left when the reader gives up at the item boundary with fewer than 3 bytes left (recorded finding)
static Bytes dropped(const Seq &s, size_t encoded, size_t L) {
  size_t used = 0, o = 0;
  for (size_t i = 0; i < s.cost.size(); ++i) {
    if (encoded - used < 3) break;
    if (i % 16 == 0) used += 2;
    used += s.cost[i]; o = s.outlen[i];
  }
  Bytes r = s.out.substr(0, o); r.resize(L, 0); return r;
}
static EncRow exact(const Seq &s, size_t L, const std::string &what) {
  if (s.out.size() != L) sg::bug("row length");
  Seq t = s; EncRow e; e.enc = t.w.done() + Bytes(2, '\0'); e.accept = {s.out}; e.what = what + s.what; return e;
}
// bytes that a row can be extended with so that its encoding is shorter than the row
static const size_t SLACK = 700;

static void singles(Ctx &x) {
  sg::Fmt f = pick_fmt(x, mc::thorough() ? 4 : 2);
  uint32_t kind = x.choose(4), part = x.choose(16);
  std::vector<EncRow> rows; size_t L = 0, per_page = 64;
  std::vector<Seq> q;
  auto base = [&](size_t n, uint32_t seed) { Seq s; s.literals(noise(n, seed)); return s; };
  if (kind == 0) { // short runs: every length x every byte
    for (size_t n = 3; n <= 18; ++n) for (unsigned c = part * 16; c < part * 16 + 16; ++c) for (size_t pre : {size_t(0), size_t(5)}) { auto s = base(pre, c); s.add({'R', n, 0, char(c)}); q.push_back(s); }
  } else if (kind == 1) { // long runs: every length
    for (size_t n = 19 + part; n <= 19 + 15 + 255 * 16; n += 16) { auto s = base(n % 7, uint32_t(n)); s.add({'R', n, 0, char(n * 5 + 1)}); q.push_back(s); }
    per_page = 16;
  } else if (kind == 2) { // short patterns: every count, distances in this part
    static const size_t D[] = {3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 34, 35, 50, 51, 63, 64, 66, 67, 127, 128, 130, 131, 255, 256, 257, 258, 259, 260, 511, 512, 514, 515, 1000, 1023, 1026, 1027, 2047, 2050, 2051, 4000, 4082, 4083, 4095, 4096, 4097, 4098};
    for (size_t i = part; i < sizeof D / sizeof *D; i += 16) for (size_t n = 3; n <= 15; ++n) { auto s = base(D[i] + n % 3, uint32_t(D[i] * 16 + n)); s.add({'P', n, D[i], 0}); q.push_back(s); }
  } else { // long patterns: every count, short and long distances
    static const size_t D[] = {3, 4, 7, 15, 16, 17, 18, 19, 34, 100, 255, 258, 271, 272, 300, 4098};
    for (size_t n = 16; n <= 271; ++n) { auto s = base(D[part] + n % 2, uint32_t(n)); s.add({'P', n, D[part], 0}); q.push_back(s); }
  }
  for (auto &s : q) L = std::max(L, s.out.size());
  L += SLACK;
  // the command is the last item of the row, or followed by others
  uint32_t where = x.choose(2);
  for (auto &s : q) {
    if (where == 0) { s.fill(L - s.out.size(), 'z'); rows.push_back(exact(s, L, "")); }
    else {
      // filler first, so that the command ends the row
      Seq t; size_t rest = L - s.out.size(); t.fill(rest, 'z'); size_t n = s.items - 1;
      // replay the items of s after the filler
      t.literals(s.out.substr(0, n)); // all but the last are literals
      Item last; size_t k = s.out.size() - n;
      if (kind <= 1) last = {'R', k, 0, s.out.back()}; else { size_t d = 0; for (d = n; d >= 3; --d) { Bytes o = s.out.substr(0, n); Item p{'P', k, d, 0}; expand(p, o); if (o == s.out) break; } last = {'P', k, d, 0}; }
      t.add(last);
      rows.push_back(exact(t, L, "last: "));
    }
  }
  x.note(format("%s kind %u part %u: %zu rows of %zu bytes", f.str().c_str(), kind, part, rows.size(), L));
  check_rows(x, f, sg::Comp::rdc, L, rows, per_page);
}
// every distance of the short and long pattern operands
static void distances(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  bool lng = x.flag(); uint32_t lo = x.choose(16);
  size_t n = lng ? 16 + lo * 17 : 3 + lo % 13;
  size_t step = 1, L = 4098 + 271 + SLACK;
  std::vector<EncRow> rows;
  Bytes h = noise(4098, lo + 1);
  for (size_t v = 0; v < 256; v += step) {
    size_t dist = 3 + lo + 16 * ((v * 5 + lo) % 256);
    Seq s; s.literals(h.substr(0, dist)); s.add({'P', n, dist, 0}); s.fill(L - s.out.size(), 'z');
    rows.push_back(exact(s, L, ""));
  }
  x.note(format("%s %s pattern of %zu, low bits %u: %zu distances", f.str().c_str(), lng ? "long" : "short", n, lo, rows.size()));
  check_rows(x, f, sg::Comp::rdc, L, rows, 16);
}
static const std::vector<Item> &symbols() {
  static const std::vector<Item> v{{'L', 1, 0, 'a'}, {'L', 1, 0, '\0'}, {'R', 3, 0, 'r'}, {'R', 18, 0, ' '}, {'R', 19, 0, 's'}, {'R', 40, 0, '\0'}, {'P', 3, 3, 0}, {'P', 15, 4, 0}, {'P', 5, 9, 0}, {'P', 16, 3, 0}, {'P', 20, 17, 0}};
  return v;
}
// all sequences of k items, starting at each phase of a control word
static void sequences(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  const auto &A = symbols();
  uint32_t phase = x.choose(mc::thorough() ? 34 : 18);
  size_t k = mc::thorough() ? 5 : 4;
  Seq s0; s0.literals(noise(18 + phase % 18 + (phase >= 18 ? 16 : 0), phase + 1)); // patterns reach back to these
  for (size_t i = 2; i < k; ++i) s0.add(A[x.choose(uint32_t(A.size()))]);
  std::vector<EncRow> rows; size_t L = 420;
  for (auto &a : A) for (auto &b : A) {
    Seq s = s0; s.add(a); s.add(b);
    Seq e = s; e.fill(L - e.out.size(), 'e'); rows.push_back(exact(e, L, ""));
  }
  x.note(format("%s phase %u [%s]: %zu rows", f.str().c_str(), phase, s0.what.c_str(), rows.size()));
  check_rows(x, f, sg::Comp::rdc, L, rows);
}
// all arrangements of literals and commands around control word boundaries, row ending with the items
static void endings(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  uint32_t phase = x.choose(34); // items before
  std::vector<EncRow> rows; size_t L = 320;
  static const std::vector<Item> E{{'L', 1, 0, 'q'}, {'R', 3, 0, 'r'}, {'R', 20, 0, 's'}, {'P', 4, 3, 0}, {'P', 16, 5, 0}};
  size_t k = mc::thorough() ? 5 : 4, n = 1; for (size_t i = 0; i < k; ++i) n *= E.size();
  size_t i0 = x.choose(5);
  for (size_t code = i0 * (n / 5); code < (i0 + 1) * (n / 5); ++code) {
    std::vector<Item> it; size_t c = code; for (size_t i = 0; i < k; ++i) { it.push_back(E[c % E.size()]); c /= E.size(); }
    // the filler run makes the row long enough; the literals before put the items at the wanted phase
    Seq probe; probe.literals(noise(8, 2)); size_t tail = 0; for (auto &i : it) tail += i.n;
    Seq s; size_t lits = phase + 7;
    s.fill(L - tail - lits, '.'); s.literals(noise(lits, phase + 3)); for (auto &i : it) s.add(i);
    rows.push_back(exact(s, L, format("phase %u ", phase)));
  }
  x.note(format("%s phase %u block %zu: %zu rows", f.str().c_str(), phase, i0, rows.size()));
  check_rows(x, f, sg::Comp::rdc, L, rows);
}
// rows whose stored bytes end exactly with the last item
static void unpadded(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  uint32_t phase = x.choose(34); bool pad1 = x.flag();
  std::vector<EncRow> rows; size_t L = 320;
  static const std::vector<Item> E{{'L', 1, 0, 'q'}, {'L', 1, 0, 'p'}, {'R', 3, 0, 'r'}, {'R', 20, 0, 's'}, {'P', 4, 3, 0}, {'P', 16, 5, 0}};
  for (auto &a : E) for (auto &b : E) for (auto &c : E) {
    size_t tail = a.n + b.n + c.n, lits = phase + 7;
    Seq s; s.fill(L - tail - lits, '.'); s.literals(noise(lits, phase + 3)); s.add(a); s.add(b); s.add(c);
    Seq t = s; EncRow e; e.enc = t.w.done(); if (pad1) e.enc += char(0);
    e.accept = {s.out, dropped(s, e.enc.size(), L)}; e.known = 1; e.what = s.what;
    rows.push_back(e);
  }
  x.note(format("%s phase %u filler %d: %zu rows", f.str().c_str(), phase, int(pad1), rows.size()));
  size_t k = check_rows(x, f, sg::Comp::rdc, L, rows);
  if (k && !mc::known("rdc-short-tail")) x.fail(format("%zu of %zu rows lose their last command", k, rows.size()));
  if (k) x.count(KNOWN_TAIL, k);
}
static void malformed(Ctx &x) {
  sg::Fmt f = pick_fmt(x, 2);
  uint32_t kind = x.choose(3); // 0 cut, 1 reference before the row, 2 overflow
  size_t L = 260;
  std::vector<EncRow> rows;
  auto good = [&] { Seq s; s.fill(L, char(0xee)); EncRow e = exact(s, L, "sound row "); rows.push_back(e); };
  auto bad = [&](const Bytes &enc, std::vector<Bytes> acc, const std::string &w) {
    if (enc.empty() || enc.size() >= L) return;
    good(); EncRow e; e.enc = enc; e.may_throw = true; e.what = w;
    for (auto &a : acc) { if (a.size() > L) a.resize(L); a.resize(L, 0); e.accept.push_back(a); }
    rows.push_back(e); good();
  };
  const auto &A = symbols();
  uint32_t phase = x.choose(18);
  Seq s0; s0.literals(noise(18 + phase, phase + 1));
  if (kind == 0) {
    for (auto &a : A) for (auto &b : A) {
      Seq s = s0; s.add(a); s.add(b); Seq t = s; Bytes enc = t.w.done();
      for (size_t cut = enc.size() > 12 ? enc.size() - 12 : 1; cut < enc.size(); ++cut) {
        // complete items within the cut; an ending of fewer than 3 bytes may be given up
        std::vector<Bytes> acc; size_t used = 0, o = 0; acc.push_back({});
        for (size_t i = 0; i < s.cost.size(); ++i) { if (i % 16 == 0) used += 2; used += s.cost[i]; if (used > cut) break; o = s.outlen[i]; if (used + 3 + 2 > cut) acc.push_back(s.out.substr(0, o)); }
        std::reverse(acc.begin(), acc.end()); acc.pop_back(); if (acc.empty()) acc.push_back({});
        bad(enc.substr(0, cut), acc, format("cut after %zu of %zu bytes: ", cut, enc.size()) + s.what);
      }
    }
  } else if (kind == 1) {
    for (size_t have : {0, 1, 2, 3, 5, 16}) for (size_t dist : {3, 4, 6, 17, 18, 300, 4098}) for (size_t n : {3, 15, 16, 40}) {
      if (dist <= have) continue;
      Seq s; s.literals(noise(phase, 4)); if (phase + have >= dist) continue; s.literals(noise(have, 3)); Bytes o = s.out; s.w.ref(dist, n);
      bad(s.w.done() + Bytes(2, 0), {o}, format("distance %zu with %zu bytes before", dist, o.size()));
    }
  } else {
    for (auto &a : A) { if (a.n < 2) continue;
      for (size_t room : {size_t(1), a.n - 1}) {
        Seq s = s0; s.fill(L - room - s.out.size(), 'p'); Bytes o = s.out, full = o; expand(a, full);
        if (a.kind == 'R') s.w.run(a.c, a.n); else s.w.ref(a.dist, a.n);
        bad(s.w.done() + Bytes(2, 0), {o, full}, format("%zu bytes left for ", room) + show(a));
      } }
  }
  if (rows.empty()) x.prune();
  x.note(format("%s malformed kind %u phase %u: %zu rows", f.str().c_str(), kind, phase, rows.size()));
  check_rows(x, f, sg::Comp::rdc, L, rows, 50);
}
// encodings that start like the signature of a metadata subheader
static void signature_like(Ctx &x) {
  sg::Fmt f = pick_fmt(x); bool on_meta = x.flag();
  auto S = sg::sigs(f);
  std::vector<EncRow> rows; const size_t L = 400;
  for (const Bytes &s : {S.rowsize, S.colsize, S.counts, S.text, S.name, S.attr, S.fmt, S.list}) for (bool swap : {false, true}) {
    Bytes p = swap && f.u64 ? s.substr(4) + s.substr(0, 4) : s;
    unsigned ctrl = (unsigned)(unsigned char)p[0] << 8 | (unsigned char)p[1];
    // decode the items spelled; only rows that start with enough literals can be well formed
    Bytes full = p + noise(64, 9), out; size_t i = 2; bool ok = true;
    for (int bit = 15; bit >= 0 && ok; --bit) {
      if (!(ctrl >> bit & 1)) { out += full[i++]; continue; }
      unsigned char v = (unsigned char)full[i++]; unsigned c = v >> 4, n = v & 15;
      if (c == 0) { out.append(n + 3, full[i++]); }
      else if (c == 1) { size_t k = n + 19 + ((size_t)(unsigned char)full[i] << 4); ++i; out.append(k, full[i++]); }
      else { size_t d = n + 3 + ((size_t)(unsigned char)full[i++] << 4), k = c; if (c == 2) k = 16 + (size_t)(unsigned char)full[i++]; if (d > out.size()) { ok = false; break; } for (; k; --k) out += out[out.size() - d]; }
      if (out.size() > L) ok = false;
    }
    if (!ok) continue;
    Bytes o = out; o.resize(L, 0);
    rows.push_back({full.substr(0, i) + Bytes(2, 0), {o}, false, -1, "encoding starts with " + mc::hex(p)});
  }
  if (rows.empty()) x.prune();
  x.note(format("%s rows spelled like signatures, %s: %zu rows", f.str().c_str(), on_meta ? "on the metadata page" : "on their own page", rows.size()));
  check_rows(x, f, sg::Comp::rdc, L, rows, 256, on_meta);
}
int main(int argc, char **argv) {
  quiet();
  mc::counter_names = {"known:rdc-short-tail"};
  return mc::main_(argc, argv, [] {
    mc::add("single-items", singles);
    mc::add("distances", distances);
    mc::add("sequences", sequences);
    mc::add("endings", endings);
    mc::add("unpadded-endings", unpadded);
    mc::add("malformed", malformed);
    mc::add("signature-like", signature_like);
  });
}
