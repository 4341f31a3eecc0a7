// C15: failing data sources.
#include "ops.hpp"
#include <cppsas7bdat/source/ifstream.hpp>
#include <sys/stat.h>
using namespace hx;
struct SourceError { int id; };               // not a std::exception
struct SourceFault : std::runtime_error { using runtime_error::runtime_error; };
enum Mode { CLEAN, CLEAN_EOF, PARTIAL, PARTIAL_EOF, GARBAGE, THROW, THROW_STD, THROW_PARTIAL, EARLY_EOF, EOF_THROW, NMODES };
static const char *mode_name(int m) { static const char *n[] = {"fails", "fails at end of file", "fails after half", "ends after half", "fails after garbage", "throws", "throws std", "throws after half", "early eof()", "eof() throws"}; return n[m]; }
struct Fault { int at; int mode; bool sticky; }; // at: index of the call of the kind concerned
struct Ctl { std::vector<Fault> faults; int reads = 0, eofs = 0; int injected = 0, thrown = 0; int last_thrown = -1; bool std_thrown = false; bool live = true; };
struct FaultSource {
  Data data; std::shared_ptr<Ctl> ctl; size_t pos = 0; bool at_eof = false;
  FaultSource(Data d, std::shared_ptr<Ctl> c) : data(std::move(d)), ctl(std::move(c)) {}
  const Fault *hit(bool eof, int k) const { for (auto &f : ctl->faults) if ((f.mode >= EARLY_EOF) == eof && (f.sticky ? k >= f.at : k == f.at)) return &f; return nullptr; }
  [[noreturn]] void raise(bool std_) { ++ctl->thrown; ctl->last_thrown = ctl->thrown; ctl->std_thrown = std_; if (std_) throw SourceFault(format("fault %d", ctl->thrown)); throw SourceError{ctl->thrown}; }
  bool eof() {
    if (auto *f = hit(true, ctl->eofs++)) { ++ctl->injected; if (f->mode == EOF_THROW) raise(false); return true; }
    return at_eof;
  }
  bool read_bytes(void *p, const size_t n) {
    auto *f = hit(false, ctl->reads++);
    size_t k = at_eof ? 0 : std::min(n, data->size() - pos);
    if (f) {
      ++ctl->injected;
      switch (f->mode) {
      case CLEAN: return false;
      case CLEAN_EOF: at_eof = true; return false;
      case PARTIAL: case PARTIAL_EOF: case THROW_PARTIAL: k /= 2; memcpy(p, data->data() + pos, k); pos += k; if (f->mode == PARTIAL_EOF) at_eof = true; if (f->mode == THROW_PARTIAL) raise(false); return false;
      case GARBAGE: { auto *b = static_cast<unsigned char *>(p); for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)(i * 37 + 1); pos += k; return false; }
      case THROW: raise(false);
      case THROW_STD: raise(true);
      }
    }
    if (at_eof) return false;
    if (k) memcpy(p, data->data() + pos, k);
    pos += k; if (k < n) { at_eof = true; return false; }
    return true;
  }
};
// the histories: what is called, again and again, until six steps in a row got nothing
enum Hist { H_ROW, H_PEEK, H_ALL, H_ROWS2, H_ALT, H_SKIP, H_MIX, NH };
static const char *hist_name(int h) { static const char *n[] = {"read_row", "read_row_no_sink", "read_all", "read_rows(2)", "skip(1)/read_row", "skip(2)", "all kinds"}; return n[h]; }
// the properties of the complete file
static const std::string &intact(const Case &c) {
  static std::map<const Case *, std::string> m; auto i = m.find(&c); if (i != m.end()) return i->second;
  cs::Reader r(MemSource(share(c.bytes)), RecSink(std::make_shared<Log>())); return m[&c] = props_text(r.properties());
}
static void run(Ctx &x, const Case &c, std::vector<Fault> faults, int hist) {
  auto ctl = std::make_shared<Ctl>(); ctl->faults = faults;
  auto where = [&] { std::string s = c.l.str() + ", " + hist_name(hist); for (auto &f : faults) s += format(", %s #%d ", f.mode >= EARLY_EOF ? "eof call" : "read", f.at) + mode_name(f.mode) + (f.sticky ? " from then on" : ""); return s; };
  auto log = std::make_shared<Log>(); std::unique_ptr<cs::Reader> r; size_t pos = 0, seen = 0; bool raised_any = false;
  // runs fn; returns 0: normal, 1: exception
  auto guarded = [&](const char *what, auto &&fn) {
    int t0 = ctl->thrown, i0 = ctl->injected; bool ex = false; std::string m;
    try { fn(); } catch (const SourceError &e) { ex = true; if (ctl->thrown == t0 || e.id != ctl->last_thrown) x.fail(where() + ": an old exception of the source came out of " + what); }
    catch (const SourceFault &e) { ex = true; if (ctl->thrown == t0 || e.what() != format("fault %d", ctl->last_thrown)) x.fail(where() + ": an old exception of the source came out of " + what); }
    catch (const mc::Violation &) { throw; } catch (const mc::ToolError &) { throw; }
    catch (const std::exception &e) { ex = true; m = e.what(); if (ctl->thrown != t0) x.fail(where() + ": the source's exception was replaced by " + m); if (ctl->injected == i0 && !raised_any && ctl->injected == 0) x.fail(where() + ": exception without any fault: " + m); }
    if (ctl->thrown != t0 && !ex) x.fail(where() + format(": the source's exception was swallowed by %s", what));
    if (ex) raised_any = true;
    return ex;
  };
  bool refused = guarded("opening", [&] { r = std::make_unique<cs::Reader>(FaultSource(share(c.bytes), ctl), RecSink(log)); });
  x.transition();
  if (refused) { x.checked(); x.state(1); return; }
  cs::COLUMNS cols(r->properties().columns); bool partial = cols.size() != c.cols.size();
  if (partial && !ctl->injected) x.fail(where() + ": columns are missing");
  if (cols.size() > c.cols.size()) x.fail(where() + ": columns were invented");
  for (size_t i = 0; i < cols.size(); ++i) if (cols[i].name != c.cols[i].name || cols[i].length() != c.cols[i].len || cols[i].label != c.cols[i].label || cols[i].format != c.cols[i].format || type_name(cols[i].type) != std::string(ref::kind_name(ref::kind(c.cols[i])))) x.fail(where() + ": column " + cols[i].name + " instead of " + c.cols[i].name);
  { std::string g = props_text(r->properties()); if (!partial && g != intact(c)) x.fail(where() + ": properties are " + g + " instead of " + intact(c)); }
  auto sync = [&] { for (; seen < log->ev.size(); ++seen) { auto &e = log->ev[seen]; if (e.kind != 'R') continue; if (partial || e.index >= c.expect.size()) x.fail(where() + format(": row %zu was invented", e.index)); if (e.index != pos) x.fail(where() + format(": row %zu came after row %zu", e.index, pos)); if (e.row != c.expect[pos]) x.fail(where() + format(": row %zu is ", pos) + e.row + " instead of " + c.expect[pos]); ++pos; } };
  int idle = 0; size_t steps = 0; bool clean_end = false;
  while (idle < 6) {
    if (++steps > 300) x.fail(where() + ": never ends");
    int op = hist; if (hist == H_ALT) op = steps % 2 ? H_SKIP + 100 : H_ROW; if (hist == H_MIX) { static const int seq[] = {H_ROW, H_PEEK, H_SKIP, H_ROWS2, H_PEEK, H_ALL}; op = seq[steps % 6]; }
    size_t before = pos; int i0 = ctl->injected;
    bool more = false; const void *p = nullptr;
    bool ex = guarded(op >= 100 ? "skip" : hist_name(op), [&] {
      switch (op) {
      case H_ROW: more = r->read_row(); break;
      case H_PEEK: p = r->read_row_no_sink(); more = p != nullptr; break;
      case H_ALL: r->read_all(); break;
      case H_ROWS2: more = r->read_rows(2); break;
      case H_SKIP: case H_SKIP + 100: { size_t n = op == H_SKIP ? 2 : 1, b = r->current_row_index(); more = r->skip(n); size_t d = r->current_row_index() - b; if (d > n || (more && d != n)) x.fail(where() + ": skip count"); } break;
      }
    });
    sync();
    if (p) { if (partial || pos >= c.expect.size()) x.fail(where() + format(": row %zu was invented", pos)); std::string s = row_text(cols, p); if (s != c.expect[pos]) x.fail(where() + format(": row %zu is ", pos) + s + " instead of " + c.expect[pos]); ++pos; }
    if (r->current_row_index() < pos) x.fail(where() + ": current_row_index went back");
    if (r->current_row_index() > c.expect.size()) x.fail(where() + ": more rows than stored");
    if (op == H_SKIP || op >= 100) pos = r->current_row_index(); // skipped rows
    if (r->current_row_index() != pos) x.fail(where() + format(": current_row_index is %zu after %zu rows", r->current_row_index(), pos));
    (void)i0;
    if (!ex && !more && ctl->injected == 0) clean_end = true;
    if (clean_end && ctl->injected == 0 && pos != c.expect.size()) x.fail(where() + format(": ended after %zu rows without a fault", pos));
    idle = pos == before ? idle + 1 : 0;
    x.transition(); x.state(mc::combine(mc::hash(c.l.str(), pos), ex * 4 + (ctl->injected > 0) * 2 + more));
  }
  if (ctl->injected == 0 && pos != c.expect.size()) x.fail(where() + ": rows are missing without a fault");
  x.checked(pos + steps);
}
// reads and eof calls of a complete history without faults
static std::pair<int, int> calls(const Case &c) {
  static std::map<const Case *, std::pair<int, int>> m; auto i = m.find(&c); if (i != m.end()) return i->second;
  auto ctl = std::make_shared<Ctl>(); { cs::Reader r(FaultSource(share(c.bytes), ctl), RecSink(std::make_shared<Log>())); r.read_all(); r.read_row(); }
  return m[&c] = {ctl->reads, ctl->eofs};
}
static const Case &layout(Ctx &x, uint32_t nf) { auto fs = all_formats(); sg::Fmt f = nf >= 8 ? x.pick(fs) : x.pick(std::vector<sg::Fmt>{fs[0], fs[7]}); auto ls = zoo(f); return cached(x.pick(ls)); }
static Fault fault(Ctx &x, const Case &c) {
  auto [nr, ne] = calls(c); Fault f; f.mode = int(x.choose(NMODES)); f.sticky = x.flag(); f.at = int(x.choose(uint32_t((f.mode >= EARLY_EOF ? ne : nr) + 1))); return f;
}
static void one(Ctx &x) { const Case &c = layout(x, 8); int h = int(x.choose(NH)); auto f = fault(x, c); x.note(c.l.str() + format(" history %d fault %d at %d sticky %d", h, f.mode, f.at, f.sticky)); x.outcome(mc::hash(c.l.str() + format("%d %d %d %d", h, f.mode, f.at, f.sticky))); run(x, c, {f}, h); }
static void two(Ctx &x) {
  const Case &c = layout(x, mc::thorough() ? 8 : 2); int h = mc::thorough() ? int(x.choose(NH)) : x.pick({int(H_MIX), int(H_ROW), int(H_ROWS2)}); auto f = fault(x, c); if (f.sticky) x.prune(); auto g = fault(x, c);
  if ((f.mode >= EARLY_EOF) == (g.mode >= EARLY_EOF) && g.at <= f.at) x.prune();
  x.note(c.l.str() + format(" history %d faults %d at %d, %d at %d sticky %d", h, f.mode, f.at, g.mode, g.at, g.sticky)); x.outcome(mc::hash(c.l.str() + format("%d %d %d %d %d %d", h, f.mode, f.at, g.mode, g.at, g.sticky))); run(x, c, {f, g}, h);
}
// files that cannot be opened, through the library's own file source
static std::string scratch;
static void files(Ctx &x) {
  static const char *kinds[] = {"missing", "missing folder", "a folder", "unreadable", "empty name", "an empty file", "a dangling link", "a link loop", "name too long", "a file as folder", "a readable file", "/dev/null"};
  uint32_t k = x.choose(12); std::string d = scratch + format("/p%d", int(getpid())); mkdir(d.c_str(), 0755); const Case &c = layout(x, 2); std::string p = d + "/f";
  auto write = [&](const Bytes &b) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) throw mc::ToolError{"scratch file"}; };
  bool uid = false, at_open = true;
  switch (k) {
  case 0: break; case 1: p = d + "/no/f"; break; case 2: p = d; at_open = false; break;
  case 3: write(c.bytes); chmod(p.c_str(), 0); if (geteuid() == 0) { chmod(scratch.c_str(), 0711); uid = true; } break;
  case 4: p = ""; break; case 5: write(""); at_open = false; break; case 6: if (symlink("nowhere", p.c_str())) throw mc::ToolError{"symlink"}; break; case 7: if (symlink("f", p.c_str())) throw mc::ToolError{"symlink"}; break;
  case 8: p += std::string(5000, 'x'); break; case 9: write("x"); p += "/g"; break; case 10: write(c.bytes); break; case 11: p = "/dev/null"; at_open = false; break;
  }
  if (uid && seteuid(65534)) throw mc::ToolError{"seteuid"};
  bool source = false, reader = false, refused = false; std::string other;
  auto log = std::make_shared<Log>();
  try { cs::datasource::ifstream s(p.c_str()); source = true; cs::Reader r(std::move(s), RecSink(log)); reader = true; r.read_all(); } catch (const std::exception &e) { refused = true; } catch (...) { other = "not a standard exception"; }
  if (uid && seteuid(0)) throw mc::ToolError{"seteuid back"};
  if (k != 11) unlink((d + "/f").c_str()); rmdir(d.c_str());
  std::string w = std::string(kinds[k]) + ": "; x.note(w);
  if (!other.empty()) x.fail(w + other);
  if (k == 10) { if (!reader || refused) x.fail(w + "refused"); size_t n = 0; for (auto &e : log->ev) if (e.kind == 'R') { if (e.row != c.expect[n]) x.fail(w + "rows"); ++n; } if (n != c.expect.size()) x.fail(w + "rows are missing"); }
  else { if (!refused || reader) x.fail(w + "no exception"); if (at_open && source) x.fail(w + "opened, and refused later only"); }
  x.checked(); x.outcome(mc::hash(w + c.l.str())); x.transition(); x.state(k);
}
int main(int argc, char **argv) {
  quiet();
  char t[] = "/tmp/c15-XXXXXX"; if (!mkdtemp(t)) return 2; scratch = t;
  int rc = mc::main_(argc, argv, [] {
    mc::add("one-fault", one);
    mc::add("two-faults", two);
    mc::add("files", files);
  });
  rmdir(t);
  return rc;
}
