// C20: the command-line tool, run as a process in a scratch directory of its own.
#include "alloc.hpp"
#include "sinks.hpp"
#include <cppsas7bdat/source/ifstream.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hx;
static std::string scratch, cli; static bool unprivileged = false;
static std::string slurp(const std::string &p) { std::string r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "<no file>"; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, size_t(n)); close(fd); return r; }
static void spit(const std::string &p, const std::string &s) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, s.data(), s.size()) != ssize_t(s.size())) throw mc::ToolError{"cannot write " + p}; close(fd); if (unprivileged && chown(p.c_str(), 65534, 65534)) {} }
static void mkd(const std::string &p) { if (mkdir(p.c_str(), 0755)) throw mc::ToolError{"mkdir " + p}; if (unprivileged && chown(p.c_str(), 65534, 65534)) {} }
static void ln(const std::string &to, const std::string &p, bool hard) { if (hard ? link(to.c_str(), p.c_str()) : symlink(to.c_str(), p.c_str())) throw mc::ToolError{"link " + p}; }
// everything below a directory, relative: kind and content (a symlink's content is its target)
static void scan(const std::string &d, const std::string &rel, std::map<std::string, std::string> &out) {
  DIR *h = opendir(d.c_str()); if (!h) return; std::vector<std::string> v; while (auto e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(h);
  for (auto &n : v) { std::string p = d + "/" + n, q = rel + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); out[q] = "L" + std::string(b, size_t(k < 0 ? 0 : k)); } else if (S_ISDIR(st.st_mode)) { out[q] = "D"; scan(p, q + "/", out); } else out[q] = "F" + slurp(p); }
}
static void wipe(const std::string &d) { if (d.compare(0, scratch.size() + 1, scratch + "/")) throw mc::ToolError{"wipe " + d}; DIR *h = opendir(d.c_str()); if (!h) return; std::vector<std::string> v; while (auto e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(d + "/" + n); } closedir(h); for (auto &p : v) { struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); } rmdir(d.c_str()); }
struct Dir { std::string p; Dir() { p = scratch + format("/w%d", int(getpid())); wipe(p); mkd(p); } ~Dir() { wipe(p); } };
struct Run { int rc = 0; bool crash = false, hang = false; std::string out, err; };
// what the process may use: bytes of each file it writes, open files; where its output goes instead
struct Limits { long fsize = 256 << 20, nofile = 0; const char *to = nullptr; };
static Run run(const std::string &dir, const std::vector<std::string> &args, const Limits &lim = {}) {
  std::string fo = scratch + format("/o%d", int(getpid())), fe = scratch + format("/e%d", int(getpid())); int o = open(fo.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (o < 0 || e < 0) throw mc::ToolError{"scratch"};
  std::vector<char *> av{const_cast<char *>("cppsas7bdat-ci")}; for (auto &a : args) av.push_back(const_cast<char *>(a.c_str())); av.push_back(nullptr);
  bool small = lim.fsize < (1 << 20); int ep[2]; if (small) { close(e); if (pipe(ep)) throw mc::ToolError{"pipe"}; e = ep[1]; } // messages are not limited
  if (lim.to) { close(o); o = open(lim.to, O_WRONLY); if (o < 0) throw mc::ToolError{"output"}; }
  pid_t pid = fork(); if (pid < 0) throw mc::ToolError{"fork"};
  if (!pid) {
    int z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(o, 1); dup2(e, 2); for (int k = 3; k < 64; ++k) close(k); rlimit l{20, 20}; setrlimit(RLIMIT_CPU, &l); l = {rlim_t(lim.fsize), rlim_t(lim.fsize)}; setrlimit(RLIMIT_FSIZE, &l); if (small) signal(SIGXFSZ, SIG_IGN); if (lim.nofile) { l = {rlim_t(lim.nofile), rlim_t(lim.nofile)}; setrlimit(RLIMIT_NOFILE, &l); } l = {0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(120);
    if (unprivileged) { if (syscall(SYS_setgroups, 0, nullptr) || syscall(SYS_setgid, 65534) || syscall(SYS_setuid, 65534)) _exit(123); }
    if (chdir(dir.c_str())) _exit(124); execv(cli.c_str(), av.data()); _exit(125);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} close(o); close(e); Run r; r.out = slurp(fo); r.err = slurp(fe); if (small) { char b[4096]; ssize_t n; while ((n = read(ep[0], b, sizeof b)) > 0) r.err.append(b, size_t(n)); close(ep[0]); } unlink(fo.c_str()); unlink(fe.c_str());
  if (WIFSIGNALED(st)) { r.rc = 128 + WTERMSIG(st); r.crash = true; r.hang = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL; } else { r.rc = WEXITSTATUS(st); if (r.rc >= 123 && r.rc <= 125) throw mc::ToolError{format("cannot start the tool: %d", r.rc)}; r.crash = r.err.find("AddressSanitizer") != std::string::npos || r.rc == 77; }
  return r;
}
// the library logs what is wrong with a file
static std::string without_log(const std::string &s) {
  std::string o; size_t i = 0; bool log = false; while (i < s.size()) { size_t e = s.find('\n', i); e = e == std::string::npos ? s.size() : e + 1; std::string l = s.substr(i, e - i); bool is = l.size() > 28 && l[0] == '[' && isdigit((unsigned char)l[1]) && l[5] == '-' && l.find("] [") == 24; if (!is && !(log && l == "\n")) o += l; log = is; i = e; }
  return o;
}
static std::string show_args(const std::vector<std::string> &a) { std::string s; for (auto &t : a) s += (s.empty() ? "" : " ") + t; return s; }
static std::string clip(const std::string &s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static const std::string &want(Ctx &x, const Case &c, size_t n) {
  static std::map<std::pair<std::string, size_t>, std::string> m; if (n > c.rows.size()) n = c.rows.size(); auto k = std::make_pair(c.l.str(), n); auto i = m.find(k);
  if (i == m.end()) { auto v = lines_of(c.rows); v.resize(n); i = m.emplace(k, want_of(x, c, v)).first; } return i->second;
}
static void same_text(Ctx &x, const std::string &w, const std::string &g, const std::string &e) { x.checked(); if (g == e) return; size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) ++i; x.fail(w + format(": output differs at byte %zu of %zu (expected %zu): '", i, g.size(), e.size()) + clip(g.substr(i > 20 ? i - 20 : 0)) + "' instead of '" + clip(e.substr(i > 20 ? i - 20 : 0)) + "'"); }
// the name of the csv file
static std::string csv_name(const std::string &f) { auto s = f.rfind('/'); std::string d = s == std::string::npos ? "" : f.substr(0, s + 1), b = f.substr(d.size()); auto p = b.rfind('.'); if (p != std::string::npos && p != 0) b.resize(p); return d + b + ".csv"; }
enum Cmd { PRINT, PRINT_N, CSV, NUL };
static std::vector<std::string> command(Cmd c, const std::string &n) { switch (c) { case PRINT: return {"print"}; case PRINT_N: return {"print", n}; case CSV: return {"csv"}; default: return {"null"}; } }
static void crashed(Ctx &x, const std::string &w, const Run &r) { if (r.hang) x.fail(w + ": does not end"); if (r.crash) x.fail(w + format(": crashed (%d): ", r.rc) + clip(r.err)); }
static void failed(Ctx &x, const std::string &w, const Run &r) { x.checked(); if (r.rc == 0) x.fail(w + ": exit status 0, error output '" + clip(r.err) + "'"); if (r.err.empty()) x.fail(w + ": no error message"); }
static void succeeded(Ctx &x, const std::string &w, const Run &r) { x.checked(); if (r.rc) x.fail(w + format(": exit status %d: ", r.rc) + clip(r.err)); }
// inputs as they were; nothing new but the allowed files
static void unharmed(Ctx &x, const std::string &w, const std::map<std::string, std::string> &before, const std::map<std::string, std::string> &after, const std::set<std::string> &may) {
  for (auto &[p, v] : before) { if (may.count(p)) continue; auto i = after.find(p); x.checked(); if (i == after.end()) x.fail(w + ": " + p + " was removed"); if (i->second != v) x.fail(w + ": " + p + " was modified"); }
  for (auto &[p, v] : after) if (!before.count(p) && !may.count(p)) x.fail(w + ": the file " + p + " appeared");
}
static const Case &content(size_t i, size_t fmt = 0) { auto fs = all_formats(); auto z = zoo(fs[fmt % fs.size()]); return cached(z[i % z.size()]); }
// ---- every content with every command and limit
static void contents(Ctx &x) {
  const Case &c = content(x.choose(11), mc::thorough() ? x.choose(8) : x.choose(2) * 7); static const char *N[] = {"0", "1", "2", "3", "4", "5", "7", "100", "2147483647"}; uint32_t how = x.choose(3); Dir d; std::vector<std::string> a; size_t n = SIZE_MAX; int kind = 0;
  if (how == 0) { kind = int(x.choose(3)); a = command(kind == 0 ? PRINT : kind == 1 ? CSV : NUL, ""); }
  else { std::string t = x.pick(N); n = size_t(atol(t.c_str())); if (how == 1) a = {"print", "--nlines=" + t}; else if (x.flag()) a = {"print", "--nlines", t}; else a = {"print", "-n", t}; }
  a.push_back("t.sas7bdat"); spit(d.p + "/t.sas7bdat", c.bytes); std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Run r = run(d.p, a); scan(d.p, "", after); std::string w = show_args(a) + " of " + c.l.str(); x.note(w);
  crashed(x, w, r); succeeded(x, w, r); unharmed(x, w, b4, after, kind == 1 ? std::set<std::string>{"t.csv"} : std::set<std::string>{});
  if (kind == 0) same_text(x, w, r.out, want(x, c, n));
  if (kind == 1) { if (!after.count("t.csv")) x.fail(w + ": no csv file"); check_csv(x, w, after["t.csv"].substr(1), c.l.f, c.cols, all_rows(c.rows)); }
  if (kind == 2) { same_text(x, w, r.out, ""); same_text(x, w + " (errors)", r.err, ""); }
  x.outcome(mc::hash(w)); x.transition();
}
// ---- lists of files of many names
static const char *NAMES[] = {"a.sas7bdat", "noext", "sub/a.sas7bdat", "a.b.sas7bdat", "./dot.sas7bdat", "sp ace.x y", "dir.d/noext", ".hidden", "a.csv.sas7bdat", "sub/../up.sas7bdat", "\xc3\xa9t\xc3\xa9.SAS7BDAT", "trail.", "b.xpt", "csv", "ABS", "..two.dots", "q'u\"o%s{}.sas"};
static void prepare(const Dir &d) { mkd(d.p + "/sub"); mkd(d.p + "/dir.d"); }
static std::string norm(const std::string &f) { std::string s = f; if (s.compare(0, 2, "./") == 0) s = s.substr(2); if (s.compare(0, 7, "sub/../") == 0) s = s.substr(7); return s; }
static void listed(Ctx &x, Cmd cmd, std::vector<uint32_t> idx) {
  Dir d; prepare(d); std::vector<std::string> a = command(cmd, "--nlines=2"), files; std::map<std::string, const Case *> inputs;
  for (size_t k = 0; k < idx.size(); ++k) { std::string f = NAMES[idx[k]]; if (f == "ABS") f = d.p + "/abs.sas7bdat"; a.push_back(f); files.push_back(f); const Case &c = content(idx[k] + 3 * k); std::string key = f[0] == '/' ? "abs.sas7bdat" : norm(f); if (!inputs.count(key)) { inputs[key] = &c; spit(d.p + "/" + key, c.bytes); } }
  auto of = [&](const std::string &f) -> const Case & { return *inputs.at(f[0] == '/' ? "abs.sas7bdat" : norm(f)); };
  std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Run r = run(d.p, a); scan(d.p, "", after); std::string w; { auto t = a; for (auto &s : t) if (s[0] == '/') s = "<dir>/abs.sas7bdat"; w = show_args(t); } x.note(w); crashed(x, w, r);
  if (cmd == CSV) {
    std::set<std::string> outs; std::map<std::string, std::set<const Case *>> who; bool clash = false;
    for (auto &f : files) { std::string key = f[0] == '/' ? "abs.sas7bdat" : norm(f), o = csv_name(key); if (inputs.count(o)) clash = true; else outs.insert(o); who[o].insert(&of(f)); }
    unharmed(x, w, b4, after, outs);
    if (clash) { failed(x, w, r); }
    else { bool shared = false; for (auto &[o, s] : who) if (s.size() > 1) shared = true; if (!shared) { succeeded(x, w, r); for (auto &[o, s] : who) { if (!after.count(o)) x.fail(w + ": no file " + o); check_csv(x, w + ": " + o, after[o].substr(1), (*s.begin())->l.f, (*s.begin())->cols, all_rows((*s.begin())->rows)); } } }
  } else {
    unharmed(x, w, b4, after, {}); succeeded(x, w, r); std::string e; if (cmd != NUL) for (auto &f : files) e += want(x, of(f), cmd == PRINT_N ? 2 : SIZE_MAX); same_text(x, w, r.out, e); if (cmd == NUL) same_text(x, w + " (errors)", r.err, "");
  }
  x.outcome(mc::hash(w)); x.transition(files.size()); x.state(mc::hash(w));
}
static void lists(Ctx &x) { Cmd cmd = Cmd(x.choose(4)); std::vector<uint32_t> idx; uint32_t n = 1 + x.choose(3); for (uint32_t k = 0; k < n; ++k) idx.push_back(x.choose(n < 3 ? 17 : mc::thorough() ? 9 : 4)); listed(x, cmd, idx); }
// ---- unreadable and invalid inputs, anywhere in the list
static const char *BAD[] = {"missing", "nodir/missing", "empty", "garbage", "directory", "half header", "magic", "no page", "text", "trailing slash", "dangling link", "link loop", "long name", "unreadable", "no metadata"};
static std::string make_bad(const Dir &d, uint32_t k, uint32_t at) {
  const Case &c = content(at); std::string f = format("bad%u.sas7bdat", at), p = d.p + "/" + f;
  switch (k) {
  case 0: break; case 1: return "nodir/" + f; case 2: spit(p, ""); break; case 3: spit(p, noise(5000, 3 + at)); break; case 4: mkd(p); break; case 5: spit(p, c.bytes.substr(0, 150)); break;
  case 6: { Bytes b = c.bytes; b[16] = char(b[16] ^ 1); spit(p, b); } break; case 7: spit(p, c.bytes.substr(0, c.h.header_length)); break; case 8: spit(p, "a,b\n1,2\n"); break; case 9: spit(p, c.bytes); return f + "/"; case 10: ln("nowhere", p, false); break; case 11: ln(f, p, false); break; case 12: return std::string(300, 'n') + ".sas7bdat";
  case 13: spit(p, c.bytes); chmod(p.c_str(), 0); break; case 14: { Bytes b = c.bytes; for (size_t i = c.h.header_length; i < b.size(); ++i) b[i] = 0; spit(p, b); } break;
  }
  return f;
}
static void invalid(Ctx &x) {
  Cmd cmd = Cmd(x.choose(4)); uint32_t n = 1 + x.choose(3), kinds = 15; Dir d; std::vector<std::string> a = command(cmd, "-n2"), files; if (cmd == PRINT_N) a = {"print", "--nlines=1"}; std::set<std::string> outs; std::string before; size_t first = SIZE_MAX; std::vector<std::pair<std::string, const Case *>> good; std::string kindtext;
  for (uint32_t k = 0; k < n; ++k) {
    uint32_t b = n == 1 ? x.choose(kinds) : n == 2 ? x.choose(kinds + 1) : x.choose(4) ; if (n == 3) { static const uint32_t M[] = {15, 0, 3, 4}; b = M[b]; }
    if (b == 13 && !unprivileged) x.prune();
    if (b == kinds) { std::string f = format("good%u.sas7bdat", k); const Case &c = content(k); spit(d.p + "/" + f, c.bytes); files.push_back(f); if (first == SIZE_MAX) { before += cmd == PRINT ? want(x, c, SIZE_MAX) : cmd == PRINT_N ? want(x, c, 1) : std::string(); good.push_back({f, &c}); } kindtext += " good"; }
    else { files.push_back(make_bad(d, b, k)); if (first == SIZE_MAX) first = k; kindtext += std::string(" ") + BAD[b]; }
    outs.insert(csv_name(files.back())); a.push_back(files.back());
  }
  if (first == SIZE_MAX) x.prune();
  std::map<std::string, std::string> b4, after; scan(d.p, "", b4); for (auto &o : outs) if (b4.count(o)) x.prune(); Run r = run(d.p, a); scan(d.p, "", after); std::string w = command(cmd, "-n1")[0] + (cmd == PRINT_N ? " -n1" : "") + kindtext; x.note(w);
  crashed(x, w, r); failed(x, w, r); unharmed(x, w, b4, after, cmd == CSV ? outs : std::set<std::string>{});
  r.out = without_log(r.out); if (cmd == NUL) same_text(x, w, r.out, ""); else if (cmd != CSV) { x.checked(); if (r.out.compare(0, before.size(), before)) x.fail(w + ": the files before the invalid one are not listed: '" + clip(r.out) + "'"); }
  else for (auto &[f, c] : good) { std::string o = csv_name(f); if (!after.count(o)) x.fail(w + ": no file " + o); check_csv(x, w + ": " + o, after[o].substr(1), c->l.f, c->cols, all_rows(c->rows)); }
  x.outcome(mc::hash(w)); x.transition(n); x.state(mc::hash(w));
}
// ---- csv files that are, or refer to, other files
static void aliases(Ctx &x) {
  static const char *KIND[] = {"absent", "old file", "input given too", "symlink to the input", "hard link to the input", "symlink to another input", "hard link to another input", "directory", "symlink to a bystander", "symlink to an input by another path", "dangling symlink", "link to a link to the input", "input through a linked directory"};
  uint32_t k = x.choose(13); bool swap = x.flag(); uint32_t more = x.choose(3); Cmd cmd = Cmd(x.choose(4)); Dir d; const Case &c = content(0), &o = content(1), &m = content(2); mkd(d.p + "/sub"); spit(d.p + "/x.sas7bdat", c.bytes); spit(d.p + "/y.sas7bdat", o.bytes); std::string out = d.p + "/x.csv"; std::vector<std::string> files{"x.sas7bdat"}; std::map<std::string, const Case *> of{{"x.sas7bdat", &c}, {"y.sas7bdat", &o}};
  bool danger = false; std::set<std::string> may{"x.csv"};
  switch (k) {
  case 0: break; case 1: spit(out, std::string(20000, 'o')); break; case 2: spit(out, m.bytes); files.push_back("x.csv"); of["x.csv"] = &m; danger = true; break; case 3: ln("x.sas7bdat", out, false); danger = true; break; case 4: ln(d.p + "/x.sas7bdat", out, true); danger = true; break;
  case 5: ln("y.sas7bdat", out, false); files.push_back("y.sas7bdat"); danger = true; break; case 6: ln(d.p + "/y.sas7bdat", out, true); files.push_back("y.sas7bdat"); danger = true; break; case 7: mkd(out); danger = true; break; case 8: spit(d.p + "/by", "by"); ln("by", out, false); may.insert("by"); break;
  case 9: spit(d.p + "/sub/x.csv", m.bytes); ln("sub/x.csv", out, false); files.push_back("./sub/../sub/x.csv"); of["./sub/../sub/x.csv"] = &m; danger = true; break; case 10: ln("fresh", out, false); may.insert("fresh"); break; case 11: ln("x.sas7bdat", d.p + "/l", false); ln("l", out, false); danger = true; break;
  case 12: ln("sub", d.p + "/lsub", false); spit(d.p + "/sub/x.csv", m.bytes); spit(d.p + "/sub/x.sas7bdat", c.bytes); files = {"lsub/x.sas7bdat", "sub/x.csv"}; of["lsub/x.sas7bdat"] = &c; of["sub/x.csv"] = &m; danger = true; may = {}; break;
  }
  if (more == 1) { spit(d.p + "/z.sas7bdat", m.bytes); files.push_back("z.sas7bdat"); of["z.sas7bdat"] = &m; } else if (more == 2) files.push_back(files[0]);
  if (swap) std::reverse(files.begin(), files.end());
  if (danger) may.erase("x.csv"); for (auto &f : files) if (k == 2 ? f != "x.csv" : true) if (!of.count(csv_name(f)) && !(danger && csv_name(f) == "x.csv") && f.find("x.csv") == std::string::npos) may.insert(csv_name(f));
  if (cmd != CSV) may.clear();
  auto a = command(cmd, "--nlines=1"); for (auto &f : files) a.push_back(f); std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Run r = run(d.p, a); scan(d.p, "", after); std::string w = show_args(a) + ", x.csv: " + KIND[k]; x.note(w); crashed(x, w, r); unharmed(x, w, b4, after, may);
  if (cmd == CSV) {
    if (danger) failed(x, w, r); else { succeeded(x, w, r); for (auto &f : files) { std::string g = slurp(d.p + "/" + csv_name(f)); check_csv(x, w + ": " + f, g, of[f]->l.f, of[f]->cols, all_rows(of[f]->rows)); } }
  } else { succeeded(x, w, r); std::string e; if (cmd != NUL) for (auto &f : files) e += want(x, *of[f], cmd == PRINT_N ? 1 : SIZE_MAX); same_text(x, w, r.out, e); }
  x.outcome(mc::hash(w)); x.transition();
}
// ---- damaged and shortened inputs: what the library says about them is what the tool does
static void library(const std::string &path, std::string &out, bool &threw) { std::ostringstream os; threw = false; try { cs::Reader r(cppsas7bdat::datasource::ifstream(path.c_str()), cppsas7bdat::datasink::print(os)); r.read_all(); } catch (const std::exception &) { threw = true; } out = os.str(); }
static void damaged_one(Ctx &x, const Case &c, const Bytes &b, const std::string &what) {
  Dir d; std::string p = d.p + "/t.sas7bdat"; spit(p, b); std::string e; bool threw; mem::refused = 0; mem::cap = size_t(64) << 20; library(p, e, threw); mem::cap = SIZE_MAX; if (mem::refused) x.prune(); // would need much memory
  std::map<std::string, std::string> b4, after; scan(d.p, "", b4); x.note(what); x.outcome(mc::hash(b));
  for (int k = 0; k < 3; ++k) {
    Run r = run(d.p, {k == 0 ? "print" : k == 1 ? "null" : "csv", "t.sas7bdat"}); after.clear(); scan(d.p, "", after); std::string w = (k == 0 ? "print of " : k == 1 ? "null of " : "csv of ") + what; crashed(x, w, r); unharmed(x, w, b4, after, {"t.csv"}); if (k < 2 && after.count("t.csv")) x.fail(w + ": a csv file appeared");
    if (threw) failed(x, w, r); else succeeded(x, w, r);
    r.out = without_log(r.out);
    if (k == 0) { if (!threw) same_text(x, w, r.out, e); else if (e.compare(0, r.out.size(), r.out)) x.fail(w + ": output '" + clip(r.out) + "' differs from the library's '" + clip(e) + "'"); } else if (k == 1) same_text(x, w, r.out, "");
    if (k == 2 && after.count("t.csv")) unlink((d.p + "/t.csv").c_str());
  }
  (void)c;
}
static void cuts(Ctx &x) { static const size_t L[] = {1, 4, 6}; const Case &c = content(x.pick(L), x.flag() ? 7 : 0); uint32_t step = mc::thorough() ? 37 : 211; uint32_t n = uint32_t(c.bytes.size() / step) + 1; size_t at = x.choose(n) * step; at = std::min(at, c.bytes.size()); damaged_one(x, c, c.bytes.substr(0, at), c.l.str() + format(" cut to %zu of %zu bytes", at, c.bytes.size())); }
static void damages(Ctx &x) {
  const Case &c = content(x.flag() ? 4 : 1, x.flag() ? 7 : 0); std::vector<size_t> at; size_t skip = mc::thorough() ? 1 : 29; for (size_t i = 0; i < c.bytes.size(); ++i) if (i < c.h.header_length ? c.bytes[i] || i % 64 == 0 : c.bytes[i] != 0) at.push_back(i); size_t i = at[x.choose(uint32_t((at.size() + skip - 1) / skip)) * skip]; Bytes b = c.bytes; static const uint8_t V[] = {0x01, 0xFF}; uint8_t v = V[x.choose(2)]; b[i] = char(b[i] ^ v); damaged_one(x, c, b, c.l.str() + format(" with byte %zu changed by %02x", i, v));
}
// ---- the usage itself
static void usage(Ctx &x) {
  struct U { std::vector<std::string> a; int kind; }; // 0: help, 1: version, 2: an error
  static const std::vector<U> us{{{"-h"}, 0}, {{"--help"}, 0}, {{"-v"}, 1}, {{"--version"}, 1}, {{}, 2}, {{"print"}, 2}, {{"csv"}, 2}, {{"null"}, 2}, {{"bogus"}, 2}, {{"bogus", "t.sas7bdat"}, 2}, {{"t.sas7bdat"}, 2}, {{"print", "--bogus", "t.sas7bdat"}, 2}, {{"csv", "--nlines=2", "t.sas7bdat"}, 2}, {{"null", "--nlines=2", "t.sas7bdat"}, 2}, {{"print", "--nlines"}, 2}, {{"print", "--nlines=2"}, 2}, {{"print", "--nlines=abc", "t.sas7bdat"}, 2}, {{"print", "--nlines=", "t.sas7bdat"}, 2}, {{"print", "--nlines=99999999999999999999999", "t.sas7bdat"}, 3}, {{"print", "csv"}, 2}, {{"", "t.sas7bdat"}, 2}, {{"print", ""}, 2}, {{"csv", ""}, 2}, {{"null", ""}, 2}, {{"PRINT", "t.sas7bdat"}, 2}, {{"--", "print", "t.sas7bdat"}, 3}, {{"print", "--", "t.sas7bdat"}, 3}};
  uint32_t i = x.choose(uint32_t(us.size())); const U &u = us[i]; Dir d; spit(d.p + "/t.sas7bdat", content(0).bytes); std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Run r = run(d.p, u.a); scan(d.p, "", after); std::string w = "arguments '" + show_args(u.a) + "'"; x.note(w); x.outcome(i); crashed(x, w, r); unharmed(x, w, b4, after, {});
  if (u.kind == 0) { succeeded(x, w, r); for (const char *t : {"Usage", "print", "csv", "null", "--nlines"}) if (r.out.find(t) == std::string::npos) x.fail(w + ": no usage: " + r.out); }
  if (u.kind == 1) { succeeded(x, w, r); const char *v = getenv("VERIF_VERSION"); if (v && r.out.find(v) == std::string::npos) x.fail(w + ": " + r.out); }
  if (u.kind == 2) { x.checked(); if (r.rc == 0) x.fail(w + ": exit status 0"); if (r.err.empty() && r.out.empty()) x.fail(w + ": no message"); }
}
// ---- no room for the output: every number of bytes that can be written
static std::string to_csv(const Bytes &file) { std::ostringstream os; { cs::Reader r(MemSource(share(file)), cppsas7bdat::datasink::csv(os)); r.read_all(); } return os.str(); }
static void full(Ctx &x) {
  static const size_t L[] = {0, 1, 4, 6}; const Case &c = content(x.pick(L), x.flag() ? 7 : 0); Cmd cmd = x.flag() ? CSV : PRINT; uint32_t more = x.choose(2);
  static std::map<std::pair<const Case *, int>, size_t> sizes; auto &size = sizes[{&c, cmd}]; if (!size) size = cmd == CSV ? to_csv(c.bytes).size() : want(x, c, SIZE_MAX).size();
  size_t step = std::max<size_t>(1, size / (mc::thorough() ? 400 : 16)), n = x.choose(uint32_t(size / step) + 4); bool device = n > size / step + 2; if (device && cmd == CSV) x.prune();
  n = n <= size / step ? n * step : size - 1 + (n - size / step - 1); // and around the size itself
  Dir d; std::vector<std::string> a = command(cmd, ""); spit(d.p + "/t.sas7bdat", c.bytes); a.push_back("t.sas7bdat"); if (more) { spit(d.p + "/u.sas7bdat", c.bytes); a.push_back("u.sas7bdat"); }
  std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Limits lim; if (device) lim.to = "/dev/full"; else lim.fsize = long(n); Run r = run(d.p, a, lim); scan(d.p, "", after);
  std::string w = show_args(a) + " of " + c.l.str() + (device ? std::string(" to a full device") : format(", room for %zu bytes, %zu to write", n, size)); x.note(w); x.outcome(mc::hash(w)); x.transition(); crashed(x, w, r);
  unharmed(x, w, b4, after, cmd == CSV ? std::set<std::string>{"t.csv", "u.csv"} : std::set<std::string>{});
  if (device || n < size * (cmd == PRINT ? 1 + more : 1)) failed(x, w, r);
  else { succeeded(x, w, r); if (cmd == PRINT) same_text(x, w, r.out, more ? want(x, c, SIZE_MAX) + want(x, c, SIZE_MAX) : want(x, c, SIZE_MAX)); else for (const char *f : {"t.csv", "u.csv"}) if (f[0] == 't' || more) check_csv(x, w, after[f].substr(1), c.l.f, c.cols, all_rows(c.rows)); }
}
// ---- more files than may be open at a time
static void many(Ctx &x) {
  Cmd cmd = Cmd(x.choose(4)); uint32_t n = x.pick({15, 40, 200}); Dir d; std::vector<std::string> a = command(cmd, "--nlines=1"); std::string e; std::set<std::string> outs;
  for (uint32_t k = 0; k < n; ++k) { std::string f = format("f%u.sas7bdat", k); spit(d.p + "/" + f, content(k).bytes); a.push_back(f); outs.insert(csv_name(f)); if (cmd == PRINT || cmd == PRINT_N) e += want(x, content(k), cmd == PRINT ? SIZE_MAX : 1); }
  std::map<std::string, std::string> b4, after; scan(d.p, "", b4); Limits lim; lim.nofile = 12; Run r = run(d.p, a, lim); scan(d.p, "", after); std::string w = a[0] + format(" of %u files, 12 open at a time", n); x.note(w); x.outcome(mc::hash(w)); x.transition(n);
  crashed(x, w, r); succeeded(x, w, r); unharmed(x, w, b4, after, cmd == CSV ? outs : std::set<std::string>{}); same_text(x, w, r.out, e);
  if (cmd == CSV) for (uint32_t k = 0; k < n; ++k) { std::string o = format("f%u.csv", k); if (!after.count(o)) x.fail(w + ": no file " + o); check_csv(x, w + ": " + o, after[o].substr(1), content(k).l.f, content(k).cols, all_rows(content(k).rows)); }
}
int main(int argc, char **argv) {
  quiet(); const char *e = getenv("VERIF_CLI"); if (!e) { fprintf(stderr, "VERIF_CLI is not set\n"); return 2; }
  char t[] = "/tmp/c20-XXXXXX"; if (!mkdtemp(t)) return 2; scratch = t; cli = scratch + "/cli";
  { FILE *i = fopen(e, "rb"), *o = fopen(cli.c_str(), "wb"); if (!i || !o) return 2; char b[1 << 16]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) fwrite(b, 1, n, o); fclose(i); fclose(o); chmod(cli.c_str(), 0755); chmod(t, 0755); }
  // as an unprivileged user if that is possible
  if (geteuid() == 0) { pid_t p = fork(); if (!p) { if (syscall(SYS_setgroups, 0, nullptr) || syscall(SYS_setgid, 65534) || syscall(SYS_setuid, 65534) || access(cli.c_str(), X_OK)) _exit(1); _exit(0); } int st = 0; waitpid(p, &st, 0); std::string probe = scratch + "/p"; spit(probe, "p"); unprivileged = WIFEXITED(st) && WEXITSTATUS(st) == 0 && chown(probe.c_str(), 65534, 65534) == 0; unlink(probe.c_str()); }
  int rc = mc::main_(argc, argv, [] {
    mc::add("usage", usage);
    mc::add("contents", contents);
    mc::add("lists", lists);
    mc::add("invalid", invalid);
    mc::add("aliases", aliases);
    mc::add("cuts", cuts);
    mc::add("damages", damages);
    mc::add("full", full);
    mc::add("many", many);
  });
  unlink(cli.c_str()); for (int k = 0; k < 3 && rmdir(t); ++k) { DIR *h = opendir(t); if (!h) break; while (auto f = readdir(h)) { std::string n = f->d_name; if (n != "." && n != "..") { struct stat st; std::string p = scratch + "/" + n; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str()); } } closedir(h); }
  return rc;
}
