// Stateless, deviation-bounded, exhaustive explorer.
//
// A harness registers sections; a section's body draws every decision from Ctx::choose/deviate.
// The explorer enumerates the whole tree of decisions, depth first, over several forked worker
// processes, and reports the first execution whose body fails, crashes, is killed by a sanitizer
// or does not finish - after replaying it in fresh processes.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <new>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

inline std::string format(const char *f, ...) {
  char b[8192];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  return mix(h + n);
}
inline uint64_t hash(const std::string &s, uint64_t h = 0x9e3779b97f4a7c15ULL) { return hash(s.data(), s.size(), h); }
inline uint64_t combine(uint64_t a, uint64_t b) { return mix(a * 31 + b + 0x632be59bd9b4e019ULL); }

inline std::string hex(const std::string &s, size_t max = 64) {
  std::string r; char b[4];
  for (size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; }
  if (s.size() > max) r += format("..(%zu bytes)", s.size());
  return r;
}

struct Violation { std::string msg; };
struct Prune {};      // body: this branch is not a case (contradictory choices)
struct ToolError { std::string msg; };

constexpr size_t MAXC = 1024;
constexpr int MAXW = 16;

struct WorkerShm {
  std::atomic<uint64_t> execs, pruned, heartbeat;
  std::atomic<uint32_t> len;
  uint32_t choices[MAXC];
  std::atomic<int> active;          // an execution is under way
  uint32_t nprefixes;               // prefixes handled, in order, for history replay
  uint32_t prefix_of[1 << 16];
};
struct Shm {
  WorkerShm w[MAXW];
  std::atomic<uint32_t> next_prefix;
  std::atomic<int> stop, capped;
  std::atomic<uint64_t> transitions, distinct, states, checks, maxdepth;
  std::atomic<int> have_violation;
  int viol_worker;
  uint32_t viol_len;
  uint32_t viol_choices[MAXC];
  char viol_msg[8192];
  std::atomic<uint32_t> nsamples;
  char samples[8][2048];
  std::atomic<uint64_t> counters[32];
};
constexpr size_t TBL = size_t(1) << 23;
inline Shm *g_shm = nullptr;
inline std::atomic<uint64_t> *g_out = nullptr, *g_st = nullptr;

inline bool table_insert(std::atomic<uint64_t> *t, uint64_t h) {
  if (!h) h = 1;
  size_t i = h & (TBL - 1);
  for (size_t k = 0; k < 256; ++k, i = (i + 1) & (TBL - 1)) {
    uint64_t v = t[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (!v) {
      uint64_t e = 0;
      if (t[i].compare_exchange_strong(e, h)) return true;
      if (e == h) return false;
    }
  }
  return false; // full: undercount, never overcount
}

class Ctx {
public:
  std::vector<uint32_t> forced;   // choices to replay
  std::vector<uint32_t> forced_n; // their arities, when known (0 = unknown)
  std::vector<uint32_t> c, n;     // taken so far, arities
  int budget = 0;                 // deviations still allowed
  bool stop_after_forced = false; // splitter mode: learn the arity of the next point
  uint32_t next_n = 0;
  WorkerShm *ws = nullptr;
  std::string desc;
  bool want_desc = false;

  uint32_t choose(uint32_t k) {
    if (k == 0) throw ToolError{"choose(0)"};
    if (k == 1) return 0;
    return point(k);
  }
  bool flag() { return choose(2) != 0; }
  // value from a list
  template <class T> const T &pick(const std::vector<T> &v) { return v[choose(uint32_t(v.size()))]; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[choose(uint32_t(N))]; }
  // departure from the default answer: costs one unit of the section's deviation bound
  uint32_t deviate(uint32_t k) {
    if (k <= 1 || budget <= 0) return 0;
    uint32_t r = point(k);
    if (r) --budget;
    return r;
  }
  void check(bool ok, const std::string &msg) { if (!ok) fail(msg); }
  [[noreturn]] void fail(const std::string &msg) { throw Violation{msg}; }
  [[noreturn]] void prune() { throw Prune{}; }
  void outcome(uint64_t h) { if (table_insert(g_out, h)) g_shm->distinct.fetch_add(1, std::memory_order_relaxed); }
  void state(uint64_t h) { if (table_insert(g_st, h)) g_shm->states.fetch_add(1, std::memory_order_relaxed); }
  void transition(uint64_t k = 1) { g_shm->transitions.fetch_add(k, std::memory_order_relaxed); beat(); }
  // comparisons made against the oracle
  void checked(uint64_t k = 1) { g_shm->checks.fetch_add(k, std::memory_order_relaxed); }
  void count(int i, uint64_t k = 1) { g_shm->counters[i].fetch_add(k, std::memory_order_relaxed); }
  void beat() { if (ws) ws->heartbeat.fetch_add(1, std::memory_order_relaxed); }
  void note(const std::string &s) { if (!desc.empty()) desc += ' '; desc += s; if (desc.size() > 6000) desc.resize(6000); }

private:
  uint32_t point(uint32_t k) {
    size_t i = c.size();
    uint32_t r = 0;
    if (i < forced.size()) {
      r = forced[i];
      if (r >= k || (i < forced_n.size() && forced_n[i] && forced_n[i] != k))
        throw ToolError{format("divergence while replaying: point %zu had arity %u, now %u (choice %u)", i,
                               i < forced_n.size() ? forced_n[i] : 0, k, r)};
    } else if (stop_after_forced) {
      next_n = k;
      throw Prune{};
    }
    if (i >= MAXC) throw ToolError{"too many choice points"};
    c.push_back(r);
    n.push_back(k);
    if (ws) { ws->choices[i] = r; ws->len.store(uint32_t(i + 1), std::memory_order_release); }
    return r;
  }
};

struct Section {
  std::string name;
  std::function<void(Ctx &)> body;
  int bound = 0;         // deviation bound
  double max_seconds;    // cap
  double hang_seconds;   // no progress for that long: suspect hang
  std::string rule;
  bool model = false;
};
inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
inline bool g_thorough = false;
inline bool thorough() { return g_thorough; }
inline std::vector<std::string> counter_names;
// is this a recorded finding? (VERIF_KNOWN lists their ids)
inline bool known(const std::string &id) {
  const char *e = getenv("VERIF_KNOWN");
  return e && (" " + std::string(e) + " ").find(" " + id + " ") != std::string::npos;
}
// wraps each body call (e.g. to reset harness globals)
inline void add(const std::string &name, std::function<void(Ctx &)> body, int bound = 0, double max_seconds = 0,
                double hang_seconds = 30) {
  if (max_seconds == 0) max_seconds = thorough() ? 1500 : 240;
  sections().push_back({name, std::move(body), bound, max_seconds, hang_seconds, "", false});
}

enum class R { ok, pruned, violation, toolerror };
inline R run_one(const Section &s, Ctx &x, std::string &msg) {
  x.budget = s.bound;
  x.c.clear(); x.n.clear(); x.desc.clear();
  try {
    s.body(x);
    if (x.c.size() < x.forced.size()) throw ToolError{"divergence: replayed execution ended early"};
    return R::ok;
  } catch (const Prune &) { return R::pruned;
  } catch (const Violation &v) { msg = v.msg; return R::violation;
  } catch (const ToolError &e) { msg = e.msg; return R::toolerror;
  } catch (const std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return R::violation;
  } catch (...) { msg = "unexpected exception of unknown type"; return R::violation; }
}

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::string vec(const std::vector<uint32_t> &v) {
  std::string r;
  for (auto x : v) { if (!r.empty()) r += ','; r += std::to_string(x); }
  return r.empty() ? "-" : r;
}
inline std::vector<uint32_t> unvec(const std::string &s) {
  std::vector<uint32_t> r;
  if (s == "-" || s.empty()) return r;
  size_t p = 0;
  while (p < s.size()) { size_t e = s.find(',', p); if (e == s.npos) e = s.size(); r.push_back(uint32_t(std::stoul(s.substr(p, e - p)))); p = e + 1; }
  return r;
}

// Explore the subtree below prefix. Returns false when stopped early.
inline bool explore_subtree(const Section &s, const std::vector<uint32_t> &prefix, WorkerShm *ws, int wid, double deadline,
                            const std::vector<uint32_t> *until, std::string *until_msg, bool *until_hit) {
  Ctx x;
  x.ws = ws;
  x.forced = prefix;
  std::vector<uint32_t> forced_n;
  while (true) {
    if (ws) { ws->len = 0; ws->active = 1; }
    x.forced_n = forced_n;
    std::string msg;
    R r = run_one(s, x, msg);
    if (ws) { ws->active = 0; }
    if (r == R::toolerror) {
      fprintf(stderr, "TOOL-ERROR section=%s choices=%s: %s [%s]\n", s.name.c_str(), vec(x.c).c_str(), msg.c_str(), x.desc.c_str());
      _exit(99);
    }
    if (until && x.c == *until) {
      *until_hit = true;
      if (r == R::violation) *until_msg = msg + " [" + x.desc + "]";
      return false;
    }
    if (r == R::violation && !until) {
      if (!g_shm->have_violation.exchange(1)) {
        g_shm->viol_worker = wid;
        g_shm->viol_len = uint32_t(x.c.size());
        for (size_t i = 0; i < x.c.size(); ++i) g_shm->viol_choices[i] = x.c[i];
        std::string m = msg + " [" + x.desc + "]";
        strncpy(g_shm->viol_msg, m.c_str(), sizeof g_shm->viol_msg - 1);
        g_shm->stop = 1;
      }
      return false;
    }
    if (ws) {
      uint64_t e;
      if (r == R::pruned) { ws->pruned++; e = 0; }
      else e = ws->execs++;
      ws->heartbeat++;
      if (r == R::ok) {
        uint64_t d = x.c.size(), m = g_shm->maxdepth;
        while (d > m && !g_shm->maxdepth.compare_exchange_weak(m, d)) {}
        // samples: a few executions spread over the exploration
        if (e == 3 || e == 1000 || e == 30000) {
          uint32_t k = g_shm->nsamples++;
          if (k < 8) { std::string t = "choices=" + vec(x.c) + " " + x.desc; strncpy(g_shm->samples[k], t.c_str(), 2047); }
        }
      }
    }
    if (!until) {
      if (g_shm->stop) return false;
      if (now() > deadline) { g_shm->capped = 1; g_shm->stop = 1; return false; }
    }
    // backtrack
    std::vector<uint32_t> c = x.c, n = x.n;
    while (c.size() > prefix.size() && c.back() + 1 >= n[c.size() - 1]) c.pop_back();
    if (c.size() <= prefix.size()) return true;
    c.back()++;
    n.resize(c.size());
    forced_n = n;
    x.forced = c;
  }
}

inline std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
    else if (ch < 0x20 || ch >= 0x7f) r += format("\\u%04x", ch);
    else r += char(ch);
  }
  return r + "\"";
}

// Runs f in a child; returns exit status via waitpid, killing after limit seconds (status -2).
inline int in_child(const std::function<void()> &f, double limit, std::string *out) {
  int p[2];
  if (pipe(p)) return -1;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    dup2(p[1], 1); dup2(p[1], 2);
    f();
    fflush(stdout); fflush(stderr);
    _exit(0);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  double end = now() + limit;
  int st = -2;
  while (true) {
    char b[4096];
    ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) if (out && out->size() < 20000) out->append(b, size_t(k));
    int s;
    pid_t w = waitpid(pid, &s, WNOHANG);
    if (w == pid) { while ((k = read(p[0], b, sizeof b)) > 0) if (out && out->size() < 20000) out->append(b, size_t(k)); st = s; break; }
    if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &s, 0); st = -2; break; }
    usleep(2000);
  }
  close(p[0]);
  return st;
}

struct Stats { uint64_t execs = 0, pruned = 0, distinct = 0, states = 0, transitions = 0, checks = 0, maxdepth = 0; };

inline int usage() { fprintf(stderr, "usage: harness --property ID --replay-dir D --stats F [--thorough] [--only S] [--jobs N] | --replay F\n"); return 2; }

inline const Section *find_section(const std::string &n) {
  for (auto &s : sections()) if (s.name == n) return &s;
  return nullptr;
}

inline void reset_shm() { memset(static_cast<void *>(g_shm), 0, sizeof(Shm)); }

// Replays one execution in this (fresh, forked) process. Prints the outcome; exit code 1 = violation.
inline void replay_here(const Section &s, const std::vector<uint32_t> &c) {
  Ctx x; x.forced = c; x.want_desc = true;
  std::string msg;
  R r = run_one(s, x, msg);
  if (r == R::violation) { printf("REPLAY-VIOLATION %s [%s]\n", msg.c_str(), x.desc.c_str()); fflush(stdout); _exit(1); }
  if (r == R::toolerror) { printf("REPLAY-TOOL-ERROR %s\n", msg.c_str()); fflush(stdout); _exit(98); }
  printf("REPLAY-OK [%s]\n", x.desc.c_str()); fflush(stdout); _exit(0);
}
inline void replay_history_here(const Section &s, const std::vector<std::vector<uint32_t>> &prefixes, const std::vector<uint32_t> &c) {
  for (auto &p : prefixes) {
    std::string msg; bool hit = false;
    explore_subtree(s, p, nullptr, 0, 1e18, &c, &msg, &hit);
    if (hit) {
      if (!msg.empty()) { printf("REPLAY-VIOLATION (after the preceding executions of its shard) %s\n", msg.c_str()); fflush(stdout); _exit(1); }
      printf("REPLAY-OK history\n"); fflush(stdout); _exit(0);
    }
  }
  printf("REPLAY-OK history: execution not reached\n"); fflush(stdout); _exit(0);
}
inline bool bad(int st) { return st == -2 || (WIFSIGNALED(st)) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 98); }
inline std::string how(int st) {
  if (st == -2) return "does not finish within the limit";
  if (WIFSIGNALED(st)) return format("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  return format("exit %d", WEXITSTATUS(st));
}

inline int main_(int argc, char **argv, const std::function<void()> &declare) {
  std::string prop = "?", rdir = ".", stats, only, replay;
  int jobs = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) exit(usage()); return argv[++i]; };
    if (a == "--property") prop = nx();
    else if (a == "--replay-dir") rdir = nx();
    else if (a == "--stats") stats = nx();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--only") only = nx();
    else if (a == "--jobs") jobs = std::stoi(nx());
    else if (a == "--replay") replay = nx();
    else return usage();
  }
  jobs = std::min(jobs, MAXW);
  g_shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto table = [] { return static_cast<std::atomic<uint64_t> *>(mmap(nullptr, TBL * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };
  g_out = table(); g_st = table();

  if (!replay.empty()) {
    // file: section <name> / tier <t> / choices <vec> / prefix <vec>*
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 2; }
    std::string sec; std::vector<uint32_t> c; std::vector<std::vector<uint32_t>> pre; bool hist = false;
    char *line = nullptr; size_t cap = 0; ssize_t k;
    while ((k = getline(&line, &cap, f)) > 0) {
      std::string l(line, size_t(k)); while (!l.empty() && l.back() == '\n') l.pop_back();
      if (l.rfind("section ", 0) == 0) sec = l.substr(8);
      else if (l.rfind("choices ", 0) == 0) c = unvec(l.substr(8));
      else if (l == "history") hist = true;
      else if (l.rfind("prefix ", 0) == 0) pre.push_back(unvec(l.substr(7)));
      else if (l == "tier thorough") g_thorough = true;
    }
    fclose(f);
    declare();
    const Section *s = find_section(sec);
    if (!s) { fprintf(stderr, "no section %s\n", sec.c_str()); return 2; }
    if (hist) replay_history_here(*s, pre, c); else replay_here(*s, c);
    return 0;
  }

  declare();
  double t0 = now();
  std::string secjson;
  Stats total;
  bool all_complete = true;
  for (auto &s : sections()) {
    if (!only.empty() && s.name != only) continue;
    reset_shm();
    madvise(g_out, TBL * 8, MADV_REMOVE); madvise(g_st, TBL * 8, MADV_REMOVE);
    double ts = now(), deadline = ts + s.max_seconds;
    // ---- split the tree into prefixes (in a child: the body may crash)
    auto *pfx = static_cast<uint32_t *>(mmap(nullptr, 1 << 24, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    // layout: [count] then per prefix: [len][choices...]
    std::string out;
    WorkerShm *w0 = &g_shm->w[0];
    int st = in_child([&] {
      std::vector<std::pair<std::vector<uint32_t>, bool>> q{{{}, false}}; // prefix, is_leaf
      // breadth first: repeatedly split the shortest non-leaf prefix, without spending long on
      // executing leaves (the workers execute them anyway)
      double leaf_time = 0;
      while (leaf_time < 0.3) {
        double t1 = now();
        size_t best = q.size();
        for (size_t i = 0; i < q.size(); ++i) if (!q[i].second && (best == q.size() || q[i].first.size() < q[best].first.size())) best = i;
        if (best == q.size() || q.size() >= 400) break;
        Ctx x; x.ws = w0; w0->len = 0; x.forced = q[best].first; x.stop_after_forced = true;
        std::string msg;
        R r = run_one(s, x, msg);
        if (r == R::toolerror) { fprintf(stderr, "TOOL-ERROR (split) %s\n", msg.c_str()); _exit(99); }
        if (r == R::pruned && x.next_n) {
          auto base = q[best].first;
          if (q.size() + x.next_n > 60000) { q[best].second = true; continue; }
          q[best].first.push_back(0);
          std::vector<std::pair<std::vector<uint32_t>, bool>> add;
          for (uint32_t k = 1; k < x.next_n; ++k) { auto b = base; b.push_back(k); add.push_back({b, false}); }
          q.insert(q.begin() + long(best) + 1, add.begin(), add.end());
        } else { q[best].second = true; leaf_time += now() - t1; } // leaf, pruned or violating: left to the workers
      }
      uint32_t *o = pfx; *o++ = uint32_t(q.size());
      for (auto &e : q) { *o++ = uint32_t(e.first.size()); for (auto v : e.first) *o++ = v; }
    }, s.hang_seconds * 4, &out);
    std::vector<std::vector<uint32_t>> prefixes;
    int cand_status = 0; bool cand = false; std::vector<uint32_t> cand_c; std::string cand_msg; int cand_worker = -1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && st != -2) { fputs(out.c_str(), stderr); return 2; }
    if (st != 0) {
      cand = true; cand_status = st; cand_msg = how(st);
      cand_c.assign(w0->choices, w0->choices + w0->len);
    } else {
      uint32_t *o = pfx; uint32_t k = *o++;
      for (uint32_t i = 0; i < k; ++i) { uint32_t l = *o++; prefixes.emplace_back(o, o + l); o += l; }
    }
    munmap(pfx, 1 << 24);
    // ---- workers
    if (!cand) {
      std::vector<pid_t> pids(size_t(jobs), 0);
      std::vector<std::string> errf(static_cast<size_t>(jobs));
      fflush(stdout); fflush(stderr);
      for (int w = 0; w < jobs; ++w) {
        errf[size_t(w)] = rdir + "/." + prop + "-" + s.name + "-w" + std::to_string(w) + ".log";
        pid_t pid = fork();
        if (pid == 0) {
          int fd = open(errf[size_t(w)].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
          WorkerShm *ws = &g_shm->w[w];
          while (!g_shm->stop) {
            uint32_t i = g_shm->next_prefix++;
            if (i >= prefixes.size()) break;
            if (ws->nprefixes < (1u << 16)) ws->prefix_of[ws->nprefixes++] = i;
            if (!explore_subtree(s, prefixes[i], ws, w, deadline, nullptr, nullptr, nullptr)) break;
          }
          _exit(0);
        }
        pids[size_t(w)] = pid;
      }
      int live = jobs;
      std::vector<uint64_t> hb(size_t(jobs), ~0ull); std::vector<double> hbt(size_t(jobs), now());
      bool toolerr = false;
      while (live) {
        for (int w = 0; w < jobs; ++w) {
          if (!pids[size_t(w)]) continue;
          int stt; pid_t r = waitpid(pids[size_t(w)], &stt, WNOHANG);
          if (r == pids[size_t(w)]) {
            pids[size_t(w)] = 0; --live;
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 99) { toolerr = true; g_shm->stop = 1;
              std::string cmd = "cat " + errf[size_t(w)] + " >&2"; if (system(cmd.c_str())) {} }
            else if (stt != 0 && !cand && !g_shm->have_violation) {
              cand = true; cand_status = stt; cand_msg = how(stt); cand_worker = w;
              auto &ww = g_shm->w[w]; cand_c.assign(ww.choices, ww.choices + ww.len.load());
              g_shm->stop = 1;
            }
            continue;
          }
          uint64_t h = g_shm->w[w].heartbeat;
          if (h != hb[size_t(w)]) { hb[size_t(w)] = h; hbt[size_t(w)] = now(); }
          else if (now() - hbt[size_t(w)] > s.hang_seconds) {
            kill(pids[size_t(w)], SIGKILL); waitpid(pids[size_t(w)], &stt, 0);
            pids[size_t(w)] = 0; --live;
            if (!cand && !g_shm->have_violation && g_shm->w[w].active) {
              cand = true; cand_status = -2; cand_msg = how(-2); cand_worker = w;
              auto &ww = g_shm->w[w]; cand_c.assign(ww.choices, ww.choices + ww.len.load());
              g_shm->stop = 1;
            }
          }
        }
        usleep(3000);
      }
      if (toolerr) return 2;
      if (g_shm->have_violation) {
        cand = true; cand_status = 1; cand_msg = g_shm->viol_msg; cand_worker = g_shm->viol_worker;
        cand_c.assign(g_shm->viol_choices, g_shm->viol_choices + g_shm->viol_len);
      }
      if (!cand) for (auto &e : errf) unlink(e.c_str());
    }
    if (cand) {
      // ---- confirm in fresh processes (a suspected hang gets a longer limit)
      double limit = cand_status == -2 ? std::max(60.0, s.hang_seconds * 2) : 60.0;
      std::string o1, o2; int confirmed = 0; bool hist = false;
      for (int k = 0; k < 3 && confirmed < 2; ++k) {
        std::string o; int r = in_child([&] { replay_here(s, cand_c); }, limit, &o);
        if (WIFEXITED(r) && r != -2 && WEXITSTATUS(r) == 98) { fprintf(stderr, "TOOL-ERROR %s\n", o.c_str()); return 2; }
        if (bad(r)) { ++confirmed; if (o1.empty()) o1 = o; cand_status = r; if (r == -2 && k == 0) { confirmed = 2; } }
      }
      std::vector<std::vector<uint32_t>> hp;
      if (!confirmed && cand_worker >= 0) {
        auto &ww = g_shm->w[cand_worker];
        for (uint32_t i = 0; i < ww.nprefixes; ++i) hp.push_back(prefixes[ww.prefix_of[i]]);
        for (int k = 0; k < 2 && !confirmed; ++k) {
          std::string o; int r = in_child([&] { replay_history_here(s, hp, cand_c); }, s.max_seconds + 60, &o);
          if (bad(r)) { ++confirmed; hist = true; o1 = o; }
        }
      }
      if (!confirmed) {
        fprintf(stderr, "TOOL-ERROR section=%s: a failure was seen (%s; choices=%s) but does not replay\n", s.name.c_str(), cand_msg.c_str(), vec(cand_c).c_str());
        return 2;
      }
      std::string path = rdir + "/" + prop + "-" + s.name + ".replay";
      FILE *f = fopen(path.c_str(), "w");
      if (f) {
        fprintf(f, "property %s\nsection %s\ntier %s\nchoices %s\n", prop.c_str(), s.name.c_str(), g_thorough ? "thorough" : "quick", vec(cand_c).c_str());
        if (hist) { fprintf(f, "history\n"); for (auto &p : hp) fprintf(f, "prefix %s\n", vec(p).c_str()); }
        fprintf(f, "# seen: %s\n# replay (%s):\n", cand_msg.c_str(), how(cand_status).c_str());
        std::string l; for (char ch : o1) { if (ch == '\n') { fprintf(f, "#   %s\n", l.c_str()); l.clear(); } else l += ch; }
        if (!l.empty()) fprintf(f, "#   %s\n", l.c_str());
        fclose(f);
      }
      std::string first; { size_t p = o1.find("REPLAY-VIOLATION"); if (p == o1.npos) p = o1.find("ERROR: AddressSanitizer"); if (p == o1.npos) p = o1.find("runtime error"); if (p == o1.npos) p = 0; size_t e = o1.find('\n', p); first = o1.substr(p, e == o1.npos ? o1.npos : e - p); }
      printf("section %s: %s: %s\n", s.name.c_str(), how(cand_status).c_str(), (first.empty() ? cand_msg : first).c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
      fflush(stdout);
      if (!stats.empty()) {
        FILE *g = fopen(stats.c_str(), "w");
        if (g) { fprintf(g, "{\"violations\":1,\"section\":%s,\"message\":%s,\"wall_s\":%.2f}\n", json_str(s.name).c_str(), json_str(first.empty() ? cand_msg : first).c_str(), now() - t0); fclose(g); }
      }
      return 1;
    }
    // ---- statistics
    Stats st2;
    for (int w = 0; w < jobs; ++w) { st2.execs += g_shm->w[w].execs; st2.pruned += g_shm->w[w].pruned; }
    st2.distinct = g_shm->distinct; st2.states = g_shm->states; st2.transitions = g_shm->transitions; st2.checks = g_shm->checks; st2.maxdepth = g_shm->maxdepth;
    bool complete = !g_shm->capped;
    all_complete = all_complete && complete;
    // determinism: the first and a late execution, run twice, must take the same points
    total.execs += st2.execs; total.pruned += st2.pruned; total.distinct += st2.distinct; total.states += st2.states;
    total.transitions += st2.transitions; total.checks += st2.checks; total.maxdepth = std::max(total.maxdepth, st2.maxdepth);
    if (!secjson.empty()) secjson += ",";
    secjson += format("{\"section\":%s,\"executions\":%llu,\"infeasible_branches\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"oracle_comparisons\":%llu,\"max_choice_depth\":%llu,\"deviation_bound\":%d,\"complete\":%s,\"wall_s\":%.2f,\"samples\":[",
                      json_str(s.name).c_str(), (unsigned long long)st2.execs, (unsigned long long)st2.pruned, (unsigned long long)st2.distinct, (unsigned long long)st2.states,
                      (unsigned long long)st2.transitions, (unsigned long long)st2.checks, (unsigned long long)st2.maxdepth, s.bound, complete ? "true" : "false", now() - ts);
    for (uint32_t k = 0; k < std::min<uint32_t>(g_shm->nsamples, 3); ++k) { if (k) secjson += ","; secjson += json_str(g_shm->samples[k]); }
    secjson += "]";
    for (size_t k = 0; k < counter_names.size(); ++k) secjson += format(",%s:%llu", json_str(counter_names[k]).c_str(), (unsigned long long)g_shm->counters[k].load());
    secjson += "}";
    printf("section %-28s execs=%llu distinct=%llu states=%llu transitions=%llu checks=%llu depth=%llu %s %.1fs\n", s.name.c_str(), (unsigned long long)st2.execs,
           (unsigned long long)st2.distinct, (unsigned long long)st2.states, (unsigned long long)st2.transitions, (unsigned long long)st2.checks, (unsigned long long)st2.maxdepth, complete ? "complete" : "CAPPED", now() - ts);
    fflush(stdout);
    if (st2.execs == 0) { fprintf(stderr, "TOOL-ERROR section %s explored nothing\n", s.name.c_str()); return 2; }
  }
  if (!stats.empty()) {
    FILE *g = fopen(stats.c_str(), "w");
    if (!g) { perror(stats.c_str()); return 2; }
    fprintf(g, "{\"violations\":0,\"executions\":%llu,\"distinct\":%llu,\"states\":%llu,\"transitions\":%llu,\"oracle_comparisons\":%llu,\"complete\":%s,\"wall_s\":%.2f,\"sections\":[%s]}\n",
            (unsigned long long)total.execs, (unsigned long long)total.distinct, (unsigned long long)total.states, (unsigned long long)total.transitions, (unsigned long long)total.checks,
            all_complete ? "true" : "false", now() - t0, secjson.c_str());
    fclose(g);
  }
  return 0;
}
} // namespace mc
