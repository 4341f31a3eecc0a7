// C17: readers in different threads, under a controlled scheduler, with ThreadSanitizer.
//
// Exactly one thread runs at a time; it can be preempted at every read of its source, every
// callback of its sink and every call. The baton is passed by relaxed atomics, which order nothing
// for ThreadSanitizer: what the readers share without synchronisation is a race in every schedule.
#include "ops.hpp"
#include <sched.h>
#include <thread>
using namespace hx;
namespace {
constexpr int MAXT = 3, MAXP = 4;
std::atomic<int> g_turn, g_step, g_alive;
std::atomic<int> g_done[MAXT];
int g_threads, g_np; int g_at[MAXP], g_to[MAXP]; // preempt at step g_at to thread g_to
thread_local int t_id = -1;
int next_alive(int from) { for (int k = 1; k <= g_threads; ++k) { int i = (from + k) % g_threads; if (!g_done[i].load(std::memory_order_relaxed)) return i; } return -1; }
void wait_turn() { int n = 0; while (g_turn.load(std::memory_order_relaxed) != t_id) if (++n > 50) sched_yield(); }
void point() {
  if (t_id < 0) return;
  int s = g_step.load(std::memory_order_relaxed); g_step.store(s + 1, std::memory_order_relaxed);
  for (int k = 0; k < g_np; ++k) if (g_at[k] == s) {
    int to = (t_id + 1 + g_to[k]) % g_threads; if (g_done[to].load(std::memory_order_relaxed)) to = next_alive(to); if (to < 0 || to == t_id) return;
    g_turn.store(to, std::memory_order_relaxed); wait_turn(); return;
  }
}
struct PointSource { MemSource s; bool eof() { point(); return s.eof(); } bool read_bytes(void *p, size_t n) { point(); bool r = s.read_bytes(p, n); point(); return r; } };
struct TLog { std::vector<Event> ev; cs::COLUMNS cols; std::string bad; };
struct PointSink {
  TLog *l;
  void set_properties(const cs::Properties &p) { l->cols = cs::COLUMNS(p.columns); point(); }
  void push_row(size_t i, cs::Column::PBUF p) { std::string a = row_text(l->cols, p), t; for (auto &c : l->cols) t += c.to_string(p); point(); std::string b = row_text(l->cols, p), u; for (auto &c : l->cols) u += c.to_string(p); if (a != b || t != u) l->bad = format("row %zu changed during the callback", i); l->ev.push_back({'R', i, a}); }
  void end_of_data() { l->ev.push_back({'E', 0, {}}); point(); }
};
struct Plan { std::vector<const Case *> c; std::vector<int> how; };
void work(const Case *c, int how, TLog *l) {
  try {
    cs::Reader r(PointSource{MemSource(share(c->bytes))}, PointSink{l}); point();
    size_t n = 0;
    if (how == 0) r.read_all();
    else if (how == 1) { while (r.read_row()) point(); }
    else {
      bool more = true;
      while (more) {
        const void *p = r.read_row_no_sink(); if (!p) break;
        std::string a = row_text(l->cols, p); point(); std::string b = row_text(l->cols, p); if (a != b) l->bad = "a row read without the sink changed";
        l->ev.push_back({'R', n++, a});
        if (how == 3) { more = r.skip(1); n += more; point(); }
      }
    }
    point();
  } catch (const std::exception &e) { l->bad = std::string("exception: ") + e.what(); } catch (...) { l->bad = "exception"; }
}
void verify(Ctx &x, const std::string &w, const Case *c, int how, const TLog &l) {
  if (!l.bad.empty()) x.fail(w + ": " + l.bad);
  size_t n = 0;
  for (auto &e : l.ev) if (e.kind == 'R') { size_t i = how == 3 ? n * 2 : n; if (i >= c->expect.size() || e.index != i || e.row != c->expect[i]) x.fail(w + ": " + c->l.str() + format(" row %zu is ", e.index) + e.row); ++n; }
  size_t want = how == 3 ? (c->expect.size() + 1) / 2 : c->expect.size(); if (n != want) x.fail(w + ": " + c->l.str() + format(": %zu rows of %zu", n, want));
  x.checked(n + 1);
}
int run(Ctx &x, const Plan &p, const std::vector<std::pair<int, int>> &pre, const std::string &w) {
  g_threads = int(p.c.size()); g_np = 0; for (auto &q : pre) { g_at[g_np] = q.first; g_to[g_np] = q.second; ++g_np; }
  g_step = 0; g_turn = 0; for (auto &d : g_done) d = 0;
  std::vector<TLog> logs(p.c.size());
  {
    std::vector<std::thread> t;
    for (size_t i = 0; i < p.c.size(); ++i) t.emplace_back([&, i] {
      t_id = int(i); wait_turn(); work(p.c[i], p.how[i], &logs[i]);
      g_done[i].store(1, std::memory_order_relaxed); int n = next_alive(int(i)); if (n >= 0) g_turn.store(n, std::memory_order_relaxed);
    });
    for (auto &q : t) q.join();
  }
  for (size_t i = 0; i < p.c.size(); ++i) verify(x, w + format(" thread %zu", i), p.c[i], p.how[i], logs[i]);
  return g_step.load();
}
// one schedule of any jobs
int run_jobs(const std::vector<std::function<void()>> &jobs, const std::vector<std::pair<int, int>> &pre) {
  g_threads = int(jobs.size()); g_np = 0; for (auto &q : pre) { g_at[g_np] = q.first; g_to[g_np] = q.second; ++g_np; }
  g_step = 0; g_turn = 0; for (auto &d : g_done) d = 0;
  std::vector<std::thread> t;
  for (size_t i = 0; i < jobs.size(); ++i) t.emplace_back([&, i] { t_id = int(i); wait_turn(); jobs[i](); g_done[i].store(1, std::memory_order_relaxed); int n = next_alive(int(i)); if (n >= 0) g_turn.store(n, std::memory_order_relaxed); });
  for (auto &q : t) q.join();
  return g_step.load();
}
// what one reader gave - columns, rows, properties - used by several threads at once
void shared(Ctx &x, int bound) {
  auto fs = all_formats(); uint32_t f = x.choose(mc::thorough() ? 8 : 2); const Case &c = cached(zoo(fs[f * 7 % 8])[x.choose(11)]); uint32_t how = x.choose(4); if (c.rows.empty()) x.prune();
  std::vector<int> sizes{2, 3}; int threads = sizes[x.choose(2)]; std::string w = c.l.str() + format(" shared by %d threads, way %u", threads, how);
  auto once = [&](const std::vector<std::pair<int, int>> &pre) {
    auto log = std::make_shared<Log>(); auto r = std::make_unique<cs::Reader>(MemSource(share(c.bytes)), RecSink(log)); cs::COLUMNS cols(r->properties().columns);
    std::string text; auto p = r->read_row_no_sink(); if (!p) x.fail(w + ": no row"); for (auto &q : cols) text += q.to_string(p) + "|";
    cs::Properties copy(r->properties()); std::string props = props_text(copy); std::vector<std::string> bad; bad.resize(size_t(threads));
    auto job = [&](size_t i) {
      auto check = [&](const cs::COLUMNS &k) { std::string v, t; for (auto &q : k) { v += value(q, p) + "|"; point(); t += q.to_string(p) + "|"; point(); } if (v != c.expect[0]) bad[i] = "values are " + v + " instead of " + c.expect[0]; if (t != text) bad[i] = "texts are " + t + " instead of " + text; };
      switch (how) {
      case 0: check(cols); break;                                                                                        // the same columns
      case 1: { cs::COLUMNS mine(cols); point(); check(mine); mine.clear(); point(); check(cols); } break;               // copies made meanwhile
      case 2: check(r->properties().columns); point(); if (props_text(r->properties()) != props) bad[i] = "the properties differ"; if (r->current_row_index() != 1) bad[i] = "current_row_index"; break;
      case 3: { cs::Properties mine(r->properties()); point(); check(mine.columns); if (props_text(mine) != props) bad[i] = "the copied properties differ"; } break;
      }
    };
    std::vector<std::function<void()>> jobs; for (int i = 0; i < threads; ++i) jobs.push_back([&, i] { job(size_t(i)); });
    int n = run_jobs(jobs, pre); for (auto &b : bad) if (!b.empty()) x.fail(w + ": " + b);
    if (row_text(cols, p) != c.expect[0]) x.fail(w + ": the row changed"); size_t k = 1; while (r->read_row()) ++k; if (k != c.rows.size()) x.fail(w + ": rows are missing"); for (size_t i = 1; i < k; ++i) if (log->ev[i].row != c.expect[i]) x.fail(w + ": a later row is wrong");
    x.checked(size_t(threads) + k); return n;
  };
  static std::map<std::string, int> steps; if (!steps.count(w)) steps[w] = once({});
  int n = steps[w], from = 0; std::vector<std::pair<int, int>> pre;
  for (int k = 0; k < bound; ++k) { uint32_t at = x.choose(uint32_t(n - from + 1)); if (at == 0) break; from += int(at); pre.push_back({from - 1, threads > 2 ? int(x.choose(uint32_t(threads - 1))) : 0}); if (from >= n) break; }
  for (auto &q : pre) w += format(" %d>%d", q.first, q.second);
  x.note(w); x.outcome(mc::hash(w)); x.transition(uint64_t(once(pre))); x.state(mc::hash(w));
}
// a reader handed from thread to thread: which of its calls run in the thread of the previous one, and which in a new one
void handoff(Ctx &x) {
  auto fs = all_formats(); const Case &c = cached(zoo(fs[x.choose(mc::thorough() ? 8 : 4) * 5 % 8])[x.choose(11)]); uint32_t bits = x.choose(64); static const char *S[] = {"rprspa", "prprpa", "sprmpa"}; std::string seq = S[x.choose(3)], w = c.l.str() + " " + seq + format(" new threads %02x", bits);
  std::unique_ptr<Driver> d; std::vector<std::function<void()>> calls{[&] { d = std::make_unique<Driver>(x, c, true); }};
  for (char o : seq) calls.push_back([&, o] { d->step(o == 'r' ? Op::read_row : o == 'p' ? Op::peek : o == 's' ? Op::skip1 : o == 'm' ? Op::move_new : Op::read_all); });
  calls.push_back([&] { d->check_held(); d.reset(); });
  std::string bad; size_t i = 0;
  while (i < calls.size() && bad.empty()) {
    size_t e = i + 1; while (e < calls.size() && !(bits >> (e % 6) & 1)) ++e;
    std::thread([&] { try { for (; i < e; ++i) calls[i](); } catch (const mc::Violation &v) { bad = v.msg; } catch (const std::exception &v) { bad = v.what(); } }).join();
  }
  if (!bad.empty()) x.fail(w + ": " + bad);
  x.note(w); x.outcome(mc::hash(w)); x.state(mc::hash(w)); x.transition(calls.size()); x.checked(calls.size());
}
void body(Ctx &x, int threads, int bound) {
  auto fs = all_formats();
  struct Sel { int f, l; }; static const Sel sel[][3] = {{{0, 4}, {0, 4}, {0, 6}}, {{0, 6}, {0, 6}, {0, 6}}, {{0, 3}, {7, 7}, {3, 0}}, {{5, 1}, {2, 5}, {0, 7}}};
  uint32_t s = x.choose(4), h = x.choose(mc::thorough() ? 4 : 2); Plan p;
  for (int i = 0; i < threads; ++i) { p.c.push_back(&cached(zoo(fs[size_t(sel[s][i].f)])[size_t(sel[s][i].l)])); p.how.push_back(h == 0 ? (i == 0 ? 1 : 2) : h == 1 ? (i ? 0 : 3) : h == 2 ? 1 : 2 + i % 2); }
  static std::map<std::pair<uint32_t, int>, int> steps; auto key = std::make_pair(s * 4 + h, threads);
  if (!steps.count(key)) steps[key] = run(x, p, {}, "no preemption");
  int n = steps[key]; std::vector<std::pair<int, int>> pre; int from = 0;
  for (int k = 0; k < bound; ++k) { uint32_t at = x.choose(uint32_t(n - from + 1)); if (at == 0) break; from += int(at); pre.push_back({from - 1, threads > 2 ? int(x.choose(uint32_t(threads - 1))) : 0}); if (from >= n) break; }
  std::string w = p.c[0]->l.str() + " | " + p.c[1]->l.str() + format(" how %u preempted at", h); for (auto &q : pre) w += format(" %d>%d", q.first, q.second);
  x.note(w); x.outcome(mc::hash(w + format("%d", threads))); int got = run(x, p, pre, w); x.transition(uint64_t(got)); x.state(mc::hash(w));
}
// free running threads, for what happens on first use (each in a new process)
void cold(Ctx &x) {
  auto fs = all_formats(); uint32_t s = x.choose(11), k = x.choose(3); const Case *a = &cached(zoo(fs[0])[s]), *b = k == 0 ? a : &cached(zoo(fs[k == 1 ? 0 : 7])[(s + 3) % 11]);
  Plan p{{a, b}, {1, 2}}; std::string w = a->l.str() + " | " + b->l.str() + " in a new process"; x.note(w); fflush(nullptr);
  pid_t pid = fork(); if (pid < 0) throw mc::ToolError{"fork"};
  if (pid == 0) { int rc = 0; try { run(x, p, {{3 + int(s), 0}, {9 + int(s), 0}}, w); } catch (...) { rc = 1; } _exit(rc); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (st) x.fail(w + format(": status %x", st));
  x.transition(); x.outcome(mc::hash(w)); x.state(mc::hash(w));
}
} // namespace
int main(int argc, char **argv) {
  quiet();
  return mc::main_(argc, argv, [] {
    mc::add("threads-first-use", cold);
    mc::add("threads-shared", [](Ctx &x) { shared(x, mc::thorough() ? 2 : 1); });
    mc::add("threads-handoff", handoff);
    mc::add("threads-2", [](Ctx &x) { body(x, 2, mc::thorough() ? 3 : 2); });
    mc::add("threads-3", [](Ctx &x) { body(x, 3, mc::thorough() ? 2 : 1); });
  });
}
