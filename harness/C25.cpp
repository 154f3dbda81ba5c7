// variant: tsan
// libs: core
// C25: thread coordination primitives.  Generated schedules (delays, early exits, outcomes) run on
// real threads under ThreadSanitizer; the history each thread records is checked against what the
// primitive promises.  A hang is a failure.
#include <wdt/util/ThreadsController.h>
#include <wdt/WdtThread.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include "pbt.h"
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1"; }
extern "C" const char* __tsan_default_suppressions() { return "called_from_lib:libglog.so\ncalled_from_lib:libgflags.so\n"; }
using namespace facebook::wdt;
using pbt::Case;
namespace {
struct Abort : IAbortChecker {
  std::atomic<bool> on{false};
  bool shouldAbort() const override { return on; }
};
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void nap(int us) {
  if (us > 0) usleep(us);
  else if (us == 0) std::this_thread::yield();
}
int genNap(Case& c) { return c.chance(1, 2) ? -1 : c.chance(1, 4) ? (int)c.logRange(0, 3000) : (int)c.logRange(0, 200); }
struct Gate {  // lets all threads begin together
  std::atomic<int> n{0};
  int want;
  explicit Gate(int w) : want(w) {}
  void pass() {
    n++;
    while (n < want) std::this_thread::yield();
  }
};
std::string join(const std::vector<int>& v) {
  std::string r;
  for (int x : v) r += " " + std::to_string(x);
  return r;
}

// Barriers: nobody passes before everybody arrived or left; everybody passes then.
void barriers(Case& c) {
  int n = c.range(1, 8), k = c.range(1, 5), rounds = c.range(1, 2);
  ThreadsController ctl(n);
  ctl.setNumBarriers(k);
  bool viaCtl = c.flip();
  for (int round = 0; round < rounds; round++) {
    if (round) ctl.reset();
    // thread t goes through barriers 0..stop[t]-1, then leaves
    std::vector<int> stop(n);
    std::vector<std::vector<int>> delay(n);
    int leavers = 0;
    for (int t = 0; t < n; t++) {
      stop[t] = c.chance(2, 5) ? c.range(0, k) : k;
      leavers += stop[t] < k;
      for (int b = 0; b <= k; b++) delay[t].push_back(genNap(c));
    }
    bool leaveAtEnd = c.flip();  // those that did all of them also deregister
    c.note([&] {
      std::string r = "threads " + std::to_string(n) + " barriers " + std::to_string(k) + (viaCtl ? " leave through the controller" : " leave barrier by barrier") + "\n";
      for (int t = 0; t < n; t++) r += "  thread " + std::to_string(t) + " stops after " + std::to_string(stop[t]) + " delays" + join(delay[t]) + "\n";
      return r;
    });
    std::vector<std::atomic<int>> at(n);  // barriers this thread has arrived at; 1000: has started to leave
    for (auto& x : at) x = 0;
    std::atomic<int> bad{-1}, badB{0}, badT{0};
    Gate gate(n);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
      ts.emplace_back([&, t] {
        if (viaCtl) ctl.registerThread(t);
        gate.pass();
        for (int b = 0; b < stop[t]; b++) {
          nap(delay[t][b]);
          at[t] = b + 1;
          ctl.getBarrier(b)->execute();
          for (int o = 0; o < n; o++)
            if (at[o] < b + 1) { badB = b; badT = o; bad = t; }
        }
        nap(delay[t][k]);
        if (stop[t] < k || leaveAtEnd) {
          at[t] = 1000;
          if (viaCtl) ctl.deRegisterThread(t);
          else for (int b = stop[t]; b < k; b++) ctl.getBarrier(b)->deRegister();
        }
      });
    for (auto& t : ts) t.join();
    PBT_CHECK(c, bad < 0, "thread " << bad << " passed barrier " << badB << " before thread " << badT << " arrived or left");
    if (leavers) c.label("threads left early");
    if (leavers && n > 1) c.nontrivial();
  }
}
// Funnel: one at a time, retried after a failure, once after a success; all learn about it.
void funnel(Case& c) {
  int n = c.range(1, 8);
  ThreadsController ctl(n);
  int nf = c.range(1, 3), fi = c.range(0, nf - 1);
  ctl.setNumFunnels(nf);
  struct P { std::vector<int> delay; int work; int fails; bool timed; int ms; bool leaves; };
  std::vector<P> plan(n);
  for (auto& p : plan) {
    for (int i = 0; i < 3; i++) p.delay.push_back(genNap(c));
    p.work = genNap(c);
    p.fails = c.weighted({4, 2, 1});  // that many of its attempts fail
    p.leaves = c.chance(1, 3);        // gives up after its first failure
    p.timed = c.flip();
    p.ms = c.range(1, 50);
  }
  c.note([&] {
    std::string r;
    for (auto& p : plan) r += "  delays" + join(p.delay) + " work " + std::to_string(p.work) + " fails " + std::to_string(p.fails) + (p.leaves ? " leaves" : "") + (p.timed ? " timed " + std::to_string(p.ms) : "") + "\n";
    return r;
  });
  WdtOptions o;
  o.abort_check_interval_millis = c.chance(1, 3) ? 0 : c.range(1, 20);
  Abort ab;
  std::atomic<int> inside{0}, success{0}, attempts{0}, failures{0};
  std::atomic<bool> overlap{false}, early{false}, again{false};
  Gate gate(n);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      P& p = plan[t];
      ThreadCtx ctx(o, false, t);
      ctx.setAbortChecker(&ab);
      auto f = ctl.getFunnel(fi);
      gate.pass();
      int failed = 0;
      for (int step = 0;; step++) {
        nap(p.delay[std::min(step, 2)]);
        auto st = f->getStatus();
        if (st == FUNNEL_END) {
          if (!success) early = true;
          return;
        }
        if (st == FUNNEL_PROGRESS) {
          if (p.timed) f->wait(p.ms, ctx);
          else f->wait();
          continue;
        }
        if (inside++) overlap = true;
        if (success) again = true;
        attempts++;
        nap(p.work);
        if (failed < p.fails) {
          failed++;
          failures++;
          inside--;
          f->notifyFail();
          if (p.leaves) return;
          continue;
        }
        success++;
        inside--;
        f->notifySuccess();
        return;
      }
    });
  for (auto& t : ts) t.join();
  bool allLeave = true;
  for (auto& p : plan) allLeave &= p.leaves && p.fails > 0;
  PBT_CHECK(c, !overlap, "two threads were elected at the same time");
  PBT_CHECK(c, !again, "a thread was elected although an earlier one had succeeded");
  PBT_CHECK(c, !early, "told that it is done before anybody succeeded");
  PBT_CHECK(c, success <= 1, "succeeded " << success << " times");
  PBT_EQ(c, success == 1, !allLeave, "somebody has to succeed unless everybody gives up; attempts " << attempts);
  PBT_EQ(c, attempts.load(), failures + success, "attempts");
  if (failures) c.label("failed attempts");
  if (n > 1 && failures) c.nontrivial();
  if (success) PBT_EQ(c, (int)ctl.getFunnel(fi)->getStatus(), (int)FUNNEL_END, "status after success");
  for (int i = 0; i < nf; i++)
    if (i != fi) {
      auto f = ctl.getFunnel(i);
      if (c.flip()) PBT_EQ(c, (int)f->getStatus(), (int)FUNNEL_START, "another funnel was touched");
      f->notifySuccess();
      PBT_EQ(c, (int)f->getStatus(), (int)FUNNEL_END, "status after an announced success");
    }
}
// Exactly one of the threads runs the function: the first at the start, the last at the end.
void once(Case& c) {
  int n = c.range(1, 8), rounds = c.range(1, 3);
  ThreadsController ctl(n);
  std::vector<std::vector<int>> delay(n);
  for (auto& d : delay) for (int i = 0; i < 2 * rounds; i++) d.push_back(genNap(c));
  int work = genNap(c);
  c.note([&] { std::string r = "work " + std::to_string(work) + "\n"; for (auto& d : delay) r += "  delays" + join(d) + "\n"; return r; });
  for (int round = 0; round < rounds; round++) {
    if (round) ctl.reset();
    std::atomic<int> startRuns{0}, endRuns{0}, atEnd{0};
    std::atomic<bool> startLate{false}, endEarly{false};
    int plain = 0;  // protected by the primitive itself
    Gate gate(n);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
      ts.emplace_back([&, t] {
        gate.pass();
        nap(delay[t][2 * round]);
        ctl.executeAtStart([&] { nap(work); plain++; startRuns++; });
        if (startRuns != 1) startLate = true;
        nap(delay[t][2 * round + 1]);
        atEnd++;
        ctl.executeAtEnd([&] { if (atEnd != n) endEarly = true; nap(work); plain++; endRuns++; });
      });
    for (auto& t : ts) t.join();
    PBT_EQ(c, startRuns.load(), 1, "times the start function ran, round " << round);
    PBT_EQ(c, endRuns.load(), 1, "times the end function ran, round " << round);
    PBT_CHECK(c, !startLate, "a thread went on before the start function had run");
    PBT_CHECK(c, !endEarly, "the end function ran before the last thread got there");
    PBT_EQ(c, plain, 2, "runs");
  }
  if (n > 1) c.nontrivial();
}
// Thread states against a model, then concurrently.
void states(Case& c) {
  int n = c.range(1, 8);
  ThreadsController ctl(n);
  if (c.flip()) ctl.setNumBarriers(c.range(0, 2));
  std::vector<int> m(n, (int)INIT);
  std::vector<int> out(n, 0);
  PBT_EQ(c, ctl.getTotalThreads(), n, "total threads");
  int steps = (int)c.logRange(1, 40), dereg = 0;
  for (int i = 0; i < steps; i++) {
    int t = c.range(0, n - 1);
    switch (c.draw(3)) {
      case 0: ctl.registerThread(t); m[t] = RUNNING; break;
      case 1:
        if (out[t]) break;
        out[t] = 1;
        ctl.deRegisterThread(t);
        m[t] = FINISHED;
        dereg++;
        break;
      case 2: { auto s = (ThreadStatus)c.draw(3); ctl.markState(t, s); m[t] = s; break; }
      default:
        if (!c.chance(1, 6)) break;
        ctl.reset();
        for (int x = 0; x < n; x++) { m[x] = RUNNING; out[x] = 0; }
    }
    c.note([&] { return "step " + std::to_string(i) + " thread " + std::to_string(t) + " states" + join(m); });
    auto all = ctl.getThreadStates();
    PBT_EQ(c, all.size(), (size_t)n, "number of states");
    int running = 0;
    for (int x = 0; x < n; x++) {
      PBT_EQ(c, (int)ctl.getState(x), m[x], "state of thread " << x);
      PBT_EQ(c, (int)all[x], m[x], "state of thread " << x << " in the map");
      running += m[x] == RUNNING;
    }
    PBT_EQ(c, ctl.numRunningThreads(), running, "running threads");
    for (int s = 0; s < 4; s++) {
      bool any = false;
      for (int x = 0; x < n; x++) any |= m[x] == s;
      PBT_EQ(c, ctl.hasThreads((ThreadStatus)s), any, "any thread in state " << s);
      for (int e = 0; e < n; e++) {
        bool other = false;
        for (int x = 0; x < n; x++) other |= x != e && m[x] == s;
        PBT_EQ(c, ctl.hasThreads(e, (ThreadStatus)s), other, "any thread but " << e << " in state " << s);
      }
    }
  }
  if (steps > 3) c.nontrivial();
  // every thread for itself, all at once
  std::atomic<bool> bad{false};
  Gate gate(n);
  std::vector<std::thread> ts;
  ctl.reset();
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      gate.pass();
      for (int i = 0; i < 20; i++) {
        auto s = (ThreadStatus)((i + t) % 4);
        ctl.markState(t, s);
        if (ctl.getState(t) != s || ctl.getThreadStates()[t] != s) bad = true;
        ctl.hasThreads(t, RUNNING);
        ctl.numRunningThreads();
      }
      ctl.deRegisterThread(t);
    });
  for (auto& t : ts) t.join();
  PBT_CHECK(c, !bad, "a thread read back another state than its own");
  PBT_CHECK(c, !ctl.hasThreads(RUNNING) && ctl.numRunningThreads() == 0, "threads running after all left");
}
// Condition guard: mutual exclusion, notifications, timeout and abort end a wait.
void condition(Case& c) {
  WdtOptions o;
  o.abort_check_interval_millis = c.chance(1, 5) ? 0 : c.weighted({3, 1}) ? c.range(2, 10) : 1;
  ThreadsController ctl(4);
  ctl.setNumConditions(2);
  int mode = c.draw(2);
  Abort ab;
  if (mode == 0) {  // producers and consumers; short waits, so a lost notification only delays
    int prod = c.range(1, 3), cons = c.range(1, 3), items = (int)c.logRange(1, 120);
    std::vector<int> d;
    for (int i = 0; i < prod + cons; i++) d.push_back(genNap(c));
    bool all = c.chance(1, 4), consNap = c.flip();
    c.note([&] { return "producers " + std::to_string(prod) + " consumers " + std::to_string(cons) + " items " + std::to_string(items) + " delays" + join(d); });
    int queue = 0, made = 0, taken = 0;  // only touched under the guard
    std::vector<std::thread> ts;
    for (int i = 0; i < prod; i++)
      ts.emplace_back([&, i] {
        while (true) {
          nap(d[i]);
          auto cond = ctl.getCondition(0);
          auto g = cond->acquire();
          if (made == items) { g.notifyAll(); return; }
          made++;
          queue++;
          if (all || made == items) g.notifyAll();
          else g.notifyOne();
        }
      });
    for (int i = 0; i < cons; i++)
      ts.emplace_back([&, i] {
        ThreadCtx ctx(o, false, i);
        ctx.setAbortChecker(&ab);
        auto cond = ctl.getCondition(0);
        while (true) {
          if (consNap) nap(d[prod + i]);
          auto g = cond->acquire();
          while (queue == 0 && taken < items && made < items) g.wait(20000, ctx);
          if (queue > 0) { queue--; taken++; if (taken == items) g.notifyAll(); }
          else if (made == items) return;
        }
      });
    c.setDeadline(15);  // less than one missed notification costs
    for (auto& t : ts) t.join();
    PBT_EQ(c, taken, items, "items handed over");
    PBT_EQ(c, queue, 0, "left");
    if (items > 3) c.nontrivial();
    c.label("handover");
  } else {
    ThreadCtx ctx(o, false, 0);
    ctx.setAbortChecker(&ab);
    bool abort = mode == 2 && o.abort_check_interval_millis > 0;
    int ms = abort ? 60000 : c.range(0, 60);
    int delay = (int)c.logRange(0, 20000);
    bool viaFunnel = c.flip();
    c.note([&] { return std::string(abort ? "abort" : "timeout") + (viaFunnel ? " funnel" : " condition") + " wait " + std::to_string(ms) + " ms, delay " + std::to_string(delay); });
    double t0 = now();
    std::thread t;
    if (abort) t = std::thread([&] { usleep(delay); ab.on = true; });
    Funnel f;
    if (viaFunnel) {
      f.getStatus();
      f.wait(ms, ctx);
    } else {
      auto cond = ctl.getCondition(1);
      auto g = cond->acquire();
      g.wait(ms, ctx);
    }
    double took = now() - t0;
    if (t.joinable()) t.join();
    // spurious wake-ups are allowed, so there is only an upper bound
    PBT_CHECK(c, took < 20, "waited " << took << " s");
    c.nontrivial();
    c.label(abort ? "abort ends the wait" : "timeout ends the wait");
    // the lock is free again
    auto g = ctl.getCondition(1)->acquire();
  }
}
}  // namespace
int main(int argc, char** argv) {
  auto sub = [](const char* n, void (*f)(Case&), uint64_t q, uint64_t t, const char* rule) {
    pbt::Sub s{n, f, q, t, 25};
    s.concurrent = true;
    s.rule = rule;
    return s;
  };
  return pbt::main(argc, argv, "C25", {
    sub("barriers", barriers, 4000, 60000, "some thread left early"),
    sub("funnel", funnel, 4000, 60000, "several threads and a failed attempt"),
    sub("once", once, 3000, 40000, "several threads"),
    sub("states", states, 2500, 30000, "more than three operations"),
    sub("condition", condition, 4000, 60000, "several items, or a timeout or abort"),
  });
}
