// variant: asan
// libs: core
// C23: counters, histograms and performance statistics summarise what was recorded.
#include <wdt/Reporting.h>
#include <wdt/util/Stats.h>
#include <algorithm>
#include <cmath>
#include <condition_variable>
#include <limits>
#include <mutex>
#include <sstream>
#include <thread>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
typedef std::vector<int64_t> Values;

static const int32_t kBounds[] = {1,2,3,4,5,6,7,8,9,10,11,12,14,16,18,20,25,30,35,40,45,50,60,70,80,90,100,120,140,160,180,200,250,300,350,400,450,500,600,700,800,900,1000,2000,3000,4000,5000,7500,10000,20000,30000,40000,50000,75000,100000};
static const size_t kN = sizeof(kBounds) / sizeof(kBounds[0]);

static int64_t genValue(Case& c, int shape) {
  switch (shape) {
    case 0: return c.range(0, 12);
    case 1: return c.range(-20, 20);
    case 2: return c.logRange(0, 200000);
    case 3: return c.flip() ? c.logRange(0, INT32_MAX) : -c.logRange(0, INT32_MAX);
    case 4: {  // around a bucket bound
      int64_t b = kBounds[c.draw(kN - 1)];
      return b + c.range(-1, 1);
    }
    default: return -c.logRange(0, 100000);
  }
}
static Values genValues(Case& c, size_t maxN, int64_t scale = 1, int64_t off = 0) {
  Values v;
  size_t n = c.logRange(0, maxN);
  int shape = (int)c.draw(5);
  bool mix = c.chance(1, 4);
  for (size_t i = 0; i < n; i++) {
    if (!v.empty() && c.chance(1, 5)) {
      v.push_back(v.back());
      continue;
    }
    int64_t x = genValue(c, mix ? (int)c.draw(5) : shape);
    if (scale > 1 || off) {
      x = x * (c.chance(3, 4) ? scale : 1) + (c.chance(3, 4) ? off : 0);
      if (c.chance(1, 3)) x += c.range(-2, 2);
    }
    v.push_back(x);
  }
  return v;
}
static std::string show(const Values& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
struct Ref {
  int64_t count{0}, sum{0}, realMin{0}, min{0}, max{0};
  double avg{0}, var{0};
  bool stddevDefined{true};
};
static Ref refOf(const Values& v) {
  Ref r;
  long double sq = 0;
  for (int64_t x : v) {
    if (!r.count || x < r.realMin) r.realMin = x;
    if (!r.count || x > r.max) r.max = x;
    if (x && (!r.min || x < r.min)) r.min = x;
    r.count++;
    r.sum += x;
    if (x > INT32_MAX || x < INT32_MIN) r.stddevDefined = false;
    sq += (long double)x * x;
  }
  if (r.count) {
    long double m = (long double)r.sum / r.count;
    r.avg = (double)m;
    long double s = 0;
    for (int64_t x : v) s += ((long double)x - m) * ((long double)x - m);
    r.var = (double)(s / r.count);
  }
  // the documented domain of the standard deviation
  if (std::llabs(r.sum) > INT32_MAX || sq > 4e18L) r.stddevDefined = false;
  return r;
}
static void checkCounter(Case& c, const Counter& k, const Values& v, const char* what) {
  Ref r = refOf(v);
  PBT_EQ(c, k.getCount(), r.count, what << " of " << show(v));
  PBT_EQ(c, k.getSum(), r.sum, what << " of " << show(v));
  if (r.count == 0) {
    PBT_CHECK(c, std::isnan(k.getAverage()), what << ": average of nothing is " << k.getAverage());
    return;
  }
  PBT_EQ(c, k.getRealMin(), r.realMin, what << " of " << show(v));
  PBT_EQ(c, k.getMax(), r.max, what << " of " << show(v));
  PBT_EQ(c, k.getMin(), r.min, what << " of " << show(v));
  PBT_CHECK(c, std::fabs(k.getAverage() - r.avg) <= 1e-9 * std::max(1.0, std::fabs(r.avg)), what << ": average " << k.getAverage() << ", really " << r.avg << " of " << show(v));
  if (r.stddevDefined) {
    double sd = k.getStdDev(), d = sd * sd - r.var;
    // computed from the integer quotient sum^2/count
    double tol = 1.01 / r.count + 1e-6 * r.var + 1e-6 + 1e-9 * ((double)r.max * r.max + (double)r.realMin * r.realMin);
    PBT_CHECK(c, std::fabs(d) <= tol, what << ": standard deviation " << sd << ", really " << std::sqrt(r.var) << " of " << show(v));
  }
}
// ---- counters ----
static void counters(Case& c) {
  size_t k = c.range(1, 4);
  std::vector<Values> parts;
  Values all;
  for (size_t i = 0; i < k; i++) {
    parts.push_back(genValues(c, 40));
    all.insert(all.end(), parts.back().begin(), parts.back().end());
  }
  c.note([&] { std::string s = "parts"; for (auto& p : parts) s += " " + show(p); return s; });
  std::vector<std::unique_ptr<Counter>> cs;
  Counter one;
  for (auto& p : parts) {
    cs.emplace_back(new Counter(1.0));
    if (c.chance(1, 4)) {  // an earlier life, reset
      for (int64_t x : genValues(c, 5)) cs.back()->record(x);
      cs.back()->reset();
    }
    for (int64_t x : p) {
      cs.back()->record(x);
      one.record(x);
    }
    checkCounter(c, *cs.back(), p, "counter");
  }
  checkCounter(c, one, all, "counter of everything");
  // merge in a random tree
  std::vector<Values> vals = parts;
  if (c.flip()) {
    cs.emplace_back(new Counter());
    vals.emplace_back();
    std::swap(cs.back(), cs.front());
    std::swap(vals.back(), vals.front());
  }
  while (cs.size() > 1) {
    size_t a = c.draw(cs.size() - 1), b = c.draw(cs.size() - 2);
    if (b >= a) b++;
    cs[a]->merge(*cs[b]);
    vals[a].insert(vals[a].end(), vals[b].begin(), vals[b].end());
    checkCounter(c, *cs[a], vals[a], "merged counter");
    checkCounter(c, *cs[b], vals[b], "counter merged into another");
    if (c.chance(1, 3)) {
      int64_t x = c.range(-5, 5);
      cs[a]->record(x);
      vals[a].push_back(x);
      checkCounter(c, *cs[a], vals[a], "merged counter with one more value");
    }
    cs.erase(cs.begin() + b);
    vals.erase(vals.begin() + b);
  }
  if (all.size() > 1) {
    c.nontrivial();
    // the printed form
    double scale = c.pick({0.0, 1.0, 2.0, 10.0, 0.5});
    std::ostringstream o;
    o.precision(17);
    one.print(o, scale);
    double m = scale == 0 ? 1 : scale;
    double f[5];
    PBT_EQ(c, sscanf(o.str().c_str(), "%lf,%lf,%lf,%lf,%lf", f, f + 1, f + 2, f + 3, f + 4), 5, "printed counter '" << o.str() << "'");
    double want[5] = {(double)one.getCount(), m * one.getAverage(), m * one.getMin(), m * one.getMax(), m * one.getStdDev()};
    for (int i = 0; i < 5; i++) PBT_CHECK(c, std::fabs(f[i] - want[i]) <= 1e-9 * std::max(1.0, std::fabs(want[i])), "printed counter '" << o.str() << "' field " << i << " should be " << want[i]);
  }
  one.reset();
  checkCounter(c, one, {}, "reset counter");
}
// ---- histograms ----
struct Row {
  bool hasLo, hasHi;
  int64_t lo, hi, count;
  double mid, perc;
};
struct Printed {
  bool empty{false};
  std::vector<Row> rows;
  std::vector<std::pair<double, double>> targets;
  std::string header;
};
static Printed parse(Case& c, const std::string& text) {
  Printed p;
  std::istringstream in(text);
  std::string l;
  int n = 0;
  while (std::getline(in, l)) {
    n++;
    if (l == "no data") {
      p.empty = true;
      continue;
    }
    if (n == 1) {
      p.header = l;
      continue;
    }
    double a, b;
    if (sscanf(l.c_str(), "# target %lf%%,%lf", &a, &b) == 2) {
      p.targets.push_back({a, b});
      continue;
    }
    if (l[0] == '#') continue;
    Row r{};
    const char* s = l.c_str();
    long long v;
    int used;
    if (sscanf(s, ">= %lld %n", &v, &used) == 1) {
      r.hasLo = true;
      r.lo = v;
      s += used;
    }
    if (sscanf(s, "< %lld %n", &v, &used) == 1) {
      r.hasHi = true;
      r.hi = v;
      s += used;
    }
    long long cnt;
    PBT_CHECK(c, sscanf(s, ", %lf , %lf, %lld", &r.mid, &r.perc, &cnt) == 3, "histogram row '" << l << "'");
    r.count = cnt;
    p.rows.push_back(r);
  }
  return p;
}
static bool near(double a, double b, double rel = 2e-4) { return std::fabs(a - b) <= rel * std::max({1.0, std::fabs(a), std::fabs(b)}); }
static void checkHistogram(Case& c, const Histogram& h, const Values& v, int64_t div, int64_t off, double p1, double p2, const char* what) {
  checkCounter(c, h, v, what);
  std::ostringstream o;
  h.print(o);
  Printed p = parse(c, o.str());
  if (v.empty()) {
    PBT_CHECK(c, p.empty && p.rows.empty(), what << " without data prints " << o.str());
    return;
  }
  PBT_CHECK(c, !p.rows.empty() && !p.empty, what << " prints\n" << o.str());
  // the bounds of the rows are the documented semi-logarithmic buckets
  size_t n = p.rows.size();
  PBT_CHECK(c, n <= kN + 1, what << " prints " << n << " rows");
  int64_t total = 0;
  for (size_t i = 0; i < n; i++) {
    const Row& r = p.rows[i];
    PBT_CHECK(c, r.hasLo == (i > 0) && r.hasHi == (i < kN), what << " row " << i << " has the wrong bounds\n" << o.str());
    if (r.hasLo) PBT_EQ(c, r.lo, kBounds[i - 1] * div + off, what << " row " << i << "\n" << o.str());
    if (r.hasHi) PBT_EQ(c, r.hi, kBounds[i] * div + off, what << " row " << i << "\n" << o.str());
    int64_t want = 0;
    for (int64_t x : v) want += (!r.hasLo || x >= r.lo) && (!r.hasHi || x < r.hi);
    PBT_EQ(c, r.count, want, what << " count of the values in row " << i << " (scale " << div << " offset " << off << ") of " << show(v) << "\n" << o.str());
    total += want;
    PBT_CHECK(c, near(r.perc, 100.0 * total / v.size()), what << " row " << i << " says " << r.perc << "% of " << v.size() << " values, really " << total << "\n" << o.str());
    if (r.hasLo && r.hasHi) PBT_CHECK(c, r.mid >= r.lo - 1e-4 * std::fabs((double)r.lo) - 1 && r.mid <= r.hi + 1e-4 * std::fabs((double)r.hi) + 1, what << " row " << i << " midpoint " << r.mid << " is outside the row\n" << o.str());
  }
  PBT_EQ(c, (size_t)total, v.size(), what << " values printed in no row\n" << o.str());
  PBT_CHECK(c, p.rows.back().count > 0, what << " prints an empty last row\n" << o.str());
  PBT_EQ(c, p.targets.size(), (size_t)2, what << " target lines\n" << o.str());
  double ps[2] = {p1, p2};
  for (int i = 0; i < 2; i++) {
    PBT_CHECK(c, std::fabs(p.targets[i].first - ps[i]) <= 0.051, what << " target " << p.targets[i].first << " instead of " << ps[i]);
    PBT_CHECK(c, std::fabs(p.targets[i].second - h.calcPercentile(ps[i])) <= 0.051, what << " prints " << p.targets[i].second << " for percentile " << ps[i] << " which is " << h.calcPercentile(ps[i]));
  }
  // percentiles
  Ref r = refOf(v);
  Values sorted = v;
  std::sort(sorted.begin(), sorted.end());
  std::vector<double> q = {-5, 0, 0.01, 1, 10, 25, 50, 75, 85, 90, 99, 99.9, 100, 120};
  for (int i = 0; i < 6; i++) q.push_back((double)c.draw(1000000) / 10000);
  std::sort(q.begin(), q.end());
  double last = -std::numeric_limits<double>::infinity();
  for (double x : q) {
    double y = h.calcPercentile(x);
    double eps = 1e-9 * std::max(1.0, std::max(std::fabs((double)r.max), std::fabs((double)r.realMin)));
    PBT_CHECK(c, y >= r.realMin - eps && y <= r.max + eps, what << " percentile " << x << " = " << y << " is outside [" << r.realMin << ", " << r.max << "] (scale " << div << " offset " << off << ") of " << show(v));
    PBT_CHECK(c, y >= last - eps, what << " percentile " << x << " = " << y << " is less than that of a smaller target, " << last << " of " << show(v));
    last = y;
    // it lies in (or at the edge of) the bucket which reaches the target
    if (x > 0 && x < 100) {
      size_t need = (size_t)std::ceil(x / 100 * sorted.size() - 1e-9);
      if (need < 1) need = 1;
      int64_t exact = sorted[std::min(need, sorted.size()) - 1];
      for (size_t i = 0; i < n; i++) {
        const Row& w = p.rows[i];
        if ((!w.hasLo || exact >= w.lo) && (!w.hasHi || exact < w.hi)) {
          double lo = w.hasLo ? (double)w.lo : (double)r.realMin, hi = w.hasHi ? (double)w.hi : (double)r.max;
          PBT_CHECK(c, y >= lo - eps && y <= hi + eps, what << " percentile " << x << " = " << y << " is outside the bucket [" << lo << ", " << hi << "] of the value at that rank, " << exact << ", of " << show(v));
        }
      }
    }
  }
  PBT_EQ(c, h.calcPercentile(100), (double)r.max, what << " percentile 100");
  PBT_EQ(c, h.calcPercentile(0), (double)r.realMin, what << " percentile 0");
}
static void histograms(Case& c) {
  int64_t div = c.chance(1, 2) ? 1 : c.pick({2, 3, 7, 10, 100, 1000, 4096});
  int64_t off = c.chance(2, 3) ? 0 : c.pick({1, 10, -10, 7000, -5000, 1000000});
  double p1 = c.pick({85.0, 50.0, 10.0, 99.0}), p2 = c.pick({99.9, 95.0, 100.0, 60.0});
  size_t k = c.range(1, 3);
  std::vector<std::unique_ptr<Histogram>> hs;
  std::vector<Values> vals;
  Values all;
  auto mk = [&] { return new Histogram((int32_t)div, p1, p2, off); };
  std::unique_ptr<Histogram> one(mk());
  for (size_t i = 0; i < k; i++) {
    vals.push_back(genValues(c, 60, div, off));
    hs.emplace_back(mk());
    if (c.chance(1, 4)) {
      for (int64_t x : genValues(c, 5)) hs.back()->record(x);
      hs.back()->reset();
    }
    for (int64_t x : vals.back()) {
      hs.back()->record(x);
      one->record(x);
      all.push_back(x);
    }
  }
  c.note([&] { std::string s = "scale " + std::to_string(div) + " offset " + std::to_string(off); for (auto& p : vals) s += " " + show(p); return s; });
  checkHistogram(c, *one, all, div, off, p1, p2, "histogram");
  if (c.flip()) {
    hs.emplace_back(mk());
    vals.emplace_back();
    std::swap(hs.back(), hs.front());
    std::swap(vals.back(), vals.front());
  }
  while (hs.size() > 1) {
    size_t a = c.draw(hs.size() - 1), b = c.draw(hs.size() - 2);
    if (b >= a) b++;
    hs[a]->merge(*hs[b]);
    vals[a].insert(vals[a].end(), vals[b].begin(), vals[b].end());
    hs.erase(hs.begin() + b);
    vals.erase(vals.begin() + b);
  }
  checkHistogram(c, *hs[0], vals[0], div, off, p1, p2, "merged histogram");
  std::ostringstream a, b;
  hs[0]->print(a);
  one->print(b);
  PBT_EQ(c, a.str(), b.str(), "merged histogram and histogram of everything");
  if (c.flip()) {
    p1 = c.pick({20.0, 33.3});
    p2 = c.pick({70.0, 99.5});
    one->setPercentile1(p1);
    one->setPercentile2(p2);
    checkHistogram(c, *one, all, div, off, p1, p2, "histogram with other targets");
  }
  one->reset();
  checkHistogram(c, *one, {}, div, off, p1, p2, "reset histogram");
  if (all.size() > 2) c.nontrivial();
}
// ---- per-thread copies ----
// Threads record on command, one thread at a time, so that every history is
// deterministic; some threads end before the read.
class Worker {
 public:
  Worker() : t_([this] { run(); }) {}
  ~Worker() { stop(); }
  void stop() {
    if (!t_.joinable()) return;
    {
      std::lock_guard<std::mutex> l(m_);
      quit_ = true;
    }
    cv_.notify_all();
    t_.join();
  }
  void exec(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m_);
    f_ = std::move(f);
    cv_.notify_all();
    cv_.wait(l, [&] { return !f_; });
  }

 private:
  void run() {
    std::unique_lock<std::mutex> l(m_);
    while (true) {
      cv_.wait(l, [&] { return quit_ || f_; });
      if (f_) {
        f_();
        f_ = nullptr;
        cv_.notify_all();
      } else
        return;
    }
  }
  std::mutex m_;
  std::condition_variable cv_;
  std::function<void()> f_;
  bool quit_{false};
  std::thread t_;
};
template <class TL, class C>
static void threadLocalHistory(Case& c, const std::function<void(const C&, const Values&, const char*)>& check) {
  typedef typename std::conditional<std::is_same<C, Histogram>::value, int32_t, double>::type P;
  size_t callbacks = 0;
  Values pending, seen;
  bool readSeen = false;
  auto gotten = std::make_shared<std::function<void(const C&)>>();
  {
    TL tl((P)1, [&](const C& k) { (*gotten)(k); });
    std::vector<std::unique_ptr<Worker>> ws;
    size_t n = c.range(1, 5);
    for (size_t i = 0; i < n; i++) ws.emplace_back(new Worker());
    size_t ops = c.range(1, 40);
    bool useMain = c.flip();
    auto drain = [&](const C& k, const char* what) {
      check(k, pending, what);
      pending.clear();
    };
    *gotten = [&](const C& k) {
      callbacks++;
      drain(k, "summary given to the periodic callback");
    };
    std::unique_ptr<PeriodicCounters> pc;
    if (c.flip()) pc.reset(new PeriodicCounters({&tl}));
    size_t expectCallbacks = 0;
    for (size_t i = 0; i < ops; i++) {
      switch (c.weighted({12, 3, pc ? 3u : 0u, 1})) {
        case 0: {
          Values v = genValues(c, 6);
          if (useMain && c.chance(1, 4)) {
            c.note([&] { return "main records " + show(v); });
            for (int64_t x : v) tl.record(x);
          } else {
            size_t w = c.draw(ws.size() - 1);
            c.note([&] { return "thread " + std::to_string(w) + " records " + show(v); });
            ws[w]->exec([&] { for (int64_t x : v) tl.record(x); });
          }
          pending.insert(pending.end(), v.begin(), v.end());
          break;
        }
        case 1: {
          c.note([&] { return "read and reset"; });
          std::unique_ptr<C> merged(new C((P)1));
          tl.readAndReset(*merged, c.flip());
          drain(*merged, "summary read");
          readSeen = true;
          break;
        }
        case 2:
          c.note([&] { return "periodic read"; });
          pc->swapAndRead(c.flip());
          expectCallbacks++;
          PBT_EQ(c, callbacks, expectCallbacks, "callbacks");
          readSeen = true;
          break;
        default: {
          size_t w = c.draw(ws.size() - 1);
          c.note([&] { return "thread " + std::to_string(w) + " ends"; });
          ws[w]->stop();
          ws[w].reset(new Worker());
        }
      }
    }
    if (pc) {
      pc.reset();
      PBT_EQ(c, callbacks, expectCallbacks + 1, "callbacks at the end of the periodic reader");
    }
    if (c.flip()) for (auto& w : ws) w->stop();
    std::unique_ptr<C> merged(new C((P)1));
    tl.readAndReset(*merged);
    drain(*merged, "last summary");
    ws.clear();
  }
  if (readSeen) c.nontrivial();
}
static void perThread(Case& c) {
  if (c.flip())
    threadLocalHistory<ThreadLocalCounter, Counter>(c, [&](const Counter& k, const Values& v, const char* w) { checkCounter(c, k, v, w); });
  else
    threadLocalHistory<ThreadLocalHistogram, Histogram>(c, [&](const Histogram& k, const Values& v, const char* w) { checkHistogram(c, k, v, 1, 0, 85.0, 99.9, w); });
}
// Threads recording concurrently; the total is read when they are done, while
// some of them are still alive.
static void concurrentCounts(Case& c) {
  size_t n = c.range(2, 6), per = c.range(1, 3000);
  size_t early = c.draw(n);
  ThreadLocalHistogram tl(1);
  Histogram merged(1);
  std::atomic<size_t> done{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> ts;
  uint64_t seed = c.draw(1000000);
  auto val = [&](size_t t, size_t i) { return (int64_t)(pbt::mix(seed + t, i) % 1000); };
  Values all;
  for (size_t t = 0; t < n; t++) {
    for (size_t i = 0; i < per; i++) all.push_back(val(t, i));
    ts.emplace_back([&, t] {
      for (size_t i = 0; i < per; i++) tl.record(val(t, i));
      done++;
      while (t >= early && !go) std::this_thread::yield();
    });
  }
  while (done < n) std::this_thread::yield();
  for (size_t t = 0; t < early; t++) ts[t].join();
  tl.readAndReset(merged);
  checkHistogram(c, merged, all, 1, 0, 85.0, 99.9, "summary of concurrent threads");
  go = true;
  for (size_t t = early; t < n; t++) ts[t].join();
  Histogram again(1);
  tl.readAndReset(again);
  checkHistogram(c, again, {}, 1, 0, 85.0, 99.9, "second read");
  c.nontrivial();
}
// ---- performance statistics ----
struct PerfRef {
  Values v;
};
static const char* kDesc[] = {"Socket Read", "Socket Write", "File Open", "File Close", "File Read", "File Write", "Sync File Range", "fsync", "File Seek", "Throttler Sleep", "Receiver Wait Sleep", "Directory creation", "Ioctl", "Unlink", "Fadvise"};
static void checkPerf(Case& c, const PerfStatReport& r, const std::vector<Values>& want, const char* what) {
  std::ostringstream o;
  o << r;
  std::string text = o.str(), prefix = WDT_LOG_PREFIX;
  // strip the log prefix
  for (size_t p; !prefix.empty() && (p = text.find(prefix)) != std::string::npos;) text.erase(p, prefix.size());
  std::map<std::string, std::string> first;
  std::map<std::string, std::vector<std::array<int64_t, 3>>> buckets;
  std::istringstream in(text);
  std::string l, cur;
  while (std::getline(in, l)) {
    size_t p = l.find(" : Ncalls ");
    long long a, b, n;
    if (p != std::string::npos) {
      cur = l.substr(0, p);
      PBT_CHECK(c, !first.count(cur), what << ": " << cur << " appears twice\n" << text);
      first[cur] = l.substr(p);
    } else if (sscanf(l.c_str(), "[%lld, %lld) --> %lld", &a, &b, &n) == 3)
      buckets[cur].push_back({a, b, n});
  }
  for (int t = 0; t < PerfStatReport::END; t++) {
    const Values& v = want[t];
    auto it = first.find(kDesc[t]);
    if (v.empty()) {
      PBT_CHECK(c, it == first.end(), what << ": " << kDesc[t] << " has no calls but is reported\n" << text);
      continue;
    }
    PBT_CHECK(c, it != first.end(), what << ": " << kDesc[t] << " has " << v.size() << " calls and is not reported\n" << text);
    long long n;
    double sum, mn, mx, avg;
    PBT_CHECK(c, sscanf(it->second.c_str(), " : Ncalls %lld Stats in ms : sum %lf Min %lf Max %lf Avg %lf", &n, &sum, &mn, &mx, &avg) == 5, what << " line " << it->second);
    Ref ref = refOf(v);
    PBT_EQ(c, (int64_t)n, ref.count, what << " calls of " << kDesc[t] << "\n" << text);
    auto ms = [](double us) { return us / 1000; };
    auto eq = [&](double got, double us, const char* f) { PBT_CHECK(c, std::fabs(got - ms(us)) <= 0.0051 + 1e-9 * std::fabs(ms(us)), what << ": " << f << " of " << kDesc[t] << " is " << got << " ms, really " << us << " us of " << show(v) << "\n" << text); };
    eq(sum, (double)ref.sum, "sum");
    eq(mn, (double)ref.realMin, "minimum");
    eq(mx, (double)ref.max, "maximum");
    eq(avg, ref.avg, "average");
    int64_t total = 0;
    for (auto& b : buckets[kDesc[t]]) {
      int64_t in = 0;
      for (int64_t x : v) in += x / 1000 >= b[0] && x / 1000 < b[1];
      PBT_EQ(c, b[2], in, what << " bucket [" << b[0] << ", " << b[1] << ") of " << kDesc[t] << " of " << show(v) << "\n" << text);
      total += in;
    }
    PBT_EQ(c, total, ref.count, what << " calls in all buckets of " << kDesc[t] << "\n" << text);
    // percentiles lie in between and are ordered
    double last = (double)(ref.realMin / 1000);
    for (const char* q : {"p50 ", "p95 ", "p99 "}) {
      size_t p = it->second.find(q);
      if (p == std::string::npos) continue;
      double y = atof(it->second.c_str() + p + 4);
      PBT_CHECK(c, y >= last && y <= (double)(ref.max / 1000), what << ": " << q << y << " of " << kDesc[t] << " of " << show(v) << "\n" << text);
      last = y;
    }
    if (ref.count >= 2) PBT_CHECK(c, it->second.find("p50 ") != std::string::npos, what << ": no p50 for " << ref.count << " calls\n" << text);
    if (ref.count >= 2) {
      Values s = v;
      std::sort(s.begin(), s.end());
      int64_t rank = (int64_t)(s.size() * 0.5);
      int64_t y = atoll(it->second.c_str() + it->second.find("p50 ") + 4);
      PBT_EQ(c, y, s[rank - 1] / 1000, what << " median of " << kDesc[t] << " of " << show(v) << "\n" << text);
    }
  }
  PBT_CHECK(c, first.size() == (size_t)std::count_if(want.begin(), want.end(), [](const Values& v) { return !v.empty(); }), what << ": unknown type reported\n" << text);
}
static void perf(Case& c) {
  WdtOptions o;
  size_t k = c.range(1, 4);
  std::vector<std::unique_ptr<PerfStatReport>> rs;
  std::vector<std::vector<Values>> vs;
  size_t n = 0;
  for (size_t i = 0; i < k; i++) {
    rs.emplace_back(new PerfStatReport(o));
    vs.emplace_back(PerfStatReport::END);
    size_t types = c.range(0, 3);
    for (size_t t = 0; t < types; t++) {
      int type = (int)c.draw(PerfStatReport::END - 1);
      size_t m = c.logRange(1, 30);
      for (size_t j = 0; j < m; j++) {
        int64_t us = c.chance(1, 3) ? kBounds[c.draw(kN - 1)] * 1000LL + c.range(-1, 1) : c.logRange(0, 300000000);
        rs[i]->addPerfStat((PerfStatReport::StatType)type, us);
        vs[i][type].push_back(us);
        n++;
      }
    }
    c.note([&] { std::string s = "report " + std::to_string(i); for (int t = 0; t < PerfStatReport::END; t++) if (!vs[i][t].empty()) s += " " + std::string(kDesc[t]) + " " + show(vs[i][t]); return s; });
    checkPerf(c, *rs[i], vs[i], "report");
  }
  while (rs.size() > 1) {
    size_t a = c.draw(rs.size() - 1), b = c.draw(rs.size() - 2);
    if (b >= a) b++;
    *rs[a] += *rs[b];
    for (int t = 0; t < PerfStatReport::END; t++) vs[a][t].insert(vs[a][t].end(), vs[b][t].begin(), vs[b][t].end());
    checkPerf(c, *rs[a], vs[a], "merged report");
    checkPerf(c, *rs[b], vs[b], "report merged into another");
    rs.erase(rs.begin() + b);
    vs.erase(vs.begin() + b);
  }
  if (n > 1) c.nontrivial();
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C23",
                   {{"counters", counters, 12000, 300000, 30, false, "at least two values recorded"},
                    {"histograms", histograms, 6000, 120000, 30, false, "at least three values recorded"},
                    {"per_thread", perThread, 1500, 25000, 30, false, "values recorded by several threads and read while the history goes on"},
                    {"concurrent", concurrentCounts, 150, 3000, 60, true, "values recorded by concurrent threads"},
                    {"performance", perf, 4000, 80000, 30, false, "at least two calls recorded"}});
}
