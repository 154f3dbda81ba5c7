// variant: asan
// libs: core
// C21: the throttler.  Time is virtual: calculateSleep() takes the current time; the throttler's own
// start is taken from the real clock, bracketed by two readings whose distance is the tolerance.
#include <wdt/Throttler.h>
#include <cmath>
#include <thread>
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;
static double secs(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }
static Clock::time_point at(Clock::time_point b, double s) { return b + std::chrono::duration_cast<Clock::duration>(std::chrono::duration<double>(s)); }

struct Grant { double t, n; };
struct Model {  // one period between two clean starts
  double avg, peak, limit, delta;  // delta: uncertainty of the start
  Clock::time_point base;
  double now{0}, progress{0}, tokens{0}, lastFill{0}, maxReq{0};
  size_t reqs{0};
  std::vector<Grant> grants;
  bool slept{false}, free{false};
};
static std::string rates(const Model& m) {
  std::ostringstream o;
  o << "avg " << m.avg << " peak " << m.peak << " limit " << m.limit;
  return o.str();
}
static void checkWindows(Case& c, const Model& m) {
  double eps = 1e-6;
  if (m.avg > 0) {
    double sum = 0;
    for (auto& g : m.grants) {
      sum += g.n;
      PBT_CHECK(c, sum <= m.avg * (g.t + m.delta) + m.maxReq + eps * sum + 1, "granted " << sum << " within " << g.t << " s; " << rates(m));
    }
  }
  if (m.peak > 0 && m.limit > 0) {
    for (size_t i = 0; i < m.grants.size(); i++) {
      double sum = 0;
      for (size_t j = i; j < m.grants.size(); j++) {
        sum += m.grants[j].n;
        double w = m.grants[j].t - m.grants[i].t;
        PBT_CHECK(c, sum <= m.peak * (w + m.delta) + m.limit + 2 * m.maxReq + (double)(j - i + 2) + eps * sum,
                  "granted " << sum << " within a window of " << w << " s (requests " << i << ".." << j << "); largest request " << m.maxReq << "; " << rates(m));
      }
    }
  }
}
static double pickRate(Case& c) { return c.pick<double>({1e3, 1e5, 12345.678, 1e6, 3e7, 2.5e9}) * (c.flip() ? 1.0 : (double)c.range(1, 100) / 10.0); }
static void sequence(Case& c) {
  ThrottlerOptions o;
  bool hasAvg = c.chance(2, 3), hasPeak = c.chance(2, 3);
  o.avg_rate_per_sec = hasAvg ? pickRate(c) : c.pick<double>({-1, 0, -5});
  o.max_rate_per_sec = hasPeak ? (hasAvg ? o.avg_rate_per_sec * c.pick<double>({1, 1.2, 1.5, 10}) : pickRate(c)) : -1;
  o.throttler_bucket_limit = hasPeak ? c.pick<double>({0, 0, 0.01, 0.1, 1, 5}) * o.max_rate_per_sec : 0;
  o.single_request_limit = 1 << 20;
  auto t = Throttler::makeThrottler(o);
  double lim = o.throttler_bucket_limit > 0 ? o.throttler_bucket_limit : 0.5 * o.max_rate_per_sec;
  std::vector<std::string> log;
  c.note([&] { std::ostringstream s; s << "avg " << o.avg_rate_per_sec << " peak " << o.max_rate_per_sec << " bucket " << o.throttler_bucket_limit; return s.str(); });
  PBT_CHECK(c, t->calculateSleep(1e9, Clock::now()) <= 0 && t->getProgress() == 0, "an unregistered request is counted");
  int users = 0;
  Model m;
  auto fresh = [&](double avg, double peak, double limit, const std::function<void()>& f) {
    Clock::time_point a = Clock::now();
    f();
    m = Model();
    m.base = Clock::now();
    m.delta = secs(a, m.base) + 1e-6;
    m.avg = avg, m.peak = peak, m.limit = limit;
  };
  fresh(o.avg_rate_per_sec, o.max_rate_per_sec, lim, [&] { t->startTransfer(); });
  users = 1;
  size_t ops = c.range(3, 45);
  bool sleptEver = false, freeEver = false, changed = false;
  for (size_t k = 0; k < ops; k++) {
    size_t op = c.weighted({30, 1, 1, 1});
    double scale = m.avg > 0 ? m.avg : m.peak > 0 ? m.peak : 1e6;
    if (op == 0) {
      double n = std::floor(scale * c.pick<double>({0, 0.001, 0.01, 0.05, 0.2, 1}) * c.pick<double>({1, 0.5, 1.7}));
      double idle = c.pick<double>({0, 0, 0, 0.001, 0.01, 0.1, 1, 10}) * c.pick<double>({1, 0.3, 2});
      m.now += idle;
      double el = secs(m.base, at(m.base, m.now));
      double s = t->calculateSleep(n, at(m.base, m.now));
      c.note([&] { std::ostringstream w; w << "t=" << m.now << " request " << n << " -> sleep " << s; return w.str(); });
      m.reqs++;
      m.maxReq = std::max(m.maxReq, n);
      m.progress += n;
      PBT_CHECK(c, std::fabs(t->getProgress() - m.progress) < 1, "progress " << t->getProgress() << " after requests of " << m.progress);
      // need: how long until usage is back within the limits
      double needAvg = m.avg > 0 ? m.progress / m.avg - el : -1;
      double needPeak = -1;
      if (m.peak > 0 && m.limit > 0) {
        m.tokens = std::min(m.limit, m.tokens + (el - m.lastFill) * m.peak);
        m.lastFill = el;
        m.tokens -= n;
        needPeak = -m.tokens / m.peak;
      }
      // whole tokens are dropped by the integer bucket, at most one per request
      double tol = m.delta + (m.peak > 0 ? (double)(m.reqs + 1) / m.peak : 0) + 1e-9 * (1 + el);
      double need = std::max(needAvg, needPeak);
      PBT_CHECK(c, s <= std::max(0.0, need) + tol, "sleep of " << s << " s requested, but " << need << " s bring usage back within the limits (average " << needAvg << ", peak " << needPeak << "); " << rates(m));
      if (need < -tol) PBT_CHECK(c, s <= 0, "sleep of " << s << " s requested while usage is within the limits; " << rates(m));
      // and not less than the average rate needs
      if (needAvg > tol) PBT_CHECK(c, s >= needAvg - tol, "sleep of " << s << " s does not bring the average down (" << needAvg << " s needed); " << rates(m));
      if (s > 0) m.now += s, sleptEver = true;
      else freeEver = true;
      if (n > 0) m.grants.push_back({m.now, n});
      if (needAvg <= 0 && s <= 0 && m.avg <= 0 && m.peak <= 0) c.label("unlimited");
      continue;
    }
    if (op == 1) {
      checkWindows(c, m);
      double a = c.flip() ? pickRate(c) : c.pick<double>({-1, 0}), p = c.pick<double>({-1, 0, 1}), l = c.pick<double>({0, -1, 1000, 1e6});
      if (p > 0) p = c.flip() ? pickRate(c) : std::max(a, 1.0) * 2;
      double a0 = a, p0 = p;
      bool byOpt = c.flip();
      fresh(0, 0, 0, [&] {
        if (byOpt) {
          ThrottlerOptions q;
          q.avg_rate_per_sec = a, q.max_rate_per_sec = p, q.throttler_bucket_limit = l;
          t->setThrottlerRates(q);
        } else {
          t->setThrottlerRates(a, p, l);
        }
      });
      m.avg = t->getAvgRatePerSec(), m.peak = t->getPeakRatePerSec(), m.limit = t->getBucketLimit();
      c.note([&] { std::ostringstream w; w << "set avg " << a0 << " peak " << p0 << " bucket " << l << " -> " << rates(m); return w.str(); });
      PBT_CHECK(c, m.avg == a0, "average rate set to " << a0 << " is " << m.avg);
      if (p0 < 0) PBT_CHECK(c, m.peak < 0, "unlimited peak rate became " << m.peak);
      if (p0 >= 0 && p0 >= a0) PBT_CHECK(c, m.peak == p0, "peak rate set to " << p0 << " (average " << a0 << ") is " << m.peak);
      if (p0 >= 0 && p0 < a0) PBT_CHECK(c, m.peak >= a0 && m.peak <= 2 * a0, "peak rate below the average " << a0 << " became " << m.peak);
      if (m.peak > 0) PBT_CHECK(c, m.limit > 0, "peak rate without burst limit");
      if (l > 0) PBT_CHECK(c, m.limit == l, "burst limit " << l << " is " << m.limit);
      PBT_EQ(c, t->getProgress(), 0.0, "progress after changing the rates");
      changed = true;
    } else if (op == 2) {
      t->startTransfer();  // another user: nothing changes
      users++;
    } else {
      t->endTransfer();
      if (--users == 0) {
        checkWindows(c, m);
        PBT_CHECK(c, t->calculateSleep(1000, Clock::now()) <= 0, "sleep without a user");
        double a = m.avg, p = m.peak, l = m.limit;
        fresh(a, p, l, [&] { t->startTransfer(); });
        users = 1;
        PBT_EQ(c, t->getProgress(), 0.0, "progress for a fresh first user");
        c.label("fresh first user");
      }
    }
  }
  checkWindows(c, m);
  if (changed) c.label("rates changed");
  if (sleptEver && freeEver) c.nontrivial();
}
// several sequential callers sharing one throttler, in virtual time
static void callers(Case& c) {
  ThrottlerOptions o;
  o.avg_rate_per_sec = c.chance(2, 3) ? pickRate(c) : -1;
  o.max_rate_per_sec = o.avg_rate_per_sec < 0 || c.flip() ? (o.avg_rate_per_sec > 0 ? o.avg_rate_per_sec * c.pick<double>({1, 1.2, 3}) : pickRate(c)) : -1;
  o.single_request_limit = 1 << 20;
  if (o.max_rate_per_sec > 0 && c.flip()) o.throttler_bucket_limit = o.max_rate_per_sec * c.pick<double>({0.02, 0.2, 2});
  auto t = Throttler::makeThrottler(o);
  size_t k = c.range(2, 6);
  Model m;
  Clock::time_point a = Clock::now();
  for (size_t i = 0; i < k; i++) t->startTransfer();
  m.base = Clock::now();
  m.delta = secs(a, m.base) + 1e-6;
  m.avg = t->getAvgRatePerSec(), m.peak = t->getPeakRatePerSec(), m.limit = t->getBucketLimit();
  c.note([&] { return std::to_string(k) + " callers, " + rates(m); });
  std::vector<double> ready(k, 0);
  double scale = m.avg > 0 ? m.avg : m.peak, total = 0, end = 0;
  size_t n = c.range(20, 150);
  double req = std::max(1.0, std::floor(scale * c.pick<double>({0.001, 0.01, 0.1})));
  for (size_t i = 0; i < n; i++) {
    size_t w = std::min_element(ready.begin(), ready.end()) - ready.begin();
    double now = ready[w];
    double s = t->calculateSleep(req, at(m.base, now));
    total += req;
    if (s > 0) now += s;
    m.grants.push_back({now, req});
    end = std::max(end, now);
    ready[w] = now + (c.chance(1, 10) ? c.pick<double>({0.001, 0.1, 1}) : 0);
  }
  std::sort(m.grants.begin(), m.grants.end(), [](const Grant& x, const Grant& y) { return x.t < y.t; });
  m.maxReq = req * k;  // every caller may have one request under way
  checkWindows(c, m);
  // and the rate is reached: with busy callers the total time is not longer than the slower limit needs
  double lo = std::max(m.avg > 0 ? total / m.avg : 0, m.peak > 0 ? total / m.peak : 0);
  double idle = 0;
  for (auto& r : ready) idle = std::max(idle, r - end);
  c.label(end > lo * 1.5 ? "idle callers" : "busy callers");
  if (end > 0) c.nontrivial();
}
struct Real : ThrottlerOptions {};
// real time: limit() on several threads
static void realTime(Case& c) {
  ThrottlerOptions o;
  o.avg_rate_per_sec = (double)c.range(50, 400) * 1e6;
  o.max_rate_per_sec = c.flip() ? o.avg_rate_per_sec * 1.2 : -1;
  o.single_request_limit = c.pick<int64_t>({1000, 65536, 1000000, 1 << 20});
  size_t k = c.range(1, 4);
  double dur = (double)c.range(5, 60) / 1000;
  int64_t per = (int64_t)(o.avg_rate_per_sec * dur / k);
  int64_t chunk = c.pick<int64_t>({per, per / 3 + 1, per / 20 + 1});
  c.note([&] { std::ostringstream s; s << k << " threads, " << per << " bytes each in requests of " << chunk << ", avg " << o.avg_rate_per_sec << ", single request limit " << o.single_request_limit; return s.str(); });
  auto t = Throttler::makeThrottler(o);
  for (size_t i = 0; i < k; i++) t->startTransfer();
  auto a = Clock::now();
  std::vector<std::thread> th;
  int64_t total = 0;
  for (size_t i = 0; i < k; i++) {
    for (int64_t d = 0; d < per; d += chunk) total += std::min(chunk, per - d);
    th.emplace_back([&] { for (int64_t d = 0; d < per; d += chunk) t->limit(std::min(chunk, per - d)); });
  }
  for (auto& x : th) x.join();
  double el = secs(a, Clock::now());
  for (size_t i = 0; i < k; i++) t->endTransfer();
  PBT_CHECK(c, std::fabs(t->getProgress() - total) < 1, "progress " << t->getProgress() << " after limiting " << total << " bytes");
  double least = (total - (double)std::min(chunk, o.single_request_limit) * k) / o.avg_rate_per_sec;
  PBT_CHECK(c, el >= least - 0.002, total << " bytes granted in " << el << " s at " << o.avg_rate_per_sec << " per second");
  PBT_CHECK(c, el <= total / o.avg_rate_per_sec + 20, total << " bytes took " << el << " s at " << o.avg_rate_per_sec << " per second");
  c.nontrivial();
}
int main(int argc, char** argv) {
  pbt::Sub s{"sequence", sequence, 60000, 2500000};
  s.rule = "at least one request had to sleep and one did not";
  pbt::Sub k{"callers", callers, 6000, 150000};
  k.rule = "several callers were made to wait";
  pbt::Sub r{"real", realTime, 150, 4000};
  r.concurrent = true;
  r.rule = "always (limit() on real threads)";
  return pbt::main(argc, argv, "C21", {s, k, r});
}
