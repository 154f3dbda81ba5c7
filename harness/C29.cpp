// variant: asan
// libs: core
// extra: common_proc.cpp
// tools: asan/cli/wdt
// C29: options reach the transfer exactly as the user gave them.
#include <gflags/gflags.h>
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Throttler.h>
#include <wdt/WdtResourceController.h>
#include <wdt/util/WdtFlags.h>
#include <cmath>
#include <iomanip>
#include <set>
#include <sstream>
#include "common_proc.h"
#include "pbt.h"
using namespace facebook::wdt;
using pbt::Case;

// Every option which has a flag: name and type.
#define OPTS(X)                                                                                                                      \
  X(start_port, I) X(num_ports, I) X(static_ports, B) X(ipv6, B) X(ipv4, B) X(dscp, I) X(ignore_open_errors, B) X(two_phases, B)      \
  X(follow_symlinks, B) X(skip_writes, B) X(backlog, I) X(buffer_size, I) X(max_retries, I) X(max_transfer_retries, I)               \
  X(sleep_millis, I) X(block_size_mbytes, D) X(avg_mbytes_per_sec, D) X(max_mbytes_per_sec, D) X(throttler_bucket_limit, D)          \
  X(throttler_log_time_millis, L) X(progress_report_interval_millis, I) X(full_reporting, B) X(include_regex, S)                     \
  X(exclude_regex, S) X(prune_dir_regex, S) X(accept_timeout_millis, I) X(max_accept_retries, I) X(accept_window_millis, I)          \
  X(read_timeout_millis, I) X(write_timeout_millis, I) X(connect_timeout_millis, I) X(abort_check_interval_millis, I)                \
  X(disk_sync_interval_mb, D) X(throughput_update_interval_millis, I) X(enable_checksum, B) X(enable_perf_stat_collection, B)        \
  X(transfer_log_write_interval_ms, I) X(enable_transfer_log_compaction, B) X(enable_download_resumption, B)                         \
  X(keep_transfer_log, B) X(disable_sender_verification_during_resumption, B) X(global_sender_limit, I)                              \
  X(global_receiver_limit, I) X(namespace_sender_limit, I) X(namespace_receiver_limit, I) X(odirect_reads, B)                        \
  X(disable_preallocation, B) X(resume_using_dir_tree, B) X(open_files_during_discovery, I) X(overwrite, B) X(drain_extra_ms, I)     \
  X(encryption_type, S) X(encryption_tag_interval_bytes, I) X(send_buffer_size, I) X(receive_buffer_size, I)                         \
  X(delete_extra_files, B) X(skip_fadvise, B) X(fsync, B) X(enable_heart_beat, B) X(iv_change_interval_mb, I)

static std::string str(const std::string& s) { return s; }
static std::string str(double d) {
  std::ostringstream o;
  o << std::setprecision(17) << d;
  return o.str();
}
static std::string str(bool b) { return b ? "1" : "0"; }
static std::string str(int64_t v) { return std::to_string(v); }
static std::string str(int32_t v) { return std::to_string(v); }

typedef std::map<std::string, std::string> Vals;  // canonical text of every option
static Vals valuesOf(const WdtOptions& o) {
  Vals v;
#define X(n, t) v[#n] = str(o.n);
  OPTS(X)
#undef X
  return v;
}
static const std::vector<std::pair<std::string, char>>& opts() {
  static std::vector<std::pair<std::string, char>> v = {
#define X(n, t) {#n, #t[0]},
      OPTS(X)
#undef X
  };
  return v;
}
// A user's choice for one option: text on the command line and canonical value.
struct Given {
  std::string name, text, value;
  char type;
};
static Given gen(Case& c, const std::string& name, char type) {
  Given g{name, "", "", type};
  switch (type) {
    case 'B': {
      bool b = c.flip();
      g.text = b ? c.pick<std::string>({"true", "1", "t", "yes", "y", "T", "True"}) : c.pick<std::string>({"false", "0", "f", "no", "n", "F", "False"});
      g.value = str(b);
      break;
    }
    case 'I': {
      int32_t v = c.chance(1, 8) ? c.pick({INT32_MAX, INT32_MIN, 0, -1}) : c.chance(1, 6) ? -(int32_t)c.logRange(1, 1 << 20) : (int32_t)c.logRange(0, INT32_MAX);
      if (name == "buffer_size" && v <= 0) v = 1 + (v & 0xffff);  // the throttler refuses a buffer of no bytes
      g.text = g.value = std::to_string(v);
      break;
    }
    case 'L': {
      int64_t v = c.chance(1, 8) ? c.pick<int64_t>({INT64_MAX, INT64_MIN, 0, -1}) : (int64_t)c.logRange(0, INT64_MAX);
      g.text = g.value = std::to_string(v);
      break;
    }
    case 'D': {
      double v = c.chance(1, 8) ? c.pick({-1.0, 0.0, 1e-9, 1e12}) : (double)c.range(-100000, 100000) / c.pick({1, 2, 10, 1000, 7});
      g.text = str(v);
      g.value = str(v);
      break;
    }
    default: {
      g.value = c.str(0, 12, "ab.*\\/$^[]()-_ =1");
      if (name == "encryption_type") g.value = c.pick<std::string>({"none", "aes128ctr", "aes128gcm", "bogus", ""});
      g.text = g.value;
    }
  }
  return g;
}
struct Setup {
  std::vector<Given> given;
  std::string type;  // option_type, empty = not given
  bool typeGiven{false};
  bool startPort{false}, ambiguous{false};
};
static Setup genSetup(Case& c) {
  Setup s;
  size_t n = c.chance(1, 6) ? opts().size() : c.logRange(0, 12);
  std::set<std::string> used;
  for (size_t i = 0; i < n; i++) {
    auto& o = n == opts().size() ? opts()[i] : c.chance(1, 3) ? opts()[c.pick({0u, 1u, 2u, 15u, 46u, 47u})] : c.pick(opts());
    if (!used.insert(o.first).second) continue;
    s.given.push_back(gen(c, o.first, o.second));
  }
  c.shuffle(s.given);
  s.typeGiven = c.chance(2, 3);
  if (s.typeGiven) s.type = c.weighted({4, 2, 1, 1}) == 0 ? "disk" : c.pick<std::string>({"flash", "disk", "Disk", "", "ssd"});
  return s;
}
static Vals expected(const Vals& dflt, Setup& s) {
  Vals v = dflt;
  std::set<std::string> used;
  for (auto& g : s.given) {
    v[g.name] = g.value;
    used.insert(g.name);
  }
  if (s.typeGiven && s.type == "disk") {
    if (!used.count("num_ports")) v["num_ports"] = "3";
    if (!used.count("block_size_mbytes")) v["block_size_mbytes"] = "-1";
    if (!used.count("disable_preallocation")) v["disable_preallocation"] = "1";
    if (!used.count("resume_using_dir_tree")) v["resume_using_dir_tree"] = "1";
  }
  // documented: "if set, implies static_ports"
  if (used.count("start_port")) {
    if (used.count("static_ports") && v["static_ports"] == "0") s.ambiguous = true;
    v["static_ports"] = "1";
  }
  return v;
}
static std::string show(const Setup& s) {
  std::string r = s.typeGiven ? "-option_type='" + s.type + "'" : "(no option type)";
  for (auto& g : s.given) r += " -" + g.name + "='" + g.text + "'";
  return r;
}
// arguments in the forms gflags accepts
static std::vector<std::string> args(Case& c, const Setup& s, const std::string& prefix) {
  std::vector<std::string> a;
  auto put = [&](const std::string& n, const std::string& t, char type) {
    std::string d = c.flip() ? "-" : "--";
    if (type == 'B' && c.chance(1, 2) && (t == "true" || t == "false")) {
      a.push_back(d + (t == "true" ? "" : "no") + prefix + n);
      return;
    }
    if (type != 'B' && c.chance(1, 3)) {
      a.push_back(d + prefix + n);
      a.push_back(t);
    } else
      a.push_back(d + prefix + n + "=" + t);
  };
  std::vector<int> order(s.given.size());
  size_t pos = c.draw(s.given.size());
  for (size_t i = 0; i <= s.given.size(); i++) {
    if (i == pos && s.typeGiven) put("option_type", s.type, 'S');
    if (i < s.given.size()) put(s.given[i].name, s.given[i].text, s.given[i].type);
  }
  return a;
}
static void compare(Case& c, const Vals& got, const Vals& want, const Setup& s, const char* what) {
  for (auto& w : want) {
    auto it = got.find(w.first);
    PBT_CHECK(c, it != got.end(), what << ": option " << w.first << " is missing, with " << show(s));
    if (s.ambiguous && w.first == "static_ports") continue;
    PBT_CHECK(c, it->second == w.second, what << ": option " << w.first << " is '" << it->second << "' instead of '" << w.second << "' with " << show(s));
  }
}
// printed form -> text per option
static Vals parsePrinted(Case& c, const std::string& text) {
  Vals v;
  std::istringstream in(text);
  std::string l, p = "wdt>\t";
  while (std::getline(in, l)) {
    if (l.compare(0, p.size(), p)) continue;
    l = l.substr(p.size());
    size_t sp = l.find(' ');
    PBT_CHECK(c, sp != std::string::npos, "printed line '" << l << "'");
    PBT_CHECK(c, !v.count(l.substr(0, sp)), "option printed twice: " << l);
    v[l.substr(0, sp)] = l.substr(sp + 1);
  }
  return v;
}
static void comparePrinted(Case& c, const Vals& got, const Vals& want, const Setup& s, const char* what) {
  for (auto& o : opts()) {
    auto it = got.find(o.first);
    PBT_CHECK(c, it != got.end(), what << ": option " << o.first << " is not printed");
    if (s.ambiguous && o.first == "static_ports") continue;
    const std::string& w = want.at(o.first);
    if (o.second == 'D') {
      double a = atof(it->second.c_str()), b = atof(w.c_str());
      PBT_CHECK(c, std::fabs(a - b) <= 1e-5 * std::fabs(b) && (a == 0) == (b == 0), what << " prints " << o.first << " " << it->second << " instead of " << w << " with " << show(s));
    } else
      PBT_CHECK(c, it->second == w, what << " prints " << o.first << " '" << it->second << "' instead of '" << w << "' with " << show(s));
  }
  PBT_EQ(c, got.size(), opts().size(), what << ": number of printed options (an option the check does not know?)");
}
// ---- flags of the library ----
static void flags(Case& c) {
  Setup s = genSetup(c);
  c.note([&] { return show(s); });
  WdtOptions fresh;
  Vals want = expected(valuesOf(fresh), s);
  WdtOptions o;
  std::ostringstream printed;
  {
    gflags::FlagSaver saver;
    bool parse = c.flip();
    if (parse) {
      std::vector<std::string> a = args(c, s, "wdt_");
      a.insert(a.begin(), "prog");
      std::vector<char*> av;
      for (auto& x : a) av.push_back(&x[0]);
      av.push_back(nullptr);
      int argc = (int)a.size();
      char** argv = av.data();
      gflags::ParseCommandLineFlags(&argc, &argv, true);
      PBT_EQ(c, argc, 1, "unparsed arguments with " << show(s));
    } else {
      for (auto& g : s.given) PBT_CHECK(c, !gflags::SetCommandLineOption(("wdt_" + g.name).c_str(), g.text.c_str()).empty(), "flag wdt_" << g.name << " refuses '" << g.text << "'");
      if (s.typeGiven) gflags::SetCommandLineOption("wdt_option_type", s.type.c_str());
    }
    if (c.chance(1, 4)) {  // earlier contents of the options do not matter
      o.num_ports = 77;
      o.block_size_mbytes = 5;
      o.include_regex = "zzz";
      o.fsync = false;
    }
    WdtFlags::initializeFromFlags(o);
    auto user = WdtFlags::getUserSpecifiedOptions();
    for (auto& g : s.given) PBT_CHECK(c, user.count(g.name), "option " << g.name << " does not count as specified by the user, with " << show(s));
    std::set<std::string> names;
    for (auto& g : s.given) names.insert(g.name);
    for (auto& op : opts()) PBT_CHECK(c, names.count(op.first) == user.count(op.first), "option " << op.first << " counts as specified by the user, with " << show(s));
    // asking twice changes nothing
    if (c.chance(1, 3)) WdtFlags::initializeFromFlags(o);
    WdtFlags::printOptions(printed, o);
  }
  compare(c, valuesOf(o), want, s, "options");
  comparePrinted(c, parsePrinted(c, printed.str()), want, s, "printOptions");
  if (!s.given.empty()) c.nontrivial();
  c.label(s.typeGiven ? "type " + s.type : "no type");
}
// ---- modifyOptions, called directly ----
static void optionTypes(Case& c) {
  WdtOptions o;
  Setup s = genSetup(c);
  {
    gflags::FlagSaver saver;
    for (auto& g : s.given) gflags::SetCommandLineOption(("wdt_" + g.name).c_str(), g.text.c_str());
    WdtFlags::initializeFromFlags(o);
  }
  Vals before = valuesOf(o);
  std::string type = c.pick<std::string>({"disk", "flash", "other", ""});
  std::set<std::string> user;
  for (auto& op : opts()) if (c.chance(1, 3)) user.insert(op.first);
  c.note([&] { std::string r = "options set by " + show(s) + "; modifyOptions(" + type + ") with user options"; for (auto& u : user) r += " " + u; return r; });
  o.modifyOptions(type, user);
  Vals after = valuesOf(o), want = before;
  if (type == "disk") {
    const std::vector<std::pair<std::string, std::string>> disk = {{"num_ports", "3"}, {"block_size_mbytes", "-1"}, {"disable_preallocation", "1"}, {"resume_using_dir_tree", "1"}};
    for (auto& p : disk) if (!user.count(p.first)) want[p.first] = p.second;
  }
  if (user.count("start_port")) {
    if (user.count("static_ports") && before["static_ports"] == "0") s.ambiguous = true;
    want["static_ports"] = "1";
  }
  compare(c, after, want, s, ("modifyOptions(" + type + ")").c_str());
  // derived settings
  bool resume = o.enable_download_resumption, tree = o.resume_using_dir_tree;
  PBT_EQ(c, o.isLogBasedResumption(), resume && !tree, "log based resumption");
  PBT_EQ(c, o.isDirectoryTreeBasedResumption(), resume && tree, "tree based resumption");
  PBT_EQ(c, o.shouldPreallocateFiles(), !o.disable_preallocation, "preallocation");
  ThrottlerOptions t = o.getThrottlerOptions();
  const double mb = 1048576;
  auto eq = [&](double got, double w, const char* n) { PBT_CHECK(c, std::fabs(got - w) <= 1e-9 * std::fabs(w), n << " of the throttler is " << got << " instead of " << w); };
  eq(t.avg_rate_per_sec, o.avg_mbytes_per_sec * mb, "average rate");
  eq(t.max_rate_per_sec, o.max_mbytes_per_sec * mb, "peak rate");
  eq(t.throttler_bucket_limit, o.throttler_bucket_limit * mb, "burst limit");
  PBT_EQ(c, (int64_t)t.throttler_log_time_millis, (int64_t)o.throttler_log_time_millis, "log time of the throttler");
  PBT_EQ(c, (int64_t)t.single_request_limit, (int64_t)o.buffer_size, "request limit of the throttler");
  if (!user.empty()) c.nontrivial();
  // copies are complete
  WdtOptions copy;
  copy.close_on_exec = !o.close_on_exec;
  copy.copyInto(o);
  compare(c, valuesOf(copy), after, s, "copied options");
  PBT_EQ(c, copy.close_on_exec, o.close_on_exec, "copied options");
}
// ---- options of transfer objects ----
struct TestSender : Sender {
  using Sender::Sender;
  void update() { checkAndUpdateBufferSize(); }
};
static void transferOptions(Case& c) {
  WdtOptions o;
  Setup s = genSetup(c);
  {
    gflags::FlagSaver saver;
    for (auto& g : s.given) gflags::SetCommandLineOption(("wdt_" + g.name).c_str(), g.text.c_str());
    if (s.typeGiven) gflags::SetCommandLineOption("wdt_option_type", s.type.c_str());
    WdtFlags::initializeFromFlags(o);
  }
  o.global_sender_limit = o.global_receiver_limit = 0;
  o.namespace_sender_limit = o.namespace_receiver_limit = 0;
  c.note([&] { return show(s); });
  Vals want = valuesOf(o);
  WdtTransferRequest r(0, 1, "/nonexistent");
  r.hostName = "localhost";
  int how = (int)c.draw(2);
  c.label(how == 0 ? "setWdtOptions" : how == 1 ? "resource controller sender" : "resource controller receiver");
  if (how == 0) {
    TestSender snd(r);
    snd.setWdtOptions(o);
    compare(c, valuesOf(snd.getWdtOptions()), want, s, "options of a sender");
  } else {
    WdtResourceController k(o);
    compare(c, valuesOf(k.getOptions()), want, s, "options of the resource controller");
    k.registerWdtNamespace("n");
    if (how == 1) {
      SenderPtr p;
      PBT_EQ(c, (int)k.createSender("n", "x", r, p), (int)OK, "create");
      compare(c, valuesOf(p->getWdtOptions()), want, s, "options of a created sender");
    } else {
      ReceiverPtr p;
      PBT_EQ(c, (int)k.createReceiver("n", "x", r, p), (int)OK, "create");
      compare(c, valuesOf(p->getWdtOptions()), want, s, "options of a created receiver");
    }
  }
  // objects without options of their own take the global ones
  TestSender g(r);
  compare(c, valuesOf(g.getWdtOptions()), valuesOf(WdtOptions::get()), s, "options of a plain sender");
  if (!s.given.empty()) c.nontrivial();
  // buffer size
  int32_t b = c.chance(1, 3) ? (int32_t)c.range(-10, 300) * 4096 + (int32_t)c.range(-1, 1) : c.chance(1, 4) ? -(int32_t)c.logRange(0, INT32_MAX) : (int32_t)c.logRange(0, INT32_MAX - 4096);
  g.getWdtOptions().buffer_size = b;
  g.update();
  int64_t got = g.getWdtOptions().buffer_size, least = std::max<int64_t>(b, Protocol::kMaxHeader);
  c.note([&] { return "buffer size " + std::to_string(b) + " becomes " + std::to_string(got); });
  PBT_CHECK(c, got % 4096 == 0 && got >= least && got < least + 4096, "buffer size " << b << " becomes " << got << "; a header may take " << Protocol::kMaxHeader);
}
// ---- the command ----
static void command(Case& c) {
  Setup s = genSetup(c);
  // values the shell would not change; line ends would break the printed form
  std::vector<std::string> a = args(c, s, "");
  a.insert(a.begin(), toolPath("asan/cli/wdt"));
  a.insert(a.begin() + 1 + c.draw(1) * (a.size() - 1), "-print_options");
  c.note([&] { std::string r; for (auto& x : a) r += "'" + x + "' "; return r; });
  ProcResult p = runProc(a, {}, 60);
  PBT_CHECK(c, p.ok(), "exit " << p.status << " with " << show(s) << "\n" << p.err.substr(0, 500));
  WdtOptions fresh;
  fresh.progress_report_interval_millis = 200;  // standard output is not a terminal
  Vals want = expected(valuesOf(fresh), s);
  comparePrinted(c, parsePrinted(c, p.out), want, s, "wdt -print_options");
  if (!s.given.empty()) c.nontrivial();
}
// refused values: the command fails and prints no options
static void badFlags(Case& c) {
  auto& o = c.pick(opts());
  std::string bad;
  std::string name = o.first;
  switch (o.second) {
    case 'B': bad = c.pick<std::string>({"maybe", "2", "-1", "truee"}); break;
    case 'I': bad = c.pick<std::string>({"abc", "12x", "2147483648", "-2147483649", "1.5", "99999999999999999999"}); break;
    case 'L': bad = c.pick<std::string>({"abc", "9223372036854775808", "1.5", "5 5"}); break;
    case 'D': bad = c.pick<std::string>({"abc", "1.5x", "--"}); break;
    default: name += "_x"; bad = "y";  // no such flag
  }
  std::vector<std::string> a = {toolPath("asan/cli/wdt"), "-print_options", "-" + name + "=" + bad};
  c.note([&] { return a[2]; });
  c.nontrivial();
  ProcResult p = runProc(a, {}, 60);
  PBT_CHECK(c, !p.timedOut && p.status != 0, "wdt " << a[2] << " exits " << p.status);
  PBT_CHECK(c, p.status < 1000, "wdt " << a[2] << " dies of signal " << p.status - 1000);
  PBT_CHECK(c, p.out.find("wdt>\t") == std::string::npos, "wdt " << a[2] << " prints options");
}
int main(int argc, char** argv) {
  return pbt::main(argc, argv, "C29",
                   {{"flags", flags, 6000, 100000, 30, false, "at least one option given"},
                    {"option_types", optionTypes, 6000, 100000, 30, false, "at least one option counts as given by the user"},
                    {"transfer_objects", transferOptions, 4000, 60000, 30, false, "at least one option given"},
                    {"command", command, 400, 6000, 90, false, "at least one option given"},
                    {"bad_values", badFlags, 80, 800, 90, false, "always"}});
}
