// C29: concurrent use of const splines and helpers
#include <dirent.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <map>
#include <thread>

#include "operations.hpp"

const char* const kRule =
    "1-3 shared splines (polynomial, rational) and 2-4 "
    "threads that each run 2-10 operations on them several times (evaluation, basis "
    "functions, derivatives, splits, elevation of a copy, arithmetic, products, "
    "compositions, sensitivities, rejected requests, export, binomials, powers, "
    "sorting, messages of all kinds; any output level, with and without logging "
    "compiled in), first all threads at once, then one after the other: every result is "
    "bitwise the same, the shared splines are unchanged, the thread sanitizer "
    "sees no data race, and console and files have every message in a line of its "
    "own, the ones of a thread in its order; non-trivial: two threads share an operation on one spline";

namespace {
#ifdef ENABLE_LOGGING
constexpr bool kLogging = true;
#else
constexpr bool kLogging = false;
#endif
using Logger = bezman::utils::Logger;
enum { kUser = 1, kErr = 2, kWarn = 4, kLog = 8, kExt = 16, kTime = 32, kWarnF = 64, kErrF = 128, kLogF = 256 };
const char* const kFiles[] = {"log_file.log", "warning_file.log", "error_file.log"};
const char* const kKinds[] = {"user info", "logging", "extended information", "warning", "error"};
constexpr unsigned kConsoleBits[] = {kUser, kLog, kExt, kWarn, kErr};
constexpr unsigned kFileBits[] = {kLogF, kLogF, kLogF, kWarnF, kErrF};

/// A message of a thread with an unmistakable text, or a rejected request (kind
/// 5), whose text other threads can have as well
struct Message {
  unsigned kind;
  std::string text;
  bool on_console(unsigned level) const {
    return kind == 5 ? (level & kErr) != 0 : kLogging && (level & kConsoleBits[kind]);
  }
  bool in_file(unsigned level, size_t file) const {
    static constexpr unsigned bits[] = {kLogF, kWarnF, kErrF};
    return kLogging && (level & bits[file]) && (kind == 5 ? kErrF : kFileBits[kind]) == bits[file];
  }
};
struct Sender {
  size_t thread{};
  vector<Message> messages{};
};
thread_local Sender* sender = nullptr;
void raise(unsigned kind, const std::string& text) {
  switch (kind) {
    case 0: return Logger::UserInfo(text);
    case 1: return Logger::Logging(text);
    case 2: return Logger::ExtendedInformation(text);
    case 3: return Logger::Warning(text);
    default: return Logger::Error(text);
  }
}
/// The log files of this process: opened in a scratch directory that is removed
/// at once, read through their descriptors
struct LogFiles {
  std::string path[3];
  std::streamoff seen[3]{};
  LogFiles() {
    if (!kLogging) return;
    char before[4096], dir[] = "threads-XXXXXX";
    if (!getcwd(before, sizeof before) || !mkdtemp(dir)) pbt::fail("no scratch directory");
    const std::string scratch = std::string(before) + "/" + dir;
    if (chdir(dir)) pbt::fail("no scratch directory");
    std::ostringstream ignored;
    auto* const console = std::cout.rdbuf(ignored.rdbuf());
    Logger::SetOutputLevel(kLogF | kWarnF | kErrF);
    std::cout.rdbuf(console);
    Logger::SetOutputLevel(0u);
    for (int fd = 3; fd < 256; fd++) {
      char target[4096];
      const std::string link = "/proc/self/fd/" + std::to_string(fd);
      const ssize_t n = readlink(link.c_str(), target, sizeof target);
      for (int k = 0; n > 0 && k < 3; k++)
        if (std::string(target, static_cast<size_t>(n)) == scratch + "/" + kFiles[k]) path[k] = link;
    }
    for (auto f : kFiles) unlink((scratch + "/" + f).c_str());
    if (chdir(before)) _exit(3);
    rmdir(scratch.c_str());
  }
  /// what was written since the last call
  std::string added(size_t k) {
    std::ifstream in(path[k], std::ios::binary);
    in.seekg(seen[k]);
    std::string r((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    seen[k] += static_cast<std::streamoff>(r.size());
    return r;
  }
};
/// Every message has a line of its own, those of a thread in their order (with
/// logging compiled in the library writes further messages)
void check_lines(const std::string& all, const vector<vector<Message>>& want, const std::string& where) {
  std::map<std::string, long> rejected;  // text, number
  vector<vector<std::string>> own(want.size());
  for (size_t i = 0; i < want.size(); i++)
    for (auto& m : want[i]) {
      if (m.kind == 5) rejected[m.text]++;
      else own[i].push_back(m.text);
    }
  vector<size_t> next(want.size(), 0);
  size_t count = 0;
  for (size_t begin = 0; begin < all.size(); count++) {
    const size_t end = all.find('\n', begin);
    PBT_CHECK(end != std::string::npos, where, " ends within a line");
    const std::string line = all.substr(begin, end - begin);
    begin = end + 1;
    const std::string what = pbt::str(where, ": line ", count + 1, ": ", line.substr(0, 200));
    size_t known = 0;
    for (size_t i = 0; i < want.size(); i++)
      if (next[i] < own[i].size() && line.find(own[i][next[i]]) != std::string::npos) {
        known++;
        next[i]++;
      }
    PBT_CHECK(known < 2, what, " has messages of two threads");
    PBT_CHECK(known || line.find("<own ") == std::string::npos, what, " is not the next message of a thread");
    const std::string* text = nullptr;
    for (auto& [t, n] : rejected)
      if (line.find(t) != std::string::npos && (!text || t.size() > text->size())) text = &t;
    if (text) {
      PBT_CHECK(!known, what, " has messages of two threads");
      PBT_CHECK(rejected[*text]-- > 0, what, " was not raised that often");
      known = 1;
    }
    PBT_CHECK(known || kLogging, what, " is no message of any thread");
  }
  for (size_t i = 0; i < want.size(); i++)
    PBT_CHECK(next[i] == own[i].size(), where, " lacks the message ", own[i][next[i]]);
  for (auto& [t, n] : rejected) PBT_CHECK(n == 0, where, " lacks ", n, " times: ", t);
}
/// Output level and console during the concurrent part
struct Console {
  std::ostringstream text;
  std::streambuf* old;
  explicit Console(unsigned level) : old(std::cout.rdbuf(text.rdbuf())) { Logger::SetOutputLevel(level); }
  ~Console() {
    Logger::SetOutputLevel(0u);
    std::cout.rdbuf(old);
  }
};
}  // namespace

void property(Case& c) {
  static LogFiles files;
  quiet();
  vector<std::unique_ptr<Shared>> splines;
  for (size_t n = 1 + c.draw(3); n-- > 0;) splines.push_back(shared_spline(c, splines.size()));
  // programs of the threads: operations may be shared
  vector<Operation> operations;
  const size_t nthreads = 2 + c.draw(3);
  vector<vector<size_t>> programs(nthreads);
  bool shared = false;
  for (auto& p : programs)
    for (size_t n = 2 + c.draw(9); n-- > 0;) {
      if (!operations.empty() && c.chance(1, 3)) {
        p.push_back(c.draw(operations.size()));
        shared = true;
        continue;
      }
      if (c.chance(1, 6)) {
        const unsigned kind = static_cast<unsigned>(c.draw(5));
        operations.push_back({pbt::str("message ", kKinds[kind]), [kind]() {
                                if (!sender) return Result{};
                                const std::string text = pbt::str("<own ", kKinds[kind], " ", sender->thread, "/",
                                                                  sender->messages.size(), ">");
                                raise(kind, text);
                                sender->messages.push_back({kind, text});
                                return Result{};
                              }});
        c.label("message");
        p.push_back(operations.size() - 1);
        continue;
      }
      const size_t k = c.draw(splines.size() + 1);
      operations.push_back(k < splines.size() ? splines[k]->operation(c, k) : helper(c));
      const std::string& w = operations.back().what;
      c.label(w.substr(0, w.find(" of spline")));
      p.push_back(operations.size() - 1);
    }
  for (size_t i = 0; i < nthreads; i++) {
    std::string w;
    for (auto o : programs[i]) w += "; " + operations[o].what;
    c.note("thread ", i, w);
  }
  c.label(pbt::str(nthreads, " threads"));
  if (shared) c.nontrivial();
  const size_t rounds = 1 + c.draw(4);
  vector<vector<Result>> got(nthreads);
  std::atomic<size_t> ready{0};
  vector<Sender> senders(nthreads);
  const unsigned level = !c.chance(2, 3) ? 0u : c.chance(1, 4) ? 39u : static_cast<unsigned>(c.draw(512));
  c.note("output level ", level);
  const auto body = [&](size_t i) {
    vector<std::string> texts;
    sender = &senders[i];
    sender->thread = i;
    Hooks::rejected = &texts;
    ready++;
    while (ready < nthreads) std::this_thread::yield();
    for (size_t r = 0; r < rounds; r++)
      for (auto o : programs[i]) {
        got[i].push_back(operations[o].run());
        for (auto& x : texts) sender->messages.push_back({5, x});
        texts.clear();
      }
    Hooks::rejected = nullptr;
    sender = nullptr;
  };
  {
    const Console console(level);
    vector<std::thread> threads;
    for (size_t i = 0; i < nthreads; i++) threads.emplace_back(body, i);
    for (auto& x : threads) x.join();
    const auto expected = [&](auto selected) {
      vector<vector<Message>> r(nthreads);
      for (size_t i = 0; i < nthreads; i++)
        for (auto& m : senders[i].messages)
          if (selected(m)) r[i].push_back(m);
      return r;
    };
    check_lines(console.text.str(), expected([&](const Message& m) { return m.on_console(level); }), "the console");
    if (kLogging) {
      Logger::SetOutputLevel(0u);
      try {
        Logger::TerminatingError("");
      } catch (const std::runtime_error&) {
        // now everything is in the files
      }
      for (size_t k = 0; k < 3; k++)
        check_lines(files.added(k), expected([&](const Message& m) { return m.in_file(level, k); }), kFiles[k]);
    }
  }
  // one after the other
  vector<Result> want;
  for (auto& o : operations) want.push_back(o.run());
  for (size_t i = 0; i < nthreads; i++)
    for (size_t k = 0; k < got[i].size(); k++) {
      const size_t o = programs[i][k % programs[i].size()];
      PBT_CHECK(bitwise(got[i][k], want[o]), "thread ", i, ": ", operations[o].what,
                " has another result than without other threads");
    }
  for (size_t k = 0; k < splines.size(); k++) splines[k]->check(pbt::str("shared spline ", k));
}
