// C22: the logger.  Every case runs in a child process of its own (the logger is
// a process-wide singleton) inside a scratch directory of this check.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <iterator>
#include <regex>

#include "bezman/src/utils/logger.hpp"
#include "pbt.hpp"
using bezman::utils::Logger;
using pbt::Case;

const char* const kRule =
    "a program of 1-30, sometimes up to 530 steps (level changes by mask or list, the five kinds of "
    "message, terminating errors of six exception types; texts with line "
    "breaks, escapes, any byte, up to 100000 characters; a simulated clock), executed in a fresh "
    "process that ends by exit, by return from a terminating error or by "
    "_exit right after one; console and the three files are compared with the "
    "expected message sequences; non-trivial: at least 2 messages of different "
    "kinds and a level change between messages";

#ifdef ENABLE_LOGGING
static constexpr bool kLogging = true;
#else
static constexpr bool kLogging = false;
#endif

/// Stand-in for the system clock: the program under test sees the time passing
/// between its steps (0: the real time)
static time_t simulated_time = 0;
extern "C" time_t time(time_t* t) noexcept {
  timespec now{};
  if (!simulated_time) clock_gettime(CLOCK_REALTIME, &now);
  const time_t r = simulated_time ? simulated_time : now.tv_sec;
  if (t) *t = r;
  return r;
}

namespace {
enum { kUser = 1, kErr = 2, kWarn = 4, kLog = 8, kExt = 16, kTime = 32, kWarnF = 64, kErrF = 128, kLogF = 256 };
enum Op { kSetMask, kSetList, kUserInfo, kLogging_, kExtended, kWarning, kError, kTerminating };
struct Step {
  int op;
  unsigned mask{};
  std::vector<unsigned> list;
  std::string text;
  int exception{};
  time_t at{};
};
std::string scratch() {
  static std::string d;
  static pid_t owner = 0;
  if (owner != getpid()) {
    char t[] = "logger-XXXXXX";
    if (!mkdtemp(t)) pbt::fail("no scratch directory");
    char cwd[4096];
    d = std::string(getcwd(cwd, sizeof cwd)) + "/" + t;
    owner = getpid();
  }
  return d;
}
const char* const kFiles[] = {"console", "log_file.log", "warning_file.log", "error_file.log", "report"};

struct OwnError : std::domain_error {
  std::vector<std::string> kept;
  explicit OwnError(const std::string& s) : std::domain_error(s), kept(3, s) {}
};
template <class E>
std::string terminate_with(const std::string& text) {
  try {
    Logger::TerminatingError<E>(text);
  } catch (const std::exception& e) {
    if (typeid(e) != typeid(E)) return std::string("throws the type ") + typeid(e).name();
    if (text != e.what()) return std::string("throws the text ") + e.what();
    if constexpr (std::is_same_v<E, OwnError>) {
      const auto* o = dynamic_cast<const OwnError*>(&e);
      if (!o || o->kept != std::vector<std::string>(3, text)) return "throws a damaged exception";
    }
    return "";
  } catch (...) {
    return "throws something else";
  }
  return "does not throw";
}
std::string terminate_default(const std::string& text) {
  try {
    Logger::TerminatingError(text);
  } catch (const std::exception& e) {
    if (typeid(e) != typeid(std::runtime_error)) return std::string("throws the type ") + typeid(e).name();
    if (text != e.what()) return std::string("throws the text ") + e.what();
    return "";
  }
  return "does not throw";
}
void report(const std::string& s) {
  const int fd = open("report", O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (write(fd, s.data(), s.size()) < 0) _exit(3);
  close(fd);
}
using L = Logger::OutputLevel;
void set_list(const std::vector<unsigned>& l) {
  const auto o = [&](size_t i) { return static_cast<L>(l[i]); };
  switch (l.size()) {
    case 0:
      return Logger::SetOutputLevel(std::initializer_list<L>{});
    case 1:
      return Logger::SetOutputLevel({o(0)});
    case 2:
      return Logger::SetOutputLevel({o(0), o(1)});
    case 3:
      return Logger::SetOutputLevel({o(0), o(1), o(2)});
    case 4:
      return Logger::SetOutputLevel({o(0), o(1), o(2), o(3)});
    default:
      return Logger::SetOutputLevel({o(0), o(1), o(2), o(3), o(4), o(5)});
  }
}
[[noreturn]] void child(const std::vector<Step>& steps, bool hard_end) {
  for (size_t i = 0; i < steps.size(); i++) {
    const auto& s = steps[i];
    std::string e;
    simulated_time = s.at;
    switch (s.op) {
      case kSetMask:
        Logger::SetOutputLevel(s.mask);
        break;
      case kSetList:
        set_list(s.list);
        break;
      case kUserInfo:
        Logger::UserInfo(s.text);
        break;
      case kLogging_:
        Logger::Logging(s.text);
        break;
      case kExtended:
        Logger::ExtendedInformation(s.text);
        break;
      case kWarning:
        Logger::Warning(s.text);
        break;
      case kError:
        Logger::Error(s.text);
        break;
      default:
        switch (s.exception) {
          case 0:
            e = terminate_default(s.text);
            break;
          case 1:
            e = terminate_with<std::runtime_error>(s.text);
            break;
          case 2:
            e = terminate_with<std::logic_error>(s.text);
            break;
          case 3:
            e = terminate_with<std::invalid_argument>(s.text);
            break;
          case 4:
            e = terminate_with<OwnError>(s.text);
            break;
          default:
            e = terminate_with<std::out_of_range>(s.text);
        }
        if (!e.empty()) report("step " + std::to_string(i) + " " + e.substr(0, 300) + "\n");
    }
  }
  simulated_time = 0;
  report("end\n");
  std::cout.flush();
  if (hard_end) _exit(0);
  exit(0);
}
std::string slurp(const std::string& p) {
  std::ifstream i(p, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
std::string printable(const std::string& s) {
  std::string r;
  for (unsigned char ch : s.substr(0, 60))
    if (ch < 32 || ch > 126)
      r += "\\" + std::to_string(ch);
    else
      r += static_cast<char>(ch);
  return r + (s.size() > 60 ? pbt::str("... (", s.size(), " characters)") : "");
}
/// seconds of the day of the time stamp in s (hours:minutes:seconds), or -1
long time_in(const std::string& s) {
  for (size_t i = 0; i + 8 <= s.size(); i++) {
    bool ok = true;
    for (size_t k = 0; k < 8 && ok; k++)
      ok = k % 3 == 2 ? s[i + k] == ':' : s[i + k] >= '0' && s[i + k] <= '9';
    const auto two = [&](size_t k) { return (s[i + k] - '0') * 10 + s[i + k + 1] - '0'; };
    if (ok) return two(0) * 3600 + two(3) * 60 + two(6);
  }
  return -1;
}
long second_of_day(time_t t) {
  tm b{};
  localtime_r(&t, &b);
  return b.tm_hour * 3600 + b.tm_min * 60 + b.tm_sec;
}
}  // namespace

void property(Case& c) {
  static const char* const names[] = {"SetOutputLevel(mask)", "SetOutputLevel(list)", "UserInfo", "Logging",
                                      "ExtendedInformation", "Warning", "Error", "TerminatingError"};
  std::vector<Step> steps;
  struct Expected {
    size_t step;
    bool time;
  };
  std::vector<Expected> expected[4];  // console, log, warning, error
  unsigned level = 39;                // documented default
  unsigned ever = 0;                  // all levels together
  const bool many = c.chance(1, 25);
  const size_t n = many ? 31 + c.draw(500) : 1 + c.draw(30);
  if (many) c.label("many messages");
  const bool start_level = c.chance(1, 2);
  std::set<int> kinds;
  bool changed_between = false, changed = false;
  // seconds passed when a step takes place, half a year at most
  const bool clock = c.chance(2, 3);
  time_t passed = 0;
  for (size_t i = 0; i < n; i++) {
    Step s;
    if (clock && c.chance(1, 2))
      passed += static_cast<time_t>(1 + (c.chance(1, 2) ? c.draw(3) : c.chance(1, 2) ? c.draw(100) : c.draw(30000)));
    s.at = passed;
    s.op = i == 0 && start_level ? static_cast<int>(c.draw(2))
                                 : static_cast<int>(c.chance(1, 4) ? c.draw(2) : 2 + c.draw(6));
    if (s.op == kSetMask) {
      switch (c.draw(4)) {
        case 0:
          s.mask = 511;
          break;
        case 1:
          s.mask = 1u << c.draw(9);
          break;
        default:
          s.mask = static_cast<unsigned>(c.draw(512));
      }
      level = s.mask;
    } else if (s.op == kSetList) {
      static const size_t sizes[] = {1, 2, 3, 4, 6, 0};
      s.list.resize(sizes[c.draw(6)]);
      level = 0;
      for (auto& x : s.list) {
        const auto k = c.draw(12);
        x = k == 10 ? 511 : k == 9 ? 0 : k == 11 ? (s.list[0] ? s.list[0] : 1) : 1u << k;
        level |= x;
      }
    } else {
      kinds.insert(s.op);
      changed_between = changed_between || (changed && kinds.size() > 1);
      std::string payload;
      size_t len = 0;
      switch (c.draw(8)) {
        case 0:
          len = 0;
          break;
        case 7:
          len = many ? 1000 : 1000 + c.draw(c.chance(1, 6) ? 100000 : 20000);
          break;
        default:
          len = c.draw(40);
      }
      const size_t alphabet = c.draw(3);
      // long texts repeat a drawn block
      const size_t block = std::min<size_t>(len, 50);
      for (size_t k = 0; k < block; k++) {
        char ch = alphabet == 0   ? static_cast<char>('a' + c.draw(26))
                  : alphabet == 1 ? "\n\t\r %\\\"[]:{}\033m0;"[c.draw(16)]
                                  : static_cast<char>(1 + c.draw(255));
        if (ch == '<') ch = '>';
        payload += ch;
      }
      while (payload.size() < len) payload += payload.substr(0, std::min(block, len - payload.size()));
      if (len >= 1000) c.label("long text");
      const std::string id = std::to_string(i);
      s.text = "<<<#" + id + "|" + payload + "|" + id + "#>>>";
      s.exception = static_cast<int>(c.draw(6));
      // nothing is written: any text, also the empty one
      if (s.op == kTerminating && !(level & (kErr | kErrF))) s.text = payload;
      const bool t = level & kTime;
      const auto to = [&](int dest) { expected[dest].push_back({i, t}); };
      const auto bit = [&](unsigned b) { return (level & b) != 0; };
      const bool console = s.op == kUserInfo    ? bit(kUser)
                           : s.op == kLogging_  ? bit(kLog)
                           : s.op == kExtended  ? bit(kExt)
                           : s.op == kWarning   ? bit(kWarn)
                                                : bit(kErr);
      if (console && (kLogging || s.op == kTerminating)) to(0);
      if (kLogging) {
        if (s.op == kUserInfo || s.op == kLogging_ || s.op == kExtended) {
          if (bit(kLogF)) to(1);
        } else if (s.op == kWarning) {
          if (bit(kWarnF)) to(2);
        } else if (bit(kErrF))
          to(3);
      }
    }
    if (s.op <= kSetList) ever |= level;
    if (s.op <= kSetList) changed = changed || !kinds.empty();
    if (c.verbose)
      c.note(i, " (", s.at, " s): ", names[s.op], s.op == kSetMask ? pbt::str(" ", s.mask) : "",
             s.op == kSetList ? pbt::str(" of ", s.list.size(), " (together ", level, ")") : "",
             s.op == kTerminating ? pbt::str(" <exception ", s.exception, ">") : "", " ", printable(s.text));
    steps.push_back(s);
  }
  // the process may only end without destructors if nothing is pending, i.e.
  // right after a terminating error
  const bool hard = steps.back().op == kTerminating && c.chance(1, 2);
  if (hard) c.label("ends at once after a terminating error");
  c.note("process ends by ", hard ? "_exit" : "exit");
  if (kinds.count(kTerminating)) c.label("terminating error");
  for (int d = 0; d < 4; d++)
    if (expected[d].size() > 1) c.label(std::string("several messages in ") + kFiles[d]);
  if (changed_between) c.nontrivial();

  const std::string dir = scratch();
  for (auto f : kFiles) unlink((dir + "/" + f).c_str());
  // files of an earlier process
  const std::string earlier = "messages of an earlier process\n";
  const bool old_files = c.chance(1, 3);
  if (old_files) {
    c.label("files of an earlier process");
    for (int d = 1; d < 4; d++) std::ofstream(dir + "/" + kFiles[d]) << earlier;
  }
  std::cout.flush();
  fflush(nullptr);
  const time_t started = time(nullptr);
  if (clock) {
    c.label("simulated clock");
    // some hours off, so that the real time cannot be confused with it
    for (auto& s : steps) s.at += started + 5 * 3600;
  }
  const pid_t pid = fork();
  if (pid < 0) throw pbt::Discard{};
  if (pid == 0) {
    if (chdir(dir.c_str())) _exit(3);
    const int fd = open("console", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    child(steps, hard);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  const time_t ended = time(nullptr);
  const std::string got = slurp(dir + "/report"), console = slurp(dir + "/console");
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with wait status ", st, ": ",
            console.substr(console.size() > 3000 ? console.size() - 3000 : 0));
  PBT_CHECK(got == "end\n", got);
  for (int d = 0; d < 4; d++) {
    if (d && !(kLogging && (ever & (d == 1 ? kLogF : d == 2 ? kWarnF : kErrF)))) {
      const std::string name = dir + "/" + kFiles[d];
      PBT_CHECK(old_files ? slurp(name) == earlier : access(name.c_str(), F_OK) != 0, kFiles[d],
                " was never selected but ", old_files ? "changed" : "was created");
      continue;
    }
    const std::string all = d ? slurp(dir + "/" + kFiles[d]) : console;
    size_t pos = 0;
    for (const auto& e : expected[d]) {
      const auto& text = steps[e.step].text;
      const size_t at = all.find('<', pos);
      PBT_CHECK(at != std::string::npos, kFiles[d], ": message of step ", e.step, " (",
                names[steps[e.step].op], ") is missing");
      PBT_CHECK(all.compare(at, text.size(), text) == 0, kFiles[d], ": ", printable(all.substr(at)),
                " appears where the message of step ", e.step, " (", names[steps[e.step].op], ": ",
                printable(text), ") should");
      const long stamp = time_in(all.substr(pos, at - pos));
      const bool time = stamp >= 0;
      PBT_CHECK(time == e.time, kFiles[d], ": message of step ", e.step, time ? " has an unselected" : " has no",
                " time stamp: ", printable(all.substr(pos, at - pos)));
      if (time) {
        // between start and end of the process (which may pass midnight)
        const long first = second_of_day(started - 2), length = static_cast<long>(ended - started) + 4;
        const long offset = (stamp - first + 2 * 86400) % 86400;
        const bool simulated = clock && stamp == second_of_day(steps[e.step].at);
        PBT_CHECK(simulated || offset <= length, kFiles[d], ": message of step ", e.step, " has the wrong time stamp ",
                  printable(all.substr(pos, at - pos)));
      }
      pos = at + text.size();
    }
    PBT_CHECK(all.find('<', pos) == std::string::npos, kFiles[d], ": unselected message ",
              printable(all.substr(all.find('<', pos))));
    PBT_CHECK(kLogging || d == 0 || all.empty(), kFiles[d], " is written without logging");
    PBT_CHECK(!expected[d].empty() || d == 0 || all.empty() || all == earlier, kFiles[d], ": unselected content ", printable(all));
  }
}
