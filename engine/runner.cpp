// Runner of the property-based testing engine, see pbt.hpp
#include "pbt.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  pbt::Case c(data, size);
  std::string m;
  if (pbt::run_case(c, &m) == pbt::kFail) {
    std::cerr << "PROPERTY FAILED: " << m << std::endl;
    __builtin_trap();
  }
  return 0;
}
#else
namespace pbt {

struct Shared {
  volatile uint64_t current;  // case in execution + 1
  volatile int hang;
  volatile uint64_t done;
};

inline Shared*& shared() {
  static Shared* s = nullptr;
  return s;
}
inline void on_prof(int) {
  shared()->hang = 1;
  _exit(97);
}
inline void arm(double cpu_seconds) {
  itimerval t{};
  t.it_value.tv_sec = static_cast<long>(cpu_seconds);
  t.it_value.tv_usec =
      static_cast<long>((cpu_seconds - t.it_value.tv_sec) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

struct Options {
  uint64_t seed{1}, cases{1000};
  int workers{4};
  double hang{10};
  double wall{450};
  std::string out{"."}, replay, bytes;
  uint64_t prefix_worker{}, prefix_count{};
};

inline uint64_t case_seed(const Options& o, uint64_t k) {
  return mix(mix(o.seed * 0x100000001b3ull + 0x1234567) ^ mix(k + 77));
}

inline void limit_memory() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  rlimit r{4ull << 30, 4ull << 30};
  setrlimit(RLIMIT_AS, &r);
#endif
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

/// Runs f in a child; stdout/stderr go to errfile; returns the wait status
inline int in_child(const std::string& errfile, double hang,
                    const std::function<int()>& f) {
  fflush(nullptr);
  std::cout.flush();
  shared()->hang = 0;
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    limit_memory();
    signal(SIGPROF, on_prof);
    arm(hang);
    const int rc = f();
    std::cout.flush();
    fflush(nullptr);
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  return st;
}

inline std::string slurp(const std::string& p, size_t max = 6000) {
  std::ifstream i(p);
  std::string s((std::istreambuf_iterator<char>(i)),
                std::istreambuf_iterator<char>());
  if (s.size() > max) s = s.substr(0, max);
  return s;
}

inline std::string describe_status(int st, bool hang) {
  if (hang) return "no result within the CPU time limit (non-termination)";
  if (WIFSIGNALED(st))
    return str("terminated by signal ", WTERMSIG(st), " (",
               strsignal(WTERMSIG(st)), ")");
  return str("terminated with exit status ", WEXITSTATUS(st),
             " (sanitizer report or abort)");
}

/// Executes one choice sequence in a child. Returns true if it fails.
inline bool attempt(const Options& o, const std::vector<uint64_t>& choices,
                    std::string* message = nullptr,
                    std::string* description = nullptr) {
  const std::string ef = o.out + "/attempt.txt", mf = o.out + "/attempt.msg",
                    df = o.out + "/attempt.desc";
  unlink(mf.c_str());
  unlink(df.c_str());
  const int st = in_child(ef, 3 * o.hang, [&]() {
    Case c(choices);
    c.verbose = description != nullptr;
    std::string m;
    const Outcome r = run_case(c, &m);
    if (description) std::ofstream(df) << c.log.str();
    if (r == kFail) std::ofstream(mf) << m;
    return static_cast<int>(r);
  });
  const bool hang = shared()->hang;
  const bool failed =
      hang || WIFSIGNALED(st) ||
      (WEXITSTATUS(st) != kPass && WEXITSTATUS(st) != kDiscard);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;  // environment
  if (failed && message) {
    *message = slurp(mf);
    if (message->empty())
      *message = describe_status(st, hang) + "\n" + slurp(ef, 3000);
  }
  if (description) *description = slurp(df, 20000);
  return failed;
}

/// The choices a case makes, even if it crashes (executed in a child)
inline std::vector<uint64_t> record(
    const Options& o, const std::function<void(volatile uint64_t*)>& f) {
  const size_t bytes = (Case::kMaxChoices + 8) * sizeof(uint64_t);
  auto* trace = static_cast<volatile uint64_t*>(
      mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
           -1, 0));
  in_child(o.out + "/record.txt", 3 * o.hang, [&]() {
    f(trace);
    return 0;
  });
  std::vector<uint64_t> r(trace[0]);
  for (size_t i = 0; i < r.size(); i++) r[i] = trace[1 + i];
  munmap(const_cast<uint64_t*>(trace), bytes);
  return r;
}

inline std::vector<uint64_t> shrink(const Options& o,
                                    std::vector<uint64_t> best, bool hang) {
  int budget = hang ? 8 : 2500;
  Options so = o;
  if (hang) so.hang = o.hang / 3;
  timeval t0;
  gettimeofday(&t0, nullptr);
  auto out_of_budget = [&]() {
    timeval t;
    gettimeofday(&t, nullptr);
    return budget <= 0 || t.tv_sec - t0.tv_sec > 40;
  };
  auto ok = [&](const std::vector<uint64_t>& cand) {
    if (cand == best || out_of_budget()) return false;
    budget--;
    return attempt(so, cand);
  };
  auto zero_block = [&](size_t i, size_t len) {
    auto c = best;
    bool any = false;
    for (size_t j = i; j < i + len && j < c.size(); j++) {
      any |= c[j] != 0;
      c[j] = 0;
    }
    if (!any || !ok(c)) return false;
    best = c;
    return true;
  };
  bool progress = true;
  while (progress && !out_of_budget()) {
    progress = false;
    // cut off the end, zero large blocks, delete blocks, zero small blocks
    for (size_t keep = best.size() / 2; keep >= 1 && !out_of_budget();) {
      auto c = best;
      c.resize(std::min(c.size(), keep));
      if (ok(c)) {
        best = c;
        progress = true;
        keep = best.size() / 2;
      } else {
        keep += std::max<size_t>(1, (best.size() - keep) / 2);
        if (keep >= best.size()) break;
      }
    }
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 8; len /= 2)
      for (size_t i = 0; i < best.size() && !out_of_budget(); i += len)
        progress |= zero_block(i, len);
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1;
         len /= 2) {
      for (size_t i = best.size(); i-- > 0 && !out_of_budget();) {
        if (i + len > best.size()) continue;
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (ok(c)) {
          best = c;
          progress = true;
          if (i > best.size()) i = best.size();
        } else if (len > 2) {
          i -= std::min(i, len - 1);
        }
      }
    }
    for (size_t len : {8, 3, 1})
      for (size_t i = 0; i < best.size() && !out_of_budget(); i++)
        progress |= zero_block(i, len);
    for (size_t i = 0; i < best.size() && !out_of_budget(); i++) {
      uint64_t lo = 0;  // does not fail
      while (lo + 1 < best[i] && !out_of_budget()) {
        auto c = best;
        c[i] = lo + (best[i] - lo) / 2;
        if (ok(c)) {
          best = c;
          progress = true;
        } else {
          lo = c[i];
        }
      }
    }
  }
  return best;
}

inline void write_replay(const std::string& path, const Options& o,
                         const std::vector<uint64_t>& ch, const std::string& m,
                         const std::string& d) {
  std::ofstream f(path);
  f << "choices";
  for (auto x : ch) f << " " << x;
  f << "\n# seed " << o.seed << "\n";
  std::istringstream im("FAILURE: " + m + "\n\nCASE:\n" + d);
  for (std::string l; std::getline(im, l);) f << "# " << l << "\n";
}

inline int run_prefix(const Options& o, uint64_t worker, uint64_t last,
                      const std::string& mf) {
  for (uint64_t k = worker; k <= last; k += o.workers) {
    arm(o.hang * 3);
    Case c(case_seed(o, k));
    std::string m;
    if (run_case(c, &m) == kFail) {
      std::ofstream(mf) << "case " << k << ": " << m;
      return kFail;
    }
  }
  return kPass;
}

inline void usage() {
  std::cerr << "--seed S --cases N --workers W --out DIR | --replay FILE\n";
  exit(2);
}

inline int run_main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc) usage();
      return argv[++i];
    };
    if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--hang") o.hang = atof(val().c_str());
    else if (a == "--wall") o.wall = atof(val().c_str());
    else if (a == "--replay") o.replay = val();
    else if (a == "--bytes") o.bytes = val();
    else usage();
  }
  mkdir(o.out.c_str(), 0755);
  shared() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * 65,
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  Shared* slots = shared() + 1;

  std::vector<uint64_t> failing;
  bool have_failure = false;
  int rc = 0;
  std::ostringstream result;
  uint64_t evaluations = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<uint64_t> sample_cases;
  std::string unreproduced;

  if (!o.replay.empty()) {
    std::ifstream f(o.replay);
    std::string kind;
    f >> kind;
    if (kind == "prefix") {
      uint64_t w, last;
      f >> o.seed >> o.workers >> w >> last;
      const std::string mf = o.out + "/prefix.msg";
      unlink(mf.c_str());
      const int st = in_child(o.out + "/prefix.txt", 3 * o.hang, [&]() {
        return run_prefix(o, w, last, mf);
      });
      const bool failed = shared()->hang || WIFSIGNALED(st) ||
                          WEXITSTATUS(st) != kPass;
      std::cout << (failed ? "REPLAY FAILS\n" : "REPLAY PASSES\n")
                << slurp(mf) << slurp(o.out + "/prefix.txt") << "\n";
      return failed ? 1 : 0;
    }
    std::vector<uint64_t> ch;
    std::string line;
    std::getline(f, line);
    std::istringstream is(line);
    for (uint64_t x; is >> x;) ch.push_back(x);
    std::string m, d;
    const bool failed = attempt(o, ch, &m, &d);
    std::cout << d << (failed ? "REPLAY FAILS: " : "REPLAY PASSES") << m
              << "\n";
    return failed ? 1 : 0;
  }
  std::string prefix_replay, prefix_message;
  if (!o.bytes.empty()) {
    std::ifstream f(o.bytes, std::ios::binary);
    const std::string s((std::istreambuf_iterator<char>(f)),
                        std::istreambuf_iterator<char>());
    failing = record(o, [&](volatile uint64_t* trace) {
      Case c(reinterpret_cast<const uint8_t*>(s.data()), s.size());
      c.trace = trace;
      run_case(c, nullptr);
    });
    have_failure = attempt(o, failing);
  } else {
    std::vector<pid_t> pids(o.workers);
    for (int w = 0; w < o.workers; w++) {
      fflush(nullptr);
      std::cout.flush();
      const pid_t pid = fork();
      if (pid == 0) {
        const std::string base = o.out + "/w" + std::to_string(w);
        const int fd =
            open((base + ".txt").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        limit_memory();
        shared() = &slots[w];
        signal(SIGPROF, on_prof);
        uint64_t ev = 0, di = 0, nt = 0;
        std::map<std::string, uint64_t> lab;
        std::unordered_set<uint64_t> hs;
        std::vector<uint64_t> sm;
        int code = 0;
        std::string m;
        const time_t start = time(nullptr);
        for (uint64_t k = w; k < o.cases; k += o.workers) {
          if (difftime(time(nullptr), start) > o.wall) break;
          shared()->current = k + 1;
          arm(o.hang);
          Case c(case_seed(o, k));
          const Outcome r = run_case(c, &m);
          ev++;
          if (r == kDiscard) di++;
          for (auto& l : c.labels) lab[l]++;
          if (r == kPass && c.is_nontrivial) {
            nt++;
            uint64_t h = 1469598103934665603ull;
            for (auto x : c.choices) h = mix(h ^ x);
            hs.insert(h);
            if (sm.size() < 2 && c.choices.size() < 120)
              sm.push_back(k);
            else if (sm.empty() && ev > 200)
              sm.push_back(k);
          }
          if (r == kFail) {
            code = kFail;
            break;
          }
        }
        arm(0);
        std::ofstream f(base + ".res");
        f << ev << " " << di << " " << nt << " " << lab.size() << "\n";
        for (auto& l : lab) f << l.second << " " << l.first << "\n";
        f << sm.size();
        for (auto s : sm) f << " " << s;
        f << "\n" << hs.size();
        for (auto h : hs) f << " " << h;
        f << "\n";
        f.close();
        if (code == kFail) std::ofstream(base + ".msg") << m;
        _exit(code);
      }
      pids[w] = pid;
    }
    int running = o.workers;
    std::vector<std::pair<uint64_t, int>> failed;  // case, worker
    std::map<int, std::string> status_of;
    bool stop = false;
    while (running > 0) {
      int st = 0;
      const pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) {
        if (errno == EINTR) continue;
        break;
      }
      for (int w = 0; w < o.workers; w++)
        if (pids[w] == pid) {
          running--;
          pids[w] = 0;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && stop) continue;
          if (st != 0) {
            failed.emplace_back(slots[w].current - 1, w);
            status_of[w] = describe_status(st, slots[w].hang);
          }
        }
      if (!failed.empty() && !stop) {
        stop = true;
        for (int w = 0; w < o.workers; w++)
          if (pids[w]) kill(pids[w], SIGKILL);
      }
    }
    for (int w = 0; w < o.workers; w++) {
      std::ifstream f(o.out + "/w" + std::to_string(w) + ".res");
      uint64_t ev, di, nt, nl, n;
      if (!(f >> ev >> di >> nt >> nl)) continue;
      evaluations += ev;
      discards += di;
      nontrivial += nt;
      for (uint64_t i = 0; i < nl; i++) {
        uint64_t k;
        std::string l;
        f >> k;
        std::getline(f, l);
        labels[l.substr(1)] += k;
      }
      f >> n;
      for (uint64_t i = 0, s; i < n && f >> s; i++) sample_cases.push_back(s);
      f >> n;
      for (uint64_t i = 0, h; i < n && f >> h; i++) hashes.insert(h);
    }
    std::sort(failed.begin(), failed.end());
    for (auto& fw : failed) {
      failing = record(o, [&](volatile uint64_t* trace) {
        Case c(case_seed(o, fw.first));
        c.trace = trace;
        run_case(c, nullptr);
      });
      if (!failing.empty() && attempt(o, failing)) {
        have_failure = true;
        break;
      }
      // State carried over between cases: replay the history of this worker
      const std::string mf = o.out + "/prefix.msg";
      int reproduced = 0;
      for (int rep = 0; rep < 3; rep++) {
        unlink(mf.c_str());
        const int st = in_child(o.out + "/prefix.txt", 3 * o.hang, [&]() {
          return run_prefix(o, fw.second, fw.first, mf);
        });
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) break;
        if (shared()->hang || WIFSIGNALED(st) || WEXITSTATUS(st) != kPass)
          reproduced++;
      }
      if (reproduced == 3) {
        prefix_replay = str("prefix ", o.seed, " ", o.workers, " ", fw.second,
                            " ", fw.first, "\n");
        prefix_message = slurp(mf) + status_of[fw.second] + "\n" +
                         slurp(o.out + "/prefix.txt", 3000);
        break;
      }
      unreproduced += str("case ", fw.first, ": ", status_of[fw.second], " ",
                          slurp(o.out + "/w" + std::to_string(fw.second) +
                                    ".msg", 300), "; ");
    }
  }
  std::string message, description;
  if (have_failure) {
    const bool hang = shared()->hang;
    failing = shrink(o, failing, hang);
    for (int i = 0; i < (hang ? 1 : 3); i++)
      attempt(o, failing, &message, &description);
    write_replay(o.out + "/replay.txt", o, failing, message, description);
    rc = 1;
  } else if (!prefix_replay.empty()) {
    std::ofstream f(o.out + "/replay.txt");
    f << prefix_replay;
    message = "fails only after the preceding cases of the same process "
              "(state carried over between calls): " + prefix_message;
    std::istringstream im(message);
    for (std::string l; std::getline(im, l);) f << "# " << l << "\n";
    rc = 1;
  }
  // Describe some samples
  std::vector<std::string> samples;
  std::sort(sample_cases.begin(), sample_cases.end());
  for (auto k : sample_cases) {
    if (samples.size() >= 3 || rc) break;
    const std::string df = o.out + "/sample.txt";
    unlink(df.c_str());
    in_child(o.out + "/sample.err", 3 * o.hang, [&]() {
      Case c(case_seed(o, k));
      c.verbose = true;
      run_case(c, nullptr);
      std::ofstream(df) << c.log.str();
      return 0;
    });
    samples.push_back(str("case ", k, ":\n") + slurp(df, 4000));
  }
  std::ofstream f(o.out + "/result.json");
  f << "{\"evaluations\":" << evaluations << ",\"discards\":" << discards
    << ",\"nontrivial\":" << nontrivial
    << ",\"distinct_nontrivial\":" << hashes.size() << ",\"rule\":"
    << jstr(kRule) << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) {
    f << (first ? "" : ",") << jstr(l.first) << ":" << l.second;
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    f << (first ? "" : ",") << jstr(s);
    first = false;
  }
  f << "],\"failed\":" << (rc ? "true" : "false") << ",\"message\":"
    << jstr(message) << ",\"unreproduced\":" << jstr(unreproduced) << "}\n";
  f.close();
  if (rc) std::cout << message << "\n";
  return rc;
}
}  // namespace pbt

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
