#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "absl/log/log.h"

extern "C" {
// Leaks are judged by the harnesses themselves where they matter.
const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=1:print_legend=0:symbolize=0";
}
const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
}

namespace mc {
namespace {

constexpr int kMaxChoices = 1 << 14;
constexpr size_t kMaxHashes = 4u << 20;  // per shard and per kind

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Shared {            // one per shard, in shared memory
  volatile int num;        // choices of the running execution
  volatile double started; // when the running execution began, 0 if idle
  volatile uint64_t execs;
  volatile int stop;
  unsigned short n[kMaxChoices];
  unsigned short v[kMaxChoices];
};

struct Scenario {
  std::string name;
  Body body;
  ScenarioOptions o;
};
std::vector<Scenario>& Scenarios() {
  static auto* s = new std::vector<Scenario>;
  return *s;
}

struct Choice {
  int v, n;
  const char* what;
};

struct SkipExecution {};

struct Run {  // state of one execution
  std::vector<Choice> path;
  size_t pos = 0;
  size_t diverge = 0;   // first index that differs from the previous execution
  bool pruned = false;  // ended by Seen()
  bool skipping = false;
  bool overflow = false;
  bool diverged = false;
  bool trivial = false;
  bool failed = false;
  std::string failure;
  uint64_t obs = 0;
  std::vector<std::string> notes;
};
Run* run = nullptr;
Shared* shared = nullptr;
bool tracing = false;
bool thorough = false;
bool light = false;
bool replay_mode = false;
bool skip_throws = true;
// sharding
int shard = 0, num_shards = 1, split = 0;
int64_t prefix_ordinal = -1;
bool prefix_fresh = false;

struct Stats {
  uint64_t execs = 0, skipped = 0, trivial = 0, steps = 0, choices = 0;
  uint64_t max_depth = 0;
  bool hash_capped = false;
  std::unordered_set<uint64_t> states, outcomes;
  std::unordered_map<uint64_t, int> visited;
  std::map<std::string, uint64_t> covers;
  std::vector<std::string> samples;
};
Stats stats;

void MaybeSkip() {
  // Called right after the choice number `split` was taken (pos == split).
  if (replay_mode || num_shards <= 1) return;
  if (run->diverge < static_cast<size_t>(split) || prefix_ordinal < 0) {
    if (prefix_fresh) {
      ++prefix_ordinal;
      prefix_fresh = false;
    }
  }
  if (prefix_ordinal % num_shards != shard) run->skipping = true;
}

void DefaultFatal(const char* file, int line, const std::string& msg) {
  fprintf(stderr, "FATAL %s:%d %s\n", file, line, msg.c_str());
  fflush(stderr);
  abort();
}
void ThrowFatal(const char*, int, const std::string& msg) {
  throw verif::FatalError{msg};
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

}  // namespace

int in_explorer = 1;
namespace {
struct Inside {
  Inside() { ++in_explorer; }
  ~Inside() { --in_explorer; }
};
}  // namespace

int Choose(int n, const char* what) {
  Inside inside;
  Run& r = *run;
  if (n <= 0) {
    fprintf(stderr, "mc::Choose(%d, %s): empty choice\n", n, what);
    abort();
  }
  if (n == 1) return 0;
  if (r.skipping) return 0;
  int v;
  if (r.pos < r.path.size()) {
    Choice& c = r.path[r.pos];
    if (c.n < 0) c.n = n;  // replayed from a file
    c.what = what;
    if (c.n != n || c.v >= n) {
      r.diverged = true;
      RecordFailure(__FILE__, __LINE__,
                    std::string("execution diverged while replaying the same "
                                "choices (nondeterministic behaviour) at ") + what);
      r.path.resize(r.pos);
      r.path.push_back({0, n, what});
      v = 0;
    } else {
      v = c.v;
    }
  } else {
    if (r.path.size() >= kMaxChoices) {
      r.overflow = true;
      RecordFailure(__FILE__, __LINE__, "execution exceeds the choice horizon");
      r.skipping = true;
      return 0;
    }
    r.path.push_back({0, n, what});
    v = 0;
  }
  if (shared) {
    shared->n[r.pos] = n;
    shared->v[r.pos] = v;
    shared->num = r.pos + 1;
  }
  ++r.pos;
  if (r.pos == static_cast<size_t>(split)) {
    MaybeSkip();
    if (r.skipping && skip_throws) throw SkipExecution{};
  }
  if (tracing) {
    char b[200];
    snprintf(b, sizeof b, "choose %s = %d/%d", what, v, n);
    r.notes.push_back(b);
  }
  return v;
}

bool Skipping() { return run->skipping; }
bool Replaying() { return !replay_mode && run->pos <= run->diverge; }
bool Seen(uint64_t state, int remaining) {
  Inside inside;
  if (replay_mode || run->skipping || Replaying()) return false;
  auto it = stats.visited.find(state);
  if (it != stats.visited.end() && it->second >= remaining) return run->pruned = true;
  if (stats.visited.size() < kMaxHashes) stats.visited[state] = remaining;
  else stats.hash_capped = true;
  return false;
}
uint64_t PrefixHash() {
  uint64_t h = 77;
  for (size_t i = 0; i < run->pos; ++i) h = Mix(h, run->path[i].v * 64 + 1);
  return h;
}
void State(uint64_t h) {
  Inside inside;
  if (run->skipping) return;
  if (stats.states.size() < kMaxHashes) stats.states.insert(h);
  else stats.hash_capped = true;
}
void Step(int n) { if (!run->skipping) stats.steps += n; }
void Outcome(uint64_t h) { run->obs = Mix(run->obs, h); }
void Cover(const char* tag) { Inside inside; if (!run->skipping) ++stats.covers[tag]; }
void Trivial() { run->trivial = true; }
void Note(const std::string& s) {
  Inside inside;
  if (tracing) {
    run->notes.push_back(s);
    if (getenv("MC_VERBOSE")) fprintf(stderr, "  | %s\n", s.c_str());
  }
}
bool Tracing() { return tracing; }
bool Thorough() { return thorough; }
bool Light() { return light; }
bool Failed() { return run->failed; }

void RecordFailure(const char* file, int line, const std::string& msg) {
  Inside inside;
  if (run == nullptr) {
    fprintf(stderr, "failure outside a run: %s\n", msg.c_str());
    abort();
  }
  if (run->skipping && !run->overflow) return;
  const char* base = strrchr(file, '/');
  std::ostringstream s;
  s << (base ? base + 1 : file) << ":" << line << ": " << msg;
  if (tracing) run->notes.push_back("FAILURE " + s.str());
  if (run->failed) return;
  run->failed = true;
  run->failure = s.str();
}

bool Dies(const std::function<void()>& f, std::string* msg) {
  auto old = verif::FatalHook;
  verif::FatalHook = &ThrowFatal;
  bool died = false;
  try {
    f();
  } catch (const verif::FatalError& e) {
    died = true;
    if (msg) *msg = e.message;
  }
  verif::FatalHook = old;
  return died;
}

int Register(const char* name, Body body, ScenarioOptions o) {
  Scenarios().push_back({name, body, o});
  return 0;
}

namespace {

// Executes the body once along run->path (extended with first alternatives).
void Execute(const Scenario& sc) {
  run->pos = 0;
  run->skipping = run->overflow = run->diverged = run->trivial = run->failed = false;
  run->failure.clear();
  run->obs = 0x12345;
  run->pruned = false;
  run->notes.clear();
  prefix_fresh = true;
  if (shared) {
    shared->num = 0;
    shared->started = Now();
  }
  skip_throws = !sc.o.no_skip_throw;
  in_explorer = 0;
  try {
    sc.body();
  } catch (const SkipExecution&) {
  }
  in_explorer = 1;
  if (shared) shared->started = 0;
  if (run->pos < static_cast<size_t>(split) && !replay_mode && num_shards > 1) {
    // Short execution: its own prefix.
    ++prefix_ordinal;
    if (prefix_ordinal % num_shards != shard) {
      run->skipping = true;
      run->failed = false;
    }
  }
  if (!run->failed && run->pos < run->path.size() && !run->skipping) {
    RecordFailure(__FILE__, __LINE__,
                  "execution made fewer choices than when first explored "
                  "(nondeterministic behaviour)");
    run->path.resize(run->pos);
  }
}

std::string Sample(const Scenario& sc) {
  std::string s = sc.name + ":";
  for (size_t i = 0; i < run->pos && i < run->path.size(); ++i) {
    s += " " + std::string(run->path[i].what) + "=" + std::to_string(run->path[i].v);
    if (s.size() > 400) { s += " ..."; break; }
  }
  return s;
}

// Explores one shard; writes its result file.
int Worker(const Scenario& sc, int sh, int nsh, Shared* shm, const std::string& out,
           double deadline, uint64_t max_execs) {
  shard = sh;
  num_shards = nsh;
  split = nsh > 1 ? sc.o.split : 0;
  shared = shm;
  Run r;
  run = &r;
  bool complete = true;
  std::string violation;
  bool first = true;
  for (;;) {
    Execute(sc);
    if (r.skipping && !r.overflow) {
      ++stats.skipped;
    } else {
      ++stats.execs;
      shared->execs = stats.execs;
      stats.choices += r.pos;
      stats.max_depth = std::max<uint64_t>(stats.max_depth, r.pos);
      if (r.trivial) ++stats.trivial;
      else if (stats.outcomes.size() < kMaxHashes) stats.outcomes.insert(r.obs);
      else stats.hash_capped = true;
      if (first && !r.failed) {
        // Determinism: the same choices must give the same observations.
        first = false;
        const uint64_t obs = r.obs;
        const bool pruned = r.pruned;
        const std::vector<Choice> saved = r.path;
        const int64_t save_ord = prefix_ordinal;
        replay_mode = true;
        Execute(sc);
        replay_mode = false;
        prefix_ordinal = save_ord;
        if (!r.failed && !pruned && r.obs != obs) {
          RecordFailure(__FILE__, __LINE__,
                        "the same choices gave different observations");
        }
        r.path = saved;
        stats.samples.push_back(Sample(sc));
      } else if ((stats.execs & (stats.execs - 1)) == 0 && stats.samples.size() < 4) {
        stats.samples.push_back(Sample(sc));
      }
      if (r.failed) {
        violation = r.failure;
        break;
      }
    }
    if (stats.execs >= max_execs || Now() > deadline || shm->stop) {
      complete = false;
      break;
    }
    // Next sequence.
    while (!r.path.empty() && r.path.back().v + 1 >= r.path.back().n) r.path.pop_back();
    if (r.path.empty()) break;
    ++r.path.back().v;
    r.diverge = r.path.size() - 1;
  }
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 3;
  fprintf(f, "E %llu\nK %llu\nT %llu\nS %llu\nC %llu\nD %llu\nP %d\nH %d\n",
          (unsigned long long)stats.execs, (unsigned long long)stats.skipped,
          (unsigned long long)stats.trivial, (unsigned long long)stats.steps,
          (unsigned long long)stats.choices, (unsigned long long)stats.max_depth,
          complete ? 1 : 0, stats.hash_capped ? 1 : 0);
  for (auto& c : stats.covers)
    fprintf(f, "V %llu %s\n", (unsigned long long)c.second, c.first.c_str());
  for (auto& s : stats.samples) fprintf(f, "X %s\n", s.c_str());
  if (!violation.empty()) {
    for (auto& c : violation) if (c == '\n') c = ' ';
    fprintf(f, "F %s\nG", violation.c_str());
    for (size_t i = 0; i < r.pos && i < r.path.size(); ++i) fprintf(f, " %d", r.path[i].v);
    fprintf(f, "\n");
  }
  fclose(f);
  FILE* b = fopen((out + ".bin").c_str(), "wb");
  for (auto* set : {&stats.states, &stats.outcomes}) {
    uint64_t n = set->size();
    fwrite(&n, 8, 1, b);
    for (uint64_t h : *set) fwrite(&h, 8, 1, b);
  }
  fclose(b);
  return 0;
}

struct ReplayResult {
  bool failed = false;
  bool crashed = false;
  bool hung = false;
  std::string message;
};

// Runs one choice sequence in a fresh child process.
ReplayResult ReplayOnce(const Scenario& sc, const std::vector<int>& choices,
                        double timeout, const std::string& tmp, bool keep_trace,
                        std::vector<std::string>* notes) {
  ReplayResult res;
  const std::string of = tmp + ".replay", ef = tmp + ".stderr";
  unlink(of.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) dup2(fd, 2);
    Run r;
    run = &r;
    shared = nullptr;
    num_shards = 1;
    split = 0;
    replay_mode = true;
    tracing = keep_trace;
    for (int v : choices) r.path.push_back({v, -1, ""});
    r.diverge = choices.size();
    Execute(sc);
    FILE* f = fopen(of.c_str(), "w");
    fprintf(f, "%d\n%s\n", r.failed ? 1 : 0, r.failure.c_str());
    fputs("--\n", f);
    for (auto& n : r.notes) fprintf(f, "%s\n", n.c_str());
    fclose(f);
    _exit(0);
  }
  const double start = Now();
  int status = 0;
  for (;;) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) break;
    if (Now() - start > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      res.hung = true;
      res.failed = true;
      res.message = "execution does not terminate (no result after " +
                    std::to_string((int)timeout) + " s)";
      return res;
    }
    usleep(2000);
  }
  if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
    res.crashed = res.failed = true;
    std::string tail;
    if (FILE* f = fopen(ef.c_str(), "r")) {
      char buf[4096];
      size_t n;
      while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
        tail.append(buf, n);
        if (tail.size() > 1 << 16) tail.erase(1 << 15);
      }
      fclose(f);
    }
    size_t p = tail.find("FATAL ");
    if (p == std::string::npos) p = tail.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = tail.find("runtime error");
    if (p == std::string::npos) p = tail.find("Assertion");
    if (p == std::string::npos) p = 0;
    tail = tail.substr(p, 600);
    for (auto& c : tail) if (c == '\n') c = ' ';
    res.message = WIFSIGNALED(status)
                      ? "crash: signal " + std::to_string(WTERMSIG(status)) + " " + tail
                      : "crash: exit status " + std::to_string(WEXITSTATUS(status)) + " " + tail;
    return res;
  }
  if (FILE* f = fopen(of.c_str(), "r")) {
    char buf[8192];
    if (fgets(buf, sizeof buf, f)) res.failed = buf[0] == '1';
    if (fgets(buf, sizeof buf, f)) { res.message = buf; while (!res.message.empty() && res.message.back() == '\n') res.message.pop_back(); }
    while (fgets(buf, sizeof buf, f)) {
      std::string l = buf;
      while (!l.empty() && l.back() == '\n') l.pop_back();
      if (notes) notes->push_back(l);
    }
    fclose(f);
  }
  return res;
}

struct Job {
  int scenario, shard, nshards;
  pid_t pid = 0;
  Shared* shm = nullptr;
  std::string out;
  // Set when an execution failed in its shard but not alone: the shard is
  // explored again from its start, and must fail at the same place.
  bool rerun = false;
  uint64_t max_execs = ~0ull;
  std::vector<int> expect;
  std::string first_msg;
};

}  // namespace
}  // namespace mc

using namespace mc;

int main(int argc, char** argv) {
  // Fixed addresses make runs repeatable (hash containers keyed by pointers).
  if (!getenv("MC_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) &&
        personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("MC_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string out = "/dev/stdout", replay, only, tmp = "/tmp";
  int jobs = 8;
  double budget = 300;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--tmp") tmp = next();
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--light") light = true;
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--replay") replay = next();
    else if (a == "--scenario") only = next();
    else if (a == "--list") list = true;
  }
  verif::FatalHook = &DefaultFatal;
  auto& scs = Scenarios();
  std::sort(scs.begin(), scs.end(), [](const Scenario& a, const Scenario& b) { return a.name < b.name; });
  if (list) {
    for (auto& s : scs) printf("%s\n", s.name.c_str());
    return 0;
  }
  if (!replay.empty()) {
    // scenario name on line 1, choices on line 2 (JSON-free on purpose)
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 2; }
    std::string name, line;
    std::vector<int> ch;
    char buf[1 << 16];
    while (fgets(buf, sizeof buf, f)) {
      std::string l = buf;
      if (l.rfind("scenario ", 0) == 0) { name = l.substr(9); while (!name.empty() && isspace((unsigned char)name.back())) name.pop_back(); }
      if (l.rfind("tier ", 0) == 0) { thorough = l.find("thorough") != std::string::npos; light = l.find("light") != std::string::npos; }
      if (l.rfind("choices", 0) == 0) { std::istringstream is(l.substr(7)); int v; while (is >> v) ch.push_back(v); }
    }
    fclose(f);
    for (auto& s : scs) {
      if (s.name != name) continue;
      if (getenv("MC_INPROC")) {
        Run r; run = &r; replay_mode = true; tracing = true;
        for (int v : ch) r.path.push_back({v, -1, ""});
        r.diverge = ch.size();
        Execute(s);
        printf("%s %s\n", r.failed ? "FAILED" : "ok", r.failure.c_str());
        return r.failed;
      }
      std::vector<std::string> notes;
      auto res = ReplayOnce(s, ch, 120, tmp + "/r" + std::to_string(getpid()), true, &notes);
      for (auto& n : notes) printf("%s\n", n.c_str());
      printf("%s %s\n", res.failed ? "FAILED" : "ok", res.message.c_str());
      return res.failed ? 1 : 0;
    }
    fprintf(stderr, "no scenario %s\n", name.c_str());
    return 2;
  }

  const double start = Now(), deadline = start + budget;
  std::vector<Job> todo;
  for (int i = 0; i < (int)scs.size(); ++i) {
    if (!only.empty()) {  // comma separated parts of names, or =name
      bool chosen = false;
      std::istringstream is(only);
      for (std::string part; std::getline(is, part, ',');) chosen |= part[0] == '=' ? scs[i].name == part.substr(1) : scs[i].name.find(part) != std::string::npos;
      if (!chosen) continue;
    }
    if (scs[i].o.thorough_only && !thorough) continue;
    const int n = scs[i].o.single ? 1 : jobs;
    for (int s = 0; s < n; ++s) {
      Job j;
      j.scenario = i; j.shard = s; j.nshards = n;
      j.out = tmp + "/mc_" + std::to_string(getpid()) + "_" + std::to_string(i) + "_" + std::to_string(s);
      todo.push_back(j);
    }
  }
  // Time slices: every scenario gets a share of the remaining budget.
  struct Agg {
    uint64_t execs = 0, skipped = 0, trivial = 0, steps = 0, choices = 0, depth = 0;
    bool complete = true, hcap = false;
    int shards = 0, finished = 0;
    std::map<std::string, uint64_t> covers;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> states, outcomes;
    double wall0 = 0, wall1 = 0;
  };
  std::map<int, Agg> agg;
  struct Vio { int sc; std::vector<int> ch; std::string msg; std::vector<std::string> notes; };
  std::vector<Vio> vios;
  std::vector<std::string> errors;
  std::set<int> stopped;  // scenarios with a violation already
  std::vector<Job> running;
  size_t ti = 0;
  double total_w = 0, done_w = 0;
  for (auto& j : todo) total_w += scs[j.scenario].o.weight;
  auto choices_of = [](Shared* s) {
    std::vector<int> v;
    for (int i = 0; i < s->num; ++i) v.push_back(s->v[i]);
    return v;
  };
  while (ti < todo.size() || !running.empty()) {
    while (ti < todo.size() && (int)running.size() < jobs) {
      Job j = todo[ti++];
      if (!j.rerun && stopped.count(j.scenario)) { agg[j.scenario].complete = false; continue; }
      Agg& a = agg[j.scenario];
      if (!j.rerun && a.shards++ == 0) a.wall0 = Now();
      j.shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      const double left = std::max(1.0, deadline - Now());
      // fair share: this job may use up to its weight's part of what is left
      const double share = left * jobs * scs[j.scenario].o.weight / std::max(1.0, total_w - done_w);
      const double jd = Now() + std::min(left, std::max(2.0, share));
      done_w += scs[j.scenario].o.weight;
      fflush(stdout);
      j.pid = fork();
      if (j.pid == 0) {
        int fd = open((j.out + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) dup2(fd, 2);
        if (fd >= 0) dup2(fd, 1);
        _exit(Worker(scs[j.scenario], j.shard, j.nshards, j.shm, j.out,
                     j.rerun ? Now() + 600 : jd, j.max_execs));
      }
      running.push_back(j);
    }
    usleep(3000);
    for (size_t k = 0; k < running.size();) {
      Job& j = running[k];
      int status = 0;
      pid_t w = waitpid(j.pid, &status, WNOHANG);
      bool hung = false;
      std::vector<int> ch;
      const Scenario& sc = scs[j.scenario];
      if (w == 0) {
        const double s = j.shm->started;
        if (s > 0 && Now() - s > sc.o.exec_timeout) {
          ch = choices_of(j.shm);
          kill(j.pid, SIGKILL);
          waitpid(j.pid, &status, 0);
          hung = true;
        } else {
          ++k;
          continue;
        }
      }
      Agg rerun_agg;
      Agg& a = j.rerun ? rerun_agg : agg[j.scenario];
      a.wall1 = Now();
      bool vio = false;
      std::string first_msg;
      if (hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        if (!hung) ch = choices_of(j.shm);
        a.execs += j.shm->execs;
        a.complete = false;
        vio = true;
        first_msg = hung ? "hang" : "crash";
      } else if (FILE* f = fopen(j.out.c_str(), "r")) {
        char buf[1 << 16];
        while (fgets(buf, sizeof buf, f)) {
          std::string l = buf;
          while (!l.empty() && l.back() == '\n') l.pop_back();
          unsigned long long v = l.size() > 2 ? strtoull(l.c_str() + 2, nullptr, 10) : 0;
          switch (l[0]) {
            case 'E': a.execs += v; break;
            case 'K': a.skipped += v; break;
            case 'T': a.trivial += v; break;
            case 'S': a.steps += v; break;
            case 'C': a.choices += v; break;
            case 'D': a.depth = std::max<uint64_t>(a.depth, v); break;
            case 'P': if (!v) a.complete = false; break;
            case 'H': if (v) a.hcap = true; break;
            case 'V': { char* e; unsigned long long c = strtoull(l.c_str() + 2, &e, 10); a.covers[e + 1] += c; break; }
            case 'X': if (a.samples.size() < 3) a.samples.push_back(l.substr(2)); break;
            case 'F': vio = true; first_msg = l.substr(2); break;
            case 'G': { std::istringstream is(l.substr(1)); int c; while (is >> c) ch.push_back(c); break; }
          }
        }
        fclose(f);
        if (FILE* b = fopen((j.out + ".bin").c_str(), "rb")) {
          for (auto* set : {&a.states, &a.outcomes}) {
            uint64_t n = 0, h;
            if (fread(&n, 8, 1, b) != 1) break;
            for (uint64_t i = 0; i < n && fread(&h, 8, 1, b) == 1; ++i)
              if (set->size() < (16u << 20)) set->insert(h); else a.hcap = true;
          }
          fclose(b);
        }
        ++a.finished;
      } else {
        errors.push_back("no result from a worker of " + sc.name);
      }
      if (vio && !stopped.count(j.scenario)) {
        // Replay before report: alone, twice, with a longer limit.
        std::vector<std::string> notes;
        const std::string t = j.out;
        auto r1 = ReplayOnce(sc, ch, sc.o.exec_timeout * 4 + 20, t, false, nullptr);
        auto r2 = r1.failed ? ReplayOnce(sc, ch, sc.o.exec_timeout * 4 + 20, t, true, &notes)
                            : ReplayOnce(sc, ch, sc.o.exec_timeout * 4 + 20, t, false, nullptr);
        if (r1.failed && r2.failed) {
          stopped.insert(j.scenario);
          a.complete = false;
          vios.push_back({j.scenario, ch, r2.message, notes});
          for (auto& o : running) if (o.scenario == j.scenario) o.shm->stop = 1;
        } else if (j.rerun) {
          // Second exploration of the shard failed as well.
          if (ch == j.expect) {
            stopped.insert(j.scenario);
            vios.push_back({j.scenario, ch, j.first_msg + " (only after the preceding executions of its shard: depends on state kept between runs or on uninitialised memory)", {}});
          } else {
            errors.push_back("unrepeatable failure in " + sc.name + ": " + first_msg);
          }
        } else if (hung) {
          a.complete = false;  // slow, not hung: coverage is capped there
        } else {
          a.complete = false;
          Job again = j;
          again.rerun = true;
          again.max_execs = j.shm->execs + 1;
          again.expect = ch;
          again.first_msg = first_msg;
          todo.push_back(again);
        }
      } else if (j.rerun && !vio && !stopped.count(j.scenario)) {
        errors.push_back("unrepeatable failure in " + sc.name + ": " + j.first_msg);
      }
      unlink(j.out.c_str());
      unlink((j.out + ".bin").c_str());
      unlink((j.out + ".err").c_str());
      unlink((j.out + ".replay").c_str());
      unlink((j.out + ".stderr").c_str());
      munmap(j.shm, sizeof(Shared));
      running.erase(running.begin() + k);
    }
  }
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 2; }
  fprintf(f, "{\"wall_s\": %.3f, \"scenarios\": [", Now() - start);
  bool first = true;
  for (auto& [i, a] : agg) {
    fprintf(f, "%s\n {\"name\": %s, \"executions\": %llu, \"steps\": %llu, \"choices\": %llu, \"states\": %llu, "
               "\"outcomes\": %llu, \"trivial\": %llu, \"max_depth\": %llu, \"exhaustive\": %s, \"hash_capped\": %s, \"wall_s\": %.2f, \"covers\": {",
            first ? "" : ",", JsonStr(scs[i].name).c_str(), (unsigned long long)a.execs, (unsigned long long)a.steps,
            (unsigned long long)a.choices, (unsigned long long)a.states.size(), (unsigned long long)a.outcomes.size(),
            (unsigned long long)a.trivial, (unsigned long long)a.depth,
            a.complete && a.finished == a.shards ? "true" : "false", a.hcap ? "true" : "false", a.wall1 - a.wall0);
    first = false;
    bool fc = true;
    for (auto& [k, v] : a.covers) { fprintf(f, "%s%s: %llu", fc ? "" : ", ", JsonStr(k).c_str(), (unsigned long long)v); fc = false; }
    fprintf(f, "}, \"samples\": [");
    fc = true;
    for (auto& s : a.samples) { fprintf(f, "%s%s", fc ? "" : ", ", JsonStr(s).c_str()); fc = false; }
    fprintf(f, "]}");
  }
  fprintf(f, "],\n \"violations\": [");
  first = true;
  for (auto& v : vios) {
    fprintf(f, "%s\n {\"scenario\": %s, \"message\": %s, \"choices\": [", first ? "" : ",", JsonStr(scs[v.sc].name).c_str(), JsonStr(v.msg).c_str());
    for (size_t i = 0; i < v.ch.size(); ++i) fprintf(f, "%s%d", i ? "," : "", v.ch[i]);
    fprintf(f, "], \"trace\": [");
    for (size_t i = 0; i < v.notes.size() && i < 400; ++i) fprintf(f, "%s%s", i ? ", " : "", JsonStr(v.notes[i]).c_str());
    fprintf(f, "]}");
    first = false;
  }
  fprintf(f, "],\n \"errors\": [");
  first = true;
  for (auto& e : errors) { fprintf(f, "%s%s", first ? "" : ", ", JsonStr(e).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  if (!vios.empty()) return 1;
  return errors.empty() ? 0 : 2;
}
