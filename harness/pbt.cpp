#include "pbt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <fstream>
#include <iostream>
#include <memory>
#include <unordered_set>

namespace pbt {

uint64_t *Src::mirror = nullptr;
std::vector<Test> &registry() { static std::vector<Test> r; return r; }
void (*workerInit)() = nullptr;

namespace {

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string g_prop, g_verif, g_scratchRoot, g_replayDir;
uint64_t g_seed = 1;
std::vector<std::string> g_known;   // signatures of known findings for this property

const int kMaxWorkers = 16;
struct Slot
{
  volatile uint64_t caseIdx;     // case being executed
  volatile double started;       // when
  volatile uint64_t done, nontrivial;
};
struct Shared { Slot slot[kMaxWorkers]; volatile uint64_t next; };
Shared *g_sh;
uint64_t *g_mirror;

std::string jesc(const std::string &s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') { o += "\\n"; }
    else if (ch == '\t') { o += "\\t"; }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else { o += ch; }
  }
  return o;
}

void rmTree(const std::string &d)
{
  if (d.size() < 6 || d.find("f3dverif") == std::string::npos) { return; }
  DIR *dir = opendir(d.c_str());
  if (!dir) { return; }
  while (dirent *e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") { continue; }
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { rmTree(p); } else { unlink(p.c_str()); }
  }
  closedir(dir);
  rmdir(d.c_str());
}

uint64_t caseSeed(const Test &t, uint64_t idx)
{
  uint64_t h = mix(g_seed);
  for (const char *p = t.name; *p; ++p) { h = hcomb(h, (unsigned char)*p); }
  return hcomb(h, idx);
}

struct Outcome
{
  enum Kind { Pass, Fail, Crash, Hang } kind = Pass;
  std::string sig, msg, notes;
  std::vector<uint64_t> choices;
  bool bad() const { return kind != Pass; }
};

void redirect(const std::string &file)
{
  int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

std::string slurp(const std::string &f, size_t max = 1 << 20)
{
  std::ifstream in(f.c_str(), std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() > max) { s.resize(max); }
  return s;
}

//! Runs the test on the given source. Returns true on pass.
bool runOne(const Test &t, Src &src, Ctx &ctx, Failure &f)
{
  try {
    t.fn(src, ctx);
    return true;
  } catch (const Failure &e) {
    f = e;
  } catch (const std::exception &e) {
    f.sig = "uncaught-exception";
    f.msg = std::string("uncaught exception: ") + e.what();
  } catch (...) {
    f.sig = "uncaught-exception";
    f.msg = "uncaught exception of unknown type";
  }
  return false;
}

void childSetup(const std::string &scratch)
{
  mkdir(scratch.c_str(), 0755);
  redirect(scratch + ".out");
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

//! Summarises a crash from the worker's output
std::string crashSummary(const std::string &out, int status)
{
  std::ostringstream os;
  if (WIFSIGNALED(status)) { os << "killed by signal " << WTERMSIG(status); }
  else { os << "exited with status " << WEXITSTATUS(status); }
  size_t p = out.find("SUMMARY: ");
  if (p != std::string::npos) { os << "; " << out.substr(p, out.find('\n', p) - p); }
  p = out.find("Assertion");
  if (p != std::string::npos) {
    size_t b = out.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
    os << "; " << out.substr(b, out.find('\n', p) - b);
  }
  p = out.find("terminate called");
  if (p != std::string::npos) { os << "; " << out.substr(p, 200); }
  return os.str();
}

//! Executes one choice list (or a seed) in a forked child.
Outcome runForked(const Test &t, const std::vector<uint64_t> *choices, uint64_t seed, int hangSec,
                  bool verbose = false)
{
  static int counter = 0;
  std::string scratch = g_scratchRoot + "/r" + std::to_string(counter++);
  std::string res = scratch + ".res";
  Outcome o;
  g_mirror[0] = 0;
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    Src::mirror = g_mirror;
    childSetup(scratch);
    if (workerInit) { workerInit(); }
    std::unique_ptr<Src> src(choices ? new Src(*choices) : new Src(seed));
    Ctx ctx; ctx.scratch = scratch; ctx.verbose = verbose;
    Failure f;
    bool ok = runOne(t, *src, ctx, f);
    FILE *fp = fopen(res.c_str(), "w");
    if (fp) {
      fprintf(fp, "%d\n%zu\n", ok ? 1 : 0, src->recorded().size());
      for (uint64_t c : src->recorded()) { fprintf(fp, "%llu ", (unsigned long long)c); }
      std::string n = ctx.notes.str();
      fprintf(fp, "\n%zu %zu %zu\n%s%s%s", f.sig.size(), f.msg.size(), n.size(), f.sig.c_str(),
              f.msg.c_str(), n.c_str());
      fclose(fp);
    }
    _exit(ok ? 0 : 3);
  }
  if (pid > 0) { setpgid(pid, pid); }
  double t0 = now();
  int status = 0;
  bool hang = false;
  useconds_t nap = 200;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) { break; }
    if (r < 0) { break; }
    if (now() - t0 > hangSec) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); hang = true; break; }
    usleep(nap); if (nap < 5000) { nap += nap / 2; }
  }
  std::ifstream in(res.c_str(), std::ios::binary);
  int ok = -1; size_t n = 0;
  if (!hang && in && (in >> ok >> n)) {
    o.choices.resize(n);
    for (size_t i = 0; i < n; ++i) { in >> o.choices[i]; }
    size_t a, b, cc; in >> a >> b >> cc; in.get();
    o.sig.resize(a); o.msg.resize(b); o.notes.resize(cc);
    if (a) { in.read(&o.sig[0], a); } if (b) { in.read(&o.msg[0], b); } if (cc) { in.read(&o.notes[0], cc); }
    o.kind = ok ? Outcome::Pass : Outcome::Fail;
    if (ok && !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      o.kind = Outcome::Crash; o.sig = "crash"; o.msg = crashSummary(slurp(scratch + ".out"), status);
    }
  } else {
    o.kind = hang ? Outcome::Hang : Outcome::Crash;
    o.sig = hang ? "hang" : "crash";
    o.msg = hang ? "no result within the watchdog" : crashSummary(slurp(scratch + ".out"), status);
    o.choices.assign(g_mirror + 1, g_mirror + 1 + g_mirror[0]);
  }
  rmTree(scratch); unlink(res.c_str());
  if (verbose) { std::cout << slurp(scratch + ".out"); }
  unlink((scratch + ".out").c_str());
  return o;
}

std::vector<uint64_t> trimZeros(std::vector<uint64_t> v)
{
  while (!v.empty() && v.back() == 0) { v.pop_back(); }
  return v;
}

Outcome shrink(const Test &t, Outcome best, double budget, int &execs)
{
  double t0 = now();
  int hang = best.kind == Outcome::Hang ? std::min(t.hangSec, 30) : t.hangSec;
  if (best.kind == Outcome::Hang) { budget = std::min(budget * 2, 150.0); }
  auto better = [&](const std::vector<uint64_t> &cand) -> bool {
    if (now() - t0 > budget) { return false; }
    ++execs;
    Outcome o = runForked(t, &cand, 0, hang);
    if (!o.bad()) { return false; }
    if (o.kind == Outcome::Hang && best.kind != Outcome::Hang) { return false; }
    if (o.sig != best.sig) { return false; }
    std::vector<uint64_t> used = o.choices;
    used = trimZeros(used);
    std::vector<uint64_t> cur = best.choices;
    if (used.size() > cur.size() || (used.size() == cur.size() && !(used < cur))) { return false; }
    o.choices = used;
    best = o;
    return true;
  };
  best.choices = trimZeros(best.choices);
  // crash of unknown length: bisect the prefix first
  if (best.kind != Outcome::Fail) {
    size_t n = best.choices.size();
    while (n > 1 && now() - t0 < budget) {
      std::vector<uint64_t> c(best.choices.begin(), best.choices.begin() + n / 2);
      if (better(c)) { n = best.choices.size(); } else { break; }
    }
  }
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t chunk : {64, 16, 8, 4, 2, 1}) {
      for (size_t i = best.choices.size(); i-- > 0 && now() - t0 < budget;) {
        if (i + chunk > best.choices.size()) { continue; }
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + chunk);
        if (better(c)) { progress = true; }
      }
    }
    for (size_t i = 0; i < best.choices.size() && now() - t0 < budget; ++i) {
      if (best.choices[i] == 0) { continue; }
      std::vector<uint64_t> c = best.choices;
      c[i] = 0;
      if (better(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = best.choices[i];
      while (hi - lo > 1 && now() - t0 < budget) {
        uint64_t mid = lo + (hi - lo) / 2;
        if (i >= best.choices.size()) { break; }
        c = best.choices; c[i] = mid;
        if (better(c)) { hi = mid; progress = true; } else { lo = mid; }
      }
    }
  }
  return best;
}

struct Stats
{
  uint64_t evals = 0, nontrivial = 0, knownHits = 0, distinct = 0, planned = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::map<std::string, std::string> knownSeen;
  double wall = 0;
  bool capped = false;
  int shrinkExecs = 0;
};

bool isKnown(const std::string &sig)
{
  return std::find(g_known.begin(), g_known.end(), sig) != g_known.end();
}

std::string g_outPath;

//! Runs one test over its case count. Fills 'bad' with the first (unknown) failure.
bool runTest(const Test &t, uint64_t count, double capSec, int workers, Stats &st, Outcome &bad,
             uint64_t &badIdx)
{
  double t0 = now();
  st.planned = count;
  g_sh->next = 0;
  std::vector<pid_t> pids(workers, 0);
  std::vector<std::string> logs;
  std::unordered_set<uint64_t> hashes;
  int gen = 0;
  struct Log { std::string file; };
  std::vector<Log> allLogs;

  auto spawn = [&](int w) {
    std::string base = g_scratchRoot + "/w" + std::to_string(w) + "_" + std::to_string(gen++);
    allLogs.push_back(Log{base});
    g_sh->slot[w].started = now();
    g_sh->slot[w].caseIdx = ~0ull;
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      childSetup(base);
      if (workerInit) { workerInit(); }
      FILE *log = fopen((base + ".log").c_str(), "w");
      if (!log) { _exit(97); }
      int ran = 0;
      while (true) {
        if (t.fresh && ran++) { fclose(log); _exit(96); }
        uint64_t idx = __sync_fetch_and_add(&g_sh->next, 1);
        if (idx >= count || now() - t0 > capSec) { break; }
        g_sh->slot[w].caseIdx = idx;
        g_sh->slot[w].started = now();
        Src src(caseSeed(t, idx));
        Ctx ctx; ctx.scratch = base;
        Failure f;
        bool ok = runOne(t, src, ctx, f);
        uint64_t h = 1469598103934665603ull;
        for (uint64_t c : src.recorded()) { h = hcomb(h, c); }
        std::string labels;
        for (auto &l : ctx.labels) { labels += l + "|"; }
        if (ok) {
          fprintf(log, "P %llu %d %llx %s\n", (unsigned long long)idx, ctx.nontrivial ? 1 : 0,
                  (unsigned long long)h, labels.c_str());
          if (ctx.nontrivial && idx < 400) {
            std::string n = ctx.notes.str();
            if (n.size() > 700) { n.resize(700); n += "..."; }
            fprintf(log, "S %s\n", jesc(n).c_str());
          }
        } else {
          bool known = isKnown(f.sig);
          fprintf(log, "%c %llu %d %llx %s\n", known ? 'K' : 'F', (unsigned long long)idx,
                  ctx.nontrivial ? 1 : 0, (unsigned long long)h, labels.c_str());
          if (known) { fprintf(log, "X %s %s\n", jesc(f.sig).c_str(), jesc(f.msg).c_str()); }
          fflush(log);
          if (!known) { fclose(log); _exit(3); }
        }
        g_sh->slot[w].caseIdx = ~0ull;
        if ((idx & 15) == 0) { fflush(log); ftruncate(1, 0); }
      }
      fclose(log);
      _exit(0);
    }
    if (pid > 0) { setpgid(pid, pid); }
    pids[w] = pid;
  };
  for (int w = 0; w < workers; ++w) { spawn(w); }

  bool found = false;
  int alive = workers;
  int respawns = 0;
  uint64_t crashIdx = ~0ull;
  while (alive > 0) {
    usleep(3000);
    for (int w = 0; w < workers; ++w) {
      if (!pids[w]) { continue; }
      int status;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool hung = false;
      if (r == 0) {
        if (g_sh->slot[w].caseIdx != ~0ull && now() - g_sh->slot[w].started > t.hangSec) {
          kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0);
          hung = true;
        } else { continue; }
      }
      kill(-pids[w], SIGKILL);
      pids[w] = 0; alive--;
      if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) { continue; }
      if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 97) { continue; }
      if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 96) { spawn(w); alive++; continue; }   // each case has its own process
      uint64_t idx = g_sh->slot[w].caseIdx;
      if (idx == ~0ull) {   // died between cases: restart
        if (!found && respawns++ < 50) { spawn(w); alive++; }
        continue;
      }
      if (!found) {
        // Confirm outside of the worker
        Outcome o = runForked(t, nullptr, caseSeed(t, idx), t.hangSec);
        int tries = 1, hits = o.bad() ? 1 : 0;
        Outcome keep = o;
        if (t.reruns > 3) {
          while (hits == 0 && tries < t.reruns) {
            o = runForked(t, nullptr, caseSeed(t, idx), t.hangSec); tries++;
            if (o.bad()) { hits++; keep = o; }
          }
        } else {
          while (tries < t.reruns) {
            o = runForked(t, nullptr, caseSeed(t, idx), t.hangSec); tries++;
            if (o.bad()) { hits++; keep = o; }
          }
        }
        if (hits == tries || (t.reruns > 3 && hits > 0)) {
          if (isKnown(keep.sig)) {
            st.knownHits++; st.knownSeen[keep.sig] = keep.msg;
          } else {
            found = true; bad = keep; badIdx = idx; crashIdx = idx;
            g_sh->next = count;   // stop the others
          }
        } else {
          st.labels["unconfirmed-failure"]++;
          if (getenv("PBT_DEBUG")) { fprintf(stderr, "unconfirmed %s idx %llu hits %d/%d sig %s msg %s\n", t.name, (unsigned long long)idx, hits, tries, keep.sig.c_str(), keep.msg.c_str()); }
        }
      }
      if (!found && respawns++ < 200) { spawn(w); alive++; }
    }
  }
  // Merge logs
  for (auto &l : allLogs) {
    std::ifstream in((l.file + ".log").c_str());
    std::string line;
    while (std::getline(in, line)) {
      if (line.size() < 2) { continue; }
      if (line[0] == 'P' || line[0] == 'K' || line[0] == 'F') {
        std::istringstream is(line.substr(2));
        unsigned long long idx; int nt; std::string h, lab;
        is >> idx >> nt >> h; is >> lab;
        st.evals++;
        if (line[0] == 'K') { st.knownHits++; }
        if (nt) { st.nontrivial++; if (hashes.insert(strtoull(h.c_str(), 0, 16)).second) { st.distinct++; } }
        size_t a = 0;
        while (a < lab.size()) { size_t b = lab.find('|', a); if (b == std::string::npos) { break; } st.labels[lab.substr(a, b - a)]++; a = b + 1; }
      } else if (line[0] == 'S') {
        if (st.samples.size() < 3 && line.size() > 4) { st.samples.push_back(line.substr(2)); }
      } else if (line[0] == 'X') {
        size_t sp = line.find(' ', 2);
        st.knownSeen[line.substr(2, sp - 2)] = line.substr(sp + 1);
      }
    }
    in.close();
    unlink((l.file + ".log").c_str()); unlink((l.file + ".out").c_str());
    rmTree(l.file);
  }
  st.wall = now() - t0;
  st.capped = st.evals < count && !found;
  return !found;
}

void writeReplay(const std::string &path, const Test &t, const Outcome &o)
{
  std::ofstream f(path.c_str());
  f << "{\"property\": \"" << g_prop << "\", \"test\": \"" << t.name << "\", \"seed\": " << g_seed
    << ",\n \"signature\": \"" << jesc(o.sig) << "\",\n \"failure\": \"" << jesc(o.msg)
    << "\",\n \"case\": \"" << jesc(o.notes) << "\",\n \"choices\": [";
  for (size_t i = 0; i < o.choices.size(); ++i) { f << (i ? ", " : "") << o.choices[i]; }
  f << "]}\n";
}

bool readReplay(const std::string &path, std::string &test, std::vector<uint64_t> &choices)
{
  std::string s = slurp(path, 1 << 24);
  size_t p = s.find("\"test\": \"");
  if (p == std::string::npos) { return false; }
  p += 9; test = s.substr(p, s.find('"', p) - p);
  p = s.find("\"choices\": [");
  if (p == std::string::npos) { return false; }
  p += 12;
  const char *c = s.c_str() + p;
  while (*c && *c != ']') {
    char *e; unsigned long long v = strtoull(c, &e, 10);
    if (e == c) { break; }
    choices.push_back(v); c = e;
    while (*c == ',' || *c == ' ' || *c == '\n') { ++c; }
  }
  return true;
}

} // namespace

int mainImpl(int argc, char **argv)
{
  std::string tier = "quick", replay, only, evidence, levelNote;
  double cap = 0;
  int workers = 8;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") { g_prop = val(); }
    else if (a == "--tier") { tier = val(); }
    else if (a == "--seed") { g_seed = strtoull(val().c_str(), 0, 10); }
    else if (a == "--verif") { g_verif = val(); }
    else if (a == "--replay") { replay = val(); }
    else if (a == "--only") { only = val(); }
    else if (a == "--evidence") { evidence = val(); }
    else if (a == "--cap") { cap = atof(val().c_str()); }
    else if (a == "--workers") { workers = atoi(val().c_str()); }
    else if (a == "--scale") { scale = atof(val().c_str()); }
  }
  if (workers > kMaxWorkers) { workers = kMaxWorkers; }
  g_scratchRoot = "/tmp/f3dverif." + std::to_string(getpid());
  mkdir(g_scratchRoot.c_str(), 0755);
  g_replayDir = g_verif + "/replays";
  mkdir(g_replayDir.c_str(), 0755);
  g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_mirror = (uint64_t *)mmap(0, (Src::kMirrorCap + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPIPE, SIG_IGN);

  // Known findings: lines "known: property=<id> sig=<signature> <text>"
  std::map<std::string, std::string> knownText;
  {
    std::ifstream in((g_verif + "/known_findings.txt").c_str());
    std::string line;
    while (std::getline(in, line)) {
      std::string pre = "known: property=" + g_prop + " sig=";
      if (line.compare(0, pre.size(), pre) == 0) {
        size_t e = line.find(' ', pre.size());
        std::string sig = line.substr(pre.size(), e - pre.size());
        g_known.push_back(sig);
        knownText[sig] = e == std::string::npos ? "" : line.substr(e + 1);
      }
    }
  }

  if (!replay.empty()) {
    std::string test; std::vector<uint64_t> ch;
    if (!readReplay(replay, test, ch)) { std::cerr << "cannot read replay file " << replay << "\n"; rmTree(g_scratchRoot); return 2; }
    for (auto &t : registry()) {
      if (test == t.name) {
        bool bad = false;
        for (int i = 0; i < (t.reruns > 3 ? t.reruns : 1) && !bad; ++i) {
          Outcome o = runForked(t, &ch, 0, t.hangSec, true);
          if (o.bad()) {
            bad = true;
            std::cout << "test " << t.name << "\ncase:\n" << o.notes << "\nsignature " << o.sig << "\nfailure: " << o.msg << "\n";
          }
        }
        rmTree(g_scratchRoot);
        if (bad) { std::cout << "VIOLATION property=" << g_prop << " replay=" << replay << "\n"; return 1; }
        std::cout << "replay passes\n";
        return 0;
      }
    }
    std::cerr << "no test named " << test << "\n"; rmTree(g_scratchRoot);
    return 2;
  }

  double t0 = now();
  bool thorough = tier == "thorough";
  if (cap <= 0) { cap = thorough ? 600 : 75; }
  int violations = 0;
  std::vector<std::pair<const Test *, Stats> > stats;
  std::vector<std::string> violationLines;
  std::map<std::string, std::string> knownSeen;
  size_t nTests = 0;
  for (auto &t : registry()) { if (only.empty() || only == t.name) { nTests++; } }
  size_t left = nTests;
  for (auto &t : registry()) {
    if (!only.empty() && only != t.name) { continue; }
    Stats st; Outcome bad; uint64_t badIdx = 0;
    double remaining = cap - (now() - t0);
    // each test may use up to three shares of what is left
    double share = std::max(3.0, remaining * std::min(1.0, 3.0 / left));
    left--;
    int cases = thorough ? t.thorough : t.quick;      // negative: not scaled
    uint64_t n = cases < 0 ? (uint64_t)-cases : (uint64_t)(cases * scale);
    bool ok = runTest(t, n, share, workers, st, bad, badIdx);
    if (!ok) {
      int ex = 0;
      // make sure the choice list itself reproduces before shrinking
      Outcome o; bool rep = false;
      for (int i = 0; i < t.reruns && !rep; ++i) { o = runForked(t, &bad.choices, 0, t.hangSec); rep = o.bad(); }
      Outcome fin = bad;
      if (rep) {
        fin = t.reruns > 3 ? o : shrink(t, o, thorough ? 120 : 40, ex);
        if (fin.notes.empty()) { fin.notes = o.notes; }
      }
      st.shrinkExecs = ex;
      uint64_t h = 0; for (auto v : fin.choices) { h = hcomb(h, v); }
      char hb[32]; snprintf(hb, 32, "%08x", (unsigned)h);
      std::string path = g_replayDir + "/" + g_prop + "-" + t.name + "-" + hb + ".json";
      writeReplay(path, t, fin);
      std::cout << "-- " << g_prop << "/" << t.name << " case " << badIdx << " [" << fin.sig << "] " << fin.msg << "\n";
      if (!fin.notes.empty()) { std::cout << "   minimal case: " << fin.notes.substr(0, 1500) << "\n"; }
      std::cout << "VIOLATION property=" << g_prop << " replay=" << path << std::endl;
      violations++;
    }
    for (auto &k : st.knownSeen) { knownSeen[k.first] = k.second; }
    std::cout << "   " << t.name << ": " << st.evals << "/" << st.planned << " cases, " << st.nontrivial << " non-trivial, "
              << st.wall << " s" << (st.capped ? " (time cap)" : "") << (ok ? "" : "  FAILED") << std::endl;
    stats.push_back(std::make_pair(&t, st));
  }
  for (auto &k : g_known) {
    std::cout << "KNOWN-FINDING: property=" << g_prop << " " << knownText[k]
              << (knownSeen.count(k) ? " [hit in this run]" : "") << std::endl;
  }

  // Evidence
  if (!evidence.empty()) {
    uint64_t ev = 0, di = 0, nt = 0, kh = 0;
    std::ostringstream rule, samples, tests;
    bool fs = true, ft = true;
    for (auto &p : stats) {
      ev += p.second.evals; di += p.second.distinct; nt += p.second.nontrivial; kh += p.second.knownHits;
      rule << (rule.str().empty() ? "" : "; ") << p.first->name << ": " << p.first->rule;
      for (auto &s : p.second.samples) { samples << (fs ? "" : ",\n   ") << "\"" << p.first->name << ": " << s << "\""; fs = false; }
      tests << (ft ? "" : ",\n   ") << "{\"test\": \"" << p.first->name << "\", \"evaluations\": " << p.second.evals
            << ", \"planned\": " << p.second.planned << ", \"nontrivial\": " << p.second.nontrivial
            << ", \"distinct_nontrivial\": " << p.second.distinct << ", \"wall_s\": " << p.second.wall << ", \"labels\": {";
      bool fl = true;
      for (auto &l : p.second.labels) { tests << (fl ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; fl = false; }
      tests << "}}";
      ft = false;
    }
    std::ofstream f(evidence.c_str());
    f << "{\"property\": \"" << g_prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << g_seed
      << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << ev << ", \"distinct_nontrivial\": " << di
      << ", \"nontrivial\": " << nt << ", \"known_finding_hits\": " << kh
      << ",\n  \"rule\": \"" << jesc(rule.str()) << "\",\n  \"samples\": [" << samples.str() << "],\n  \"tests\": ["
      << tests.str() << "]},\n \"wall_s\": " << now() - t0 << ", \"violations\": " << violations << "}\n";
  }
  rmTree(g_scratchRoot);
  return violations ? 1 : 0;
}

} // namespace pbt

int main(int argc, char **argv) { return pbt::mainImpl(argc, argv); }
