// Runner: seeded search over histories, isolation in child processes, gating, minimisation, replay, evidence.
#include "core.h"

#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <random>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace std {
// Seam: hardware randomness becomes a fixed stream (libstdc++ calls this for every draw of std::random_device)
static unsigned long long g_rdState = 12345;
random_device::result_type random_device::_M_getval() {
  return (random_device::result_type)(::sim::mix64(g_rdState++) & 0xffffffffu);
}
} // namespace std

static double now() {
  using namespace std::chrono;
  return duration_cast<duration<double>>(steady_clock::now().time_since_epoch()).count();
}

static const Scenario* findScenario(const std::string& name) {
  for (auto& s : scenarios())
    if (s.name == name) return &s;
  return nullptr;
}

typedef std::vector<History> Case; // usually one history; several when the failure needs process-global state

enum class Kind { Ok, Violation, Crash, Hang, Discard, Broken };
struct Outcome {
  Kind kind = Kind::Ok;
  std::string clause, detail;
  u64 hash = 0;
  bool bad() const { return kind == Kind::Violation || kind == Kind::Crash || kind == Kind::Hang; }
};

static int g_cpuLimit = 20; // seconds of CPU per run before it counts as not terminating

static void onHang(int) { _exit(77); }
static void armTimer(int s) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = s;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static Outcome executeHere(const History& h, Ctx& ctx) {
  Outcome o;
  const Scenario* s = findScenario(h.scenario);
  if (!s) {
    o.kind = Kind::Broken;
    o.clause = "no such scenario " + h.scenario;
    return o;
  }
  seam::allocReset();
  seam::clockReset(h.seed, (int)h.get("clock", 0));
  seedLibraryRandomness(h.seed);
  std::g_rdState = mix64(h.seed ^ 77);
  armTimer(g_cpuLimit);
  try {
    s->execute(h, ctx);
  } catch (const Violation& v) {
    o.kind = Kind::Violation;
    o.clause = v.clause;
    o.detail = v.detail;
  } catch (const Discard& d) {
    o.kind = Kind::Discard;
    o.detail = d.why;
    ctx.count("discarded");
  } catch (const std::exception& e) {
    seam::allocDisarm();
    o.kind = Kind::Violation;
    o.clause = "unexpected-exception";
    std::string w = e.what();
    // strip build paths so that the text is stable
    o.detail = w.substr(0, 400);
  }
  seam::allocDisarm();
  armTimer(0);
  ctx.ev((u64)o.kind);
  ctx.ev(o.clause);
  o.hash = ctx.hash;
  return o;
}

// ---- serialisation ------------------------------------------------------------------------------------------------
static std::string oneLine(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  return s;
}
static void writeCase(std::ostream& out, const std::string& prop, const Case& c, const Outcome& o, size_t origOps) {
  out << "verif-replay 1\nproperty " << prop << "\nclause " << o.clause << "\ndetail " << oneLine(o.detail)
      << "\nkind " << (int)o.kind << "\nhash " << o.hash << "\noriginal_ops " << origOps << "\n";
  for (auto& h : c) {
    out << "history " << h.scenario << " " << h.seed << "\n";
    for (auto& kv : h.cfg) out << "cfg " << kv.first << " " << kv.second << "\n";
    const Scenario* s = findScenario(h.scenario);
    for (auto& op : h.ops) {
      out << "op " << op.kind << " " << op.fault << " " << op.fa << " " << op.a.size();
      for (u64 x : op.a) out << " " << x;
      if (s && op.kind >= 0 && op.kind < (int)s->opNames.size()) out << " # " << s->opNames[op.kind];
      out << "\n";
    }
    out << "end\n";
  }
}
struct ReplayFile {
  std::string prop, clause, detail;
  int kind = 0;
  u64 hash = 0;
  Case c;
};
static bool readCase(const std::string& path, ReplayFile& r) {
  std::ifstream in(path);
  std::string line;
  if (!std::getline(in, line) || line.rfind("verif-replay", 0) != 0) return false;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "property") ls >> r.prop;
    else if (w == "clause") { std::getline(ls, r.clause); if (!r.clause.empty()) r.clause.erase(0, 1); }
    else if (w == "detail") std::getline(ls, r.detail);
    else if (w == "kind") ls >> r.kind;
    else if (w == "hash") ls >> r.hash;
    else if (w == "history") {
      r.c.emplace_back();
      ls >> r.c.back().scenario >> r.c.back().seed;
    } else if (w == "cfg") {
      std::string k;
      i64 v;
      ls >> k >> v;
      r.c.back().cfg[k] = v;
    } else if (w == "op") {
      Op o;
      size_t n = 0;
      ls >> o.kind >> o.fault >> o.fa >> n;
      for (size_t i = 0; i < n; i++) {
        u64 x = 0;
        ls >> x;
        o.a.push_back(x);
      }
      r.c.back().ops.push_back(o);
    }
  }
  return !r.c.empty();
}

// ---- child isolation ------------------------------------------------------------------------------------------------
static void wstr(std::string& b, const std::string& s) {
  u64 n = s.size();
  b.append((const char*)&n, 8);
  b += s;
}
static void w64(std::string& b, u64 v) { b.append((const char*)&v, 8); }
struct Rd {
  const std::string& b;
  size_t p = 0;
  bool ok = true;
  u64 r64() {
    if (p + 8 > b.size()) { ok = false; return 0; }
    u64 v;
    memcpy(&v, b.data() + p, 8);
    p += 8;
    return v;
  }
  std::string rstr() {
    u64 n = r64();
    if (!ok || p + n > b.size()) { ok = false; return ""; }
    std::string s = b.substr(p, n);
    p += n;
    return s;
  }
};
static void writeAll(int fd, const std::string& s) {
  size_t p = 0;
  while (p < s.size()) {
    ssize_t k = write(fd, s.data() + p, s.size() - p);
    if (k <= 0) _exit(99);
    p += (size_t)k;
  }
}

static std::string classifyCrash(int status, const std::string& err, std::string& detail) {
  size_t k;
  if ((k = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    std::string t = err.substr(k + 25);
    t = t.substr(0, t.find_first_of(" \n"));
    // first frame in repo code
    std::istringstream is(err.substr(k));
    std::string line;
    detail = "AddressSanitizer: " + t;
    while (std::getline(is, line)) {
      size_t q = line.find("geometrycentral");
      size_t f = line.find(" in ");
      if (f != std::string::npos && q != std::string::npos && line.find("    #") != std::string::npos) {
        detail += " at " + line.substr(f + 4, 300);
        break;
      }
    }
    return "memory:" + t;
  }
  if (err.find("Assertion") != std::string::npos) {
    size_t a = err.find("Assertion");
    detail = err.substr(a > 300 ? a - 300 : 0, 600);
    return "abort:assertion";
  }
  detail = err.substr(0, 400);
  if (WIFSIGNALED(status)) return "signal:" + std::to_string(WTERMSIG(status));
  if (err.find("terminate called") != std::string::npos) return "abort:terminate";
  return "exit:" + std::to_string(WEXITSTATUS(status));
}

static std::string slurpFd(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buf[4096];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0 && s.size() < 200000) s.append(buf, (size_t)k);
  return s;
}

static void childSetup(int errFd) {
  signal(SIGVTALRM, onHang);
  if (errFd >= 0) dup2(errFd, 2);
  if (!getenv("SIM_VERBOSE")) {
    int dn = open("/dev/null", O_WRONLY);
    if (dn >= 0) dup2(dn, 1);
  }
}

static Outcome runIsolated(const Case& c) {
  int p[2];
  if (pipe(p)) exit(2);
  int errFd = memfd_create("err", 0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    childSetup(errFd);
    Outcome o;
    u64 h = 0;
    for (auto& hist : c) {
      Ctx ctx;
      o = executeHere(hist, ctx);
      h = hcomb(h, o.hash);
      if (o.bad()) break;
    }
    o.hash = h;
    std::string b;
    w64(b, (u64)o.kind);
    wstr(b, o.clause);
    wstr(b, o.detail);
    w64(b, o.hash);
    writeAll(p[1], b);
    _exit(0);
  }
  close(p[1]);
  std::string b;
  char buf[4096];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) b.append(buf, (size_t)k);
  close(p[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  Outcome o;
  Rd r{b};
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    o.kind = (Kind)r.r64();
    o.clause = r.rstr();
    o.detail = r.rstr();
    o.hash = r.r64();
    if (!r.ok) o.kind = Kind::Broken;
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
    o.kind = Kind::Hang;
    o.clause = "does-not-terminate";
    o.detail = "run exceeded its CPU budget of " + std::to_string(g_cpuLimit) + " s (normal runs take well under 1 s)";
  } else {
    o.kind = Kind::Crash;
    o.clause = classifyCrash(status, slurpFd(errFd), o.detail);
  }
  close(errFd);
  return o;
}

// ---- minimisation ---------------------------------------------------------------------------------------------------
static Case minimise(Case c, const Outcome& target, double maxSec, u64& attempts) {
  double t0 = now();
  auto fails = [&](const Case& x) {
    attempts++;
    Outcome o = runIsolated(x);
    return o.bad() && o.clause == target.clause;
  };
  auto timeUp = [&]() { return now() - t0 > maxSec; };
  // drop whole histories
  for (size_t i = 0; i + 1 < c.size() && !timeUp();) {
    Case t = c;
    t.erase(t.begin() + (long)i);
    if (fails(t)) c = t;
    else i++;
  }
  for (size_t hI = 0; hI < c.size(); hI++) {
    // truncate tail then ddmin
    size_t chunk = std::max<size_t>(1, c[hI].ops.size() / 2);
    while (chunk >= 1 && !timeUp()) {
      bool any = false;
      for (size_t i = c[hI].ops.size(); i > 0 && !timeUp();) {
        size_t lo = i >= chunk ? i - chunk : 0;
        Case t = c;
        t[hI].ops.erase(t[hI].ops.begin() + (long)lo, t[hI].ops.begin() + (long)i);
        if (fails(t)) {
          c = t;
          any = true;
          i = std::min(lo, c[hI].ops.size());
        } else i = lo;
      }
      if (chunk == 1 && !any) break;
      if (chunk > 1) chunk /= 2;
      else if (!any) break;
    }
    // drop faults
    for (size_t i = 0; i < c[hI].ops.size() && !timeUp(); i++) {
      if (!c[hI].ops[i].fault) continue;
      Case t = c;
      t[hI].ops[i].fault = 0;
      t[hI].ops[i].fa = 0;
      if (fails(t)) c = t;
    }
    // simplify arguments
    for (size_t i = 0; i < c[hI].ops.size() && !timeUp(); i++)
      for (size_t j = 0; j < c[hI].ops[i].a.size() && !timeUp(); j++) {
        for (u64 v : {(u64)0, (u64)1, c[hI].ops[i].a[j] & 7, c[hI].ops[i].a[j] & 63}) {
          if (c[hI].ops[i].a[j] <= v) continue;
          Case t = c;
          t[hI].ops[i].a[j] = v;
          if (fails(t)) {
            c = t;
            break;
          }
        }
      }
  }
  return c;
}

// ---- search ---------------------------------------------------------------------------------------------------------
struct Opts {
  std::string prop, tier = "quick", evidence, replays = "/verif/replays", known;
  u64 seed = 1;
  u64 runs = 0;
  double time = 120, minTime = 150;
  int workers = 8;
  std::string only;
  i64 faultOnly = -1;
};

static History makeHistory(const std::vector<const Scenario*>& sc, const Opts& o, u64 idx) {
  u64 seed = mix64(hcomb(hcomb(o.seed, hstr(o.prop)), idx));
  Rng r(seed ^ 0xABCDEF);
  std::vector<double> w;
  for (auto s : sc) w.push_back(s->weight);
  const Scenario* s = sc[r.weighted(w)];
  int fm = (int)(idx & 1);
  if (o.faultOnly >= 0) fm = (int)o.faultOnly;
  History h = s->generate(seed, o.tier == "thorough" ? 1 : 0, fm);
  h.scenario = s->name;
  h.seed = seed;
  h.cfg["faultmode"] = fm;
  return h;
}

struct ChunkResult {
  u64 runs = 0, nontriv = 0, steps = 0;
  std::vector<std::pair<u64, u64>> hashes; // idx, hash
  std::vector<u64> states;
  std::map<std::string, u64> faults, counts, scen;
};

struct Cand {
  u64 idx = 0, chunkStart = 0;
  Outcome o;
};

struct Slot {
  volatile u64 cur;
  volatile u64 started;
};

static std::string jsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

static std::string describe(const History& h) {
  std::ostringstream o;
  const Scenario* s = findScenario(h.scenario);
  o << h.scenario << " seed=" << h.seed;
  for (auto& kv : h.cfg) o << " " << kv.first << "=" << kv.second;
  o << " ops=[";
  size_t n = 0;
  for (auto& op : h.ops) {
    if (n++ >= 40) { o << " ..."; break; }
    o << (n > 1 ? " " : "") << (s && op.kind < (int)s->opNames.size() ? s->opNames[op.kind] : std::to_string(op.kind));
    if (op.fault) o << "!fault" << op.fault;
  }
  o << "]";
  return o.str();
}

static void runChunk(const std::vector<const Scenario*>& sc, const Opts& o, u64 a, u64 b, Slot* slot, int fd) {
  ChunkResult R;
  std::string msg;
  std::unordered_set<u64> states;
  for (u64 i = a; i < b; i++) {
    slot->cur = i;
    slot->started = 1;
    History h = makeHistory(sc, o, i);
    Ctx ctx;
    Outcome out = executeHere(h, ctx);
    R.runs++;
    R.nontriv += ctx.nontrivial;
    R.steps += ctx.steps;
    R.scen[h.scenario]++;
    for (auto& kv : ctx.faults) R.faults[kv.first] += kv.second;
    for (auto& kv : ctx.counts) R.counts[kv.first] += kv.second;
    for (u64 s : ctx.states)
      if (states.size() < 50000) states.insert(s);
    if (ctx.nontrivial) R.hashes.push_back({i, out.hash});
    if (out.bad() || out.kind == Kind::Broken) {
      // stop the chunk here: the process may be in a bad state
      w64(msg, 1);
      w64(msg, i);
      w64(msg, (u64)out.kind);
      wstr(msg, out.clause);
      wstr(msg, out.detail);
      w64(msg, out.hash);
      break;
    }
  }
  w64(msg, 2);
  w64(msg, R.runs);
  w64(msg, R.nontriv);
  w64(msg, R.steps);
  w64(msg, R.hashes.size());
  for (auto& p : R.hashes) { w64(msg, p.first); w64(msg, p.second); }
  w64(msg, states.size());
  for (u64 s : states) w64(msg, s);
  for (auto* m : {&R.faults, &R.counts, &R.scen}) {
    w64(msg, m->size());
    for (auto& kv : *m) { wstr(msg, kv.first); w64(msg, kv.second); }
  }
  writeAll(fd, msg);
  _exit(0);
}

struct Known {
  std::string prop, clause, text, replay;
};
static std::vector<Known> readKnown(const std::string& path) {
  std::vector<Known> r;
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    // KNOWN-FINDING: property=<id> clause=<clause> replay=<file> :: text
    if (line.rfind("KNOWN-FINDING:", 0) != 0) continue;
    Known k;
    size_t t = line.find(" :: ");
    if (t != std::string::npos) k.text = line.substr(t + 4);
    std::istringstream ls(line.substr(14, t == std::string::npos ? std::string::npos : t - 14));
    std::string w;
    while (ls >> w) {
      if (w.rfind("property=", 0) == 0) k.prop = w.substr(9);
      if (w.rfind("clause=", 0) == 0) k.clause = w.substr(7);
      if (w.rfind("replay=", 0) == 0) k.replay = w.substr(7);
    }
    r.push_back(k);
  }
  return r;
}

static int searchMain(Opts o) {
  std::vector<const Scenario*> sc;
  for (auto& s : scenarios())
    if (s.property == o.prop && (o.only.empty() || s.name == o.only)) sc.push_back(&s);
  if (sc.empty()) {
    fprintf(stderr, "no scenario for %s\n", o.prop.c_str());
    return 2;
  }
  double t0 = now();
  std::vector<Known> known = readKnown(o.known);
  u64 knownHits = 0;
  for (auto& k : known) {
    if (k.prop != o.prop) continue;
    ReplayFile rf;
    std::string path = o.known.substr(0, o.known.rfind('/') + 1) + k.replay;
    if (!readCase(path, rf)) {
      printf("ERROR: known finding without readable replay %s\n", path.c_str());
      return 2;
    }
    Outcome out = runIsolated(rf.c);
    if (out.bad() && out.clause == k.clause) {
      printf("KNOWN-FINDING: property=%s %s\n", k.prop.c_str(), k.text.c_str());
      knownHits++;
    } else
      printf("note: known finding no longer reproduces: %s\n", k.text.c_str());
  }
  auto isKnown = [&](const Outcome& out) {
    for (auto& k : known)
      if (k.prop == o.prop && k.clause == out.clause) return true;
    return false;
  };

  const u64 CH = 24;
  struct W {
    pid_t pid = 0;
    int fd = -1, errFd = -1;
    u64 a = 0, b = 0;
    std::string buf;
    double start = 0;
  };
  std::vector<W> ws((size_t)o.workers);
  Slot* slots = (Slot*)mmap(nullptr, 4096 * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<std::pair<u64, u64>> pending; // (from, to) remainders after crash
  u64 nextIdx = 0;
  ChunkResult T;
  std::unordered_set<u64> states, hashSet;
  std::map<u64, u64> hashOf;
  std::vector<Cand> cands;
  u64 broken = 0;
  std::string brokenText;
  u64 knownSeen = 0;
  u64 lowestCand = ~0ull;

  auto launch = [&](W& w, size_t wi, u64 a, u64 b) {
    int p[2];
    if (pipe(p)) exit(2);
    int errFd = memfd_create("err", 0);
    slots[wi].started = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      for (auto& x : ws)
        if (x.pid) close(x.fd);
      childSetup(errFd);
      runChunk(sc, o, a, b, &slots[wi], p[1]);
    }
    close(p[1]);
    w = W();
    w.pid = pid;
    w.fd = p[0];
    w.errFd = errFd;
    w.a = a;
    w.b = b;
    w.start = now();
  };
  auto finish = [&](W& w, size_t wi) {
    int status = 0;
    waitpid(w.pid, &status, 0);
    close(w.fd);
    Rd r{w.buf};
    bool complete = WIFEXITED(status) && WEXITSTATUS(status) == 0;
    if (complete) {
      u64 tag = r.r64();
      if (tag == 1) {
        Cand c;
        c.idx = r.r64();
        c.chunkStart = w.a;
        c.o.kind = (Kind)r.r64();
        c.o.clause = r.rstr();
        c.o.detail = r.rstr();
        c.o.hash = r.r64();
        tag = r.r64();
        if (c.o.kind == Kind::Broken) {
          broken++;
          brokenText = c.o.clause;
        } else if (isKnown(c.o)) {
          knownSeen++;
          if (c.idx + 1 < w.b) pending.push_back({c.idx + 1, w.b});
        } else {
          cands.push_back(c);
          lowestCand = std::min(lowestCand, c.idx);
        }
      }
      T.runs += r.r64();
      T.nontriv += r.r64();
      T.steps += r.r64();
      u64 n = r.r64();
      for (u64 i = 0; i < n; i++) {
        u64 x = r.r64(), y = r.r64();
        hashOf[x] = y;
        hashSet.insert(y);
      }
      n = r.r64();
      for (u64 i = 0; i < n; i++) {
        u64 s = r.r64();
        if (states.size() < 5000000) states.insert(s);
      }
      for (auto* m : {&T.faults, &T.counts, &T.scen}) {
        n = r.r64();
        for (u64 i = 0; i < n; i++) {
          std::string k = r.rstr();
          (*m)[k] += r.r64();
        }
      }
      if (!r.ok) {
        broken++;
        brokenText = "short worker message";
      }
    } else if (slots[wi].started) {
      Cand c;
      c.idx = slots[wi].cur;
      c.chunkStart = w.a;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
        c.o.kind = Kind::Hang;
        c.o.clause = "does-not-terminate";
      } else {
        c.o.kind = Kind::Crash;
        c.o.clause = classifyCrash(status, slurpFd(w.errFd), c.o.detail);
      }
      if (isKnown(c.o)) {
        knownSeen++;
        // runs before the crash in this chunk lost their statistics only
        if (c.idx + 1 < w.b) pending.push_back({c.idx + 1, w.b});
      } else {
        cands.push_back(c);
        lowestCand = std::min(lowestCand, c.idx);
      }
    } else {
      broken++;
      brokenText = "worker died before starting";
    }
    close(w.errFd);
    w = W();
  };

  bool stop = false;
  while (true) {
    double el = now() - t0;
    if (el > o.time || broken) stop = true;
    bool anyRunning = false;
    for (size_t i = 0; i < ws.size(); i++) {
      W& w = ws[i];
      if (!w.pid) {
        u64 a = 0, b = 0;
        if (!pending.empty() && !stop) {
          a = pending.back().first;
          b = pending.back().second;
          pending.pop_back();
        } else if (!stop && nextIdx < o.runs && cands.empty()) {
          a = nextIdx;
          b = std::min(o.runs, nextIdx + CH);
          nextIdx = b;
        }
        if (b > a) launch(w, i, a, b);
      }
      if (w.pid) anyRunning = true;
    }
    if (!anyRunning) break;
    std::vector<struct pollfd> pf;
    std::vector<size_t> ix;
    for (size_t i = 0; i < ws.size(); i++)
      if (ws[i].pid) {
        pf.push_back({ws[i].fd, POLLIN, 0});
        ix.push_back(i);
      }
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size(); k++)
      if (pf[k].revents) {
        char buf[65536];
        ssize_t n = read(pf[k].fd, buf, sizeof buf);
        if (n > 0) ws[ix[k]].buf.append(buf, (size_t)n);
        else finish(ws[ix[k]], ix[k]);
      } else if (cands.size() && ws[ix[k]].a > lowestCand && now() - ws[ix[k]].start > 5) {
        // not needed any more: a lower-numbered candidate exists
        kill(ws[ix[k]].pid, SIGKILL);
        int st;
        waitpid(ws[ix[k]].pid, &st, 0);
        close(ws[ix[k]].fd);
        close(ws[ix[k]].errFd);
        ws[ix[k]] = W();
      }
  }
  double searchWall = now() - t0;
  if (broken) {
    printf("ERROR: simulator problem: %s\n", brokenText.c_str());
    return 2;
  }

  // determinism self-check: re-run a sample of the runs in fresh processes, hashes must match
  u64 detChecked = 0, detBad = 0;
  if (cands.empty()) {
    double d0 = now();
    std::vector<u64> ids;
    for (auto& p : hashOf) ids.push_back(p.first);
    Rng r(o.seed ^ 5);
    for (int k = 0; k < 24 && !ids.empty() && now() - d0 < 15; k++) {
      u64 id = ids[r.below(ids.size())];
      Outcome out = runIsolated({makeHistory(sc, o, id)});
      detChecked++;
      if (hcomb(0, hashOf[id]) != out.hash) {
        detBad++;
        printf("note: run %llu not repeatable across processes\n", (unsigned long long)id);
        Cand c;
        c.idx = id;
        c.o = out;
      }
    }
  }

  int rc = 0;
  u64 violations = 0;
  std::string replayPath;
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
  bool unreproduced = false;
  for (auto& c : cands) {
    Case cs{makeHistory(sc, o, c.idx)};
    Outcome o1 = runIsolated(cs), o2 = runIsolated(cs);
    if (!(o1.bad() && o2.bad() && o1.clause == o2.clause && o1.hash == o2.hash)) {
      // maybe process-global state from the earlier runs of the same chunk matters
      cs.clear();
      for (u64 i = c.chunkStart; i <= c.idx; i++) cs.push_back(makeHistory(sc, o, i));
      o1 = runIsolated(cs);
      o2 = runIsolated(cs);
    }
    if (!(o1.bad() && o2.bad() && o1.clause == o2.clause && o1.hash == o2.hash)) {
      printf("note: candidate at run %llu (%s: %s) did not reproduce exactly: [%s] [%s]\n", (unsigned long long)c.idx,
             c.o.clause.c_str(), c.o.detail.c_str(), o1.clause.c_str(), o2.clause.c_str());
      unreproduced = true;
      continue;
    }
    if (isKnown(o1)) continue;
    size_t origOps = 0;
    for (auto& h : cs) origOps += h.ops.size();
    u64 attempts = 0;
    g_cpuLimit = std::min(g_cpuLimit, 5);
    Case m = minimise(cs, o1, o.tier == "thorough" ? 240 : 75, attempts);
    g_cpuLimit = 20;
    Outcome f1 = runIsolated(m);
    if (!(f1.bad() && f1.clause == o1.clause)) {
      m = cs;
      f1 = o1;
    }
    size_t minOps = 0;
    for (auto& h : m) minOps += h.ops.size();
    std::ostringstream name;
    name << o.replays << "/" << o.prop << "-" << o.seed << "-" << c.idx << ".replay";
    replayPath = name.str();
    {
      std::ofstream out(replayPath);
      writeCase(out, o.prop, m, f1, origOps);
    }
    // gate: a fresh process replaying the file must reproduce exactly
    std::string cmd = "/proc/self/exe";
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    cmd = std::string(exe) + " replay " + replayPath + " --quiet >/dev/null 2>&1";
    int st = system(cmd.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
      printf("note: replay file %s did not reproduce (status %d)\n", replayPath.c_str(), st);
      unreproduced = true;
      continue;
    }
    violations++;
    printf("violation: clause=%s detail=%s\n", f1.clause.c_str(), oneLine(f1.detail).c_str());
    printf("  found at run %llu, history of %zu operations minimised to %zu in %llu attempts\n",
           (unsigned long long)c.idx, origOps, minOps, (unsigned long long)attempts);
    for (auto& h : m) printf("  %s\n", describe(h).c_str());
    printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), replayPath.c_str());
    rc = 1;
    break;
  }
  if (rc == 0 && (unreproduced || detBad)) {
    printf("ERROR: %s\n", detBad ? "runs are not repeatable" : "a candidate violation did not reproduce");
    rc = 2;
  }

  double wall = now() - t0;
  if (!o.evidence.empty()) {
    std::ostringstream j;
    j << "{\n \"property\": \"" << o.prop << "\",\n \"tier\": \"" << o.tier << "\",\n \"seed\": " << o.seed
      << ",\n \"level\": \"" << "exploration" << "\",\n \"coverage\": {\n";
    j << "  \"evaluations\": " << T.runs << ",\n  \"distinct_nontrivial\": " << hashSet.size() << ",\n";
    std::string rule, real, stub;
    for (auto s : sc) {
      rule += (rule.empty() ? "" : " | ") + s->name + ": " + s->rule;
      if (real.find(s->realComponents) == std::string::npos) real += (real.empty() ? "" : "; ") + s->realComponents;
      if (stub.find(s->stubComponents) == std::string::npos) stub += (stub.empty() ? "" : "; ") + s->stubComponents;
    }
    j << "  \"rule\": \"" << jsonEsc("one evaluation = one simulated run (one seed: generated history of operations and faults executed "
                                     "against the real library). Distinct = distinct hash of the whole event log of the run; "
                                     "non-trivial = at least one state-changing operation took effect and was checked. " + rule)
      << "\",\n  \"samples\": [";
    for (u64 k = 0; k < 3 && k < T.runs; k++) {
      History h = makeHistory(sc, o, k);
      j << (k ? ", " : "") << "\"" << jsonEsc(describe(h)) << "\"";
    }
    j << "],\n  \"runs_per_hour\": " << (u64)(searchWall > 0 ? T.runs * 3600.0 / searchWall : 0)

      << ",\n  \"simulated_steps\": " << T.steps << ",\n  \"simulated_time\": \"the library has no timers; simulated time is counted in simulated_steps (operations and delivered events); one run = one seed\",\n  \"distinct_states\": " << states.size()
      << ",\n  \"state_measure\": \"hash of the observable state after each operation, defined per scenario\""
      << ",\n  \"nontrivial_runs\": " << T.nontriv << ",\n  \"faults_injected\": {";
    bool first = true;
    for (auto& kv : T.faults) { j << (first ? "" : ", ") << "\"" << jsonEsc(kv.first) << "\": " << kv.second; first = false; }
    j << "},\n  \"counters\": {";
    first = true;
    for (auto& kv : T.counts) { j << (first ? "" : ", ") << "\"" << jsonEsc(kv.first) << "\": " << kv.second; first = false; }
    j << "},\n  \"runs_per_scenario\": {";
    first = true;
    for (auto& kv : T.scen) { j << (first ? "" : ", ") << "\"" << jsonEsc(kv.first) << "\": " << kv.second; first = false; }
    j << "},\n  \"determinism_rechecked\": " << detChecked << ",\n  \"determinism_mismatches\": " << detBad
      << ",\n  \"known_findings_reproduced\": " << knownHits << ",\n  \"known_findings_met_in_search\": " << knownSeen
      << ",\n  \"real_components\": \"" << jsonEsc(real) << "\",\n  \"stub_components\": \"" << jsonEsc(stub) << "\"\n },\n";
    j << " \"assumptions\": [\"g++ -O1 with AddressSanitizer and libstdc++ assertions behaves like the shipped build\", "
         "\"runs sampled by a seeded generator; absence of a violation is evidence, not proof\"],\n \"wall_s\": "
      << wall << ",\n \"violations\": " << violations << "\n}\n";
    std::ofstream(o.evidence) << j.str();
  }
  printf("%s %s: %llu runs (%llu distinct non-trivial), %llu steps, %zu states, %.1f s, rc=%d\n", o.prop.c_str(),
         o.tier.c_str(), (unsigned long long)T.runs, (unsigned long long)hashSet.size(), (unsigned long long)T.steps,
         states.size(), wall, rc);
  if (getenv("SIM_STATS")) {
    for (auto& kv : T.faults) printf("   fault %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto& kv : T.counts) printf("   count %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto& kv : T.scen) printf("   scen  %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  }
  return rc;
}

static int replayMain(const std::string& path, bool quiet) {
  ReplayFile rf;
  if (!readCase(path, rf)) {
    fprintf(stderr, "cannot read %s\n", path.c_str());
    return 2;
  }
  if (!quiet) {
    for (auto& h : rf.c) printf("%s\n", describe(h).c_str());
    if (getenv("SIM_VERBOSE")) { // run in this process, with the event log
      signal(SIGVTALRM, onHang);
      for (auto& h : rf.c) {
        Ctx ctx;
        ctx.verbose = true;
        Outcome o = executeHere(h, ctx);
        printf("outcome kind=%d clause=%s detail=%s\n", (int)o.kind, o.clause.c_str(), o.detail.c_str());
        if (o.bad()) return 1;
      }
      return 0;
    }
  }
  Outcome o = runIsolated(rf.c);
  printf("replay: kind=%d clause=%s detail=%s hash=%llu (recorded clause=%s hash=%llu)\n", (int)o.kind, o.clause.c_str(),
         o.detail.c_str(), (unsigned long long)o.hash, rf.clause.c_str(), (unsigned long long)rf.hash);
  bool same = o.bad() && o.clause == rf.clause && o.hash == rf.hash;
  return same ? 1 : (o.bad() ? 3 : 0);
}

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "allocator_may_return_null=1:quarantine_size_mb=32:handle_segv=1:detect_stack_use_after_return=0:fast_unwind_on_malloc=1:malloc_context_size=6";
}

int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::string cmd = argv[1];
  if (cmd == "list") {
    for (auto& s : scenarios()) printf("%s %s\n", s.property.c_str(), s.name.c_str());
    return 0;
  }
  if (cmd == "replay") return replayMain(argv[2], argc > 3 && std::string(argv[3]) == "--quiet");
  Opts o;
  i64 one = -1;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") o.prop = v;
    else if (k == "--tier") o.tier = v;
    else if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--runs") o.runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--time") o.time = atof(v.c_str());
    else if (k == "--workers") o.workers = atoi(v.c_str());
    else if (k == "--evidence") o.evidence = v;
    else if (k == "--replays") o.replays = v;
    else if (k == "--known") o.known = v;
    else if (k == "--only") o.only = v;
    else if (k == "--faults") o.faultOnly = atoi(v.c_str());
    else if (k == "--index") one = atoll(v.c_str());
  }
  if (cmd == "one") {
    std::vector<const Scenario*> sc;
    for (auto& s : scenarios())
      if (s.property == o.prop && (o.only.empty() || s.name == o.only)) sc.push_back(&s);
    History h = makeHistory(sc, o, (u64)one);
    printf("%s\n", describe(h).c_str());
    Ctx ctx;
    ctx.verbose = true;
    signal(SIGVTALRM, onHang);
    Outcome out = executeHere(h, ctx);
    printf("kind=%d clause=%s detail=%s hash=%llu steps=%llu\n", (int)out.kind, out.clause.c_str(), out.detail.c_str(),
           (unsigned long long)out.hash, (unsigned long long)ctx.steps);
    for (auto& kv : ctx.counts) printf("  %s=%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    return out.bad() ? 1 : 0;
  }
  if (cmd == "run") return searchMain(o);
  return 2;
}
