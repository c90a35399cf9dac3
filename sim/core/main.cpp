// Command line: batches of runs, replay, minimisation.
#include "internal.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct Scn { const char *name; void (*run)(); };
static vec<Scn> &scns() { static vec<Scn> *v; if (!v) { v = (vec<Scn> *)malloc(sizeof *v); new (v) vec<Scn>(); } return *v; }
extern "C" SIM_API void sim_register(const char *name, void (*run)(void)) { scns().push_back(Scn{name, run}); }
static omap<str, str> &params() { static omap<str, str> *v; if (!v) { v = (omap<str, str> *)malloc(sizeof *v); new (v) omap<str, str>(); } return *v; }
extern "C" SIM_API const char *sim_param(const char *n) { auto it = params().find(n); return it == params().end() ? nullptr : it->second.c_str(); }

static double now_s() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}

static const char *KN[SIM_NKINDS] = {"CFG", "PREEMPT", "PICK", "TASK", "NET", "FAULT", "CHUNK", "HEAP", "DATA"};
static const char *FN[SIM_NFAULTS] = {"net_error", "locality_crash", "alloc_failure", "worker_stall", "slow_message", "clock_jump", "payload_bitflip"};

struct Slot { Result *res; uint32_t *out[SIM_NKINDS]; };
static Slot make_slot() {
  Slot s;
  s.res = (Result *)shm(sizeof(Result));
  for (int k = 0; k < SIM_NKINDS; k++) s.out[k] = (uint32_t *)shm(sizeof(uint32_t) * STREAM_CAP[k]);
  return s;
}
static int wall_limit = 60;

// one run in a child process; the result is in slot.res
static void run_child(Slot &s, const char *scn, uint64_t seed, Streams *in, const char *tracefile) {
  memset(s.res, 0, sizeof(Result));
  void (*fn)() = nullptr;
  for (auto &x : scns()) if (!strcmp(x.name, scn)) fn = x.run;
  if (!fn) { fprintf(stderr, "unknown scenario %s\n", scn); _exit(3); }
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGALRM, SIG_DFL);
    itimerval it{}; it.it_value.tv_sec = wall_limit; setitimer(ITIMER_REAL, &it, nullptr);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int dn = open("/dev/null", O_RDWR);
    if (!sim_param("verbose")) { dup2(dn, 1); if (!tracefile) dup2(dn, 2); }
    g.res = s.res;
    for (int k = 0; k < SIM_NKINDS; k++) g.out[k] = s.out[k];
    g.seed = seed;
    g.thorough = sim_param("thorough") != nullptr;
    if (in) { g.replay = true; g.in = *in; }
    if (tracefile) { g.trace = true; g.tracef = fopen(tracefile, "w"); if (!g.tracef) _exit(3); setvbuf(g.tracef, nullptr, _IOLBF, 1 << 16); }
    core_run(fn);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Result *r = s.res;
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0) || r->status == 0) {
    const char *cls = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash";
    if (r->nvio < MAXVIO) {
      auto &v = r->vio[r->nvio++];
      snprintf(v.cls, sizeof v.cls, "%s", cls);
      if (WIFSIGNALED(st)) snprintf(v.detail, sizeof v.detail, "run ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
      else snprintf(v.detail, sizeof v.detail, "process exited with status %d inside the run", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      v.pc = 0;
    }
    r->status = 3;
  }
}

// ---- replay files ------------------------------------------------------------------------
static void write_replay(FILE *f, Slot &s, const char *scn, uint64_t seed, const char *cls) {
  fprintf(f, "simreplay 1\nscenario %s\nseed %llu\nclass %s\nhash %llx\n", scn, (unsigned long long)seed, cls, (unsigned long long)s.res->hash);
  for (auto &p : params()) if (p.first != "verbose") fprintf(f, "param %s %s\n", p.first.c_str(), p.second.c_str());
  for (int k = 0; k < SIM_NKINDS; k++) {
    uint32_t n = s.res->len[k];
    while (n && s.out[k][n - 1] == 0) n--;
    fprintf(f, "stream %s %u:", KN[k], n);
    for (uint32_t i = 0; i < n; i++) if (s.out[k][i]) fprintf(f, " %u=%u", i, s.out[k][i]);
    fputc('\n', f);
  }
  for (uint32_t i = 0; i < s.res->nvio; i++) fprintf(f, "# violation %s: %s (pc %llx)\n", s.res->vio[i].cls, s.res->vio[i].detail, (unsigned long long)s.res->vio[i].pc);
  fprintf(f, "# input %s\n", s.res->note);
}
struct Rep { str scn, cls; uint64_t seed, hash; Streams st; vec<uint32_t> v[SIM_NKINDS]; };
static bool read_replay(const char *path, Rep &r) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  bool ok = false;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    char a[200], b[200];
    if (!strncmp(line, "simreplay 1", 11)) ok = true;
    else if (sscanf(line, "scenario %199s", a) == 1) r.scn = a;
    else if (sscanf(line, "class %199s", a) == 1) r.cls = a;
    else if (!strncmp(line, "seed ", 5)) r.seed = strtoull(line + 5, nullptr, 10);
    else if (!strncmp(line, "hash ", 5)) r.hash = strtoull(line + 5, nullptr, 16);
    else if (sscanf(line, "param %199s %199s", a, b) == 2) params()[a] = b;
    else if (!strncmp(line, "stream ", 7)) {
      int k = -1; unsigned len;
      if (sscanf(line + 7, "%199s %u:", a, &len) != 2) continue;
      for (int i = 0; i < SIM_NKINDS; i++) if (!strcmp(a, KN[i])) k = i;
      if (k < 0 || len > (unsigned)STREAM_CAP[k]) continue;
      r.v[k].assign(len, 0);
      char *p = strchr(line, ':') + 1;
      while (*p) {
        char *e; unsigned long i = strtoul(p, &e, 10);
        if (e == p || *e != '=') break;
        unsigned long val = strtoul(e + 1, &p, 10);
        if (i < len) r.v[k][i] = (uint32_t)val;
      }
    }
  }
  free(line); fclose(f);
  return ok;
}
static Streams view(Rep &r) { Streams s; for (int k = 0; k < SIM_NKINDS; k++) { s.s[k] = r.v[k].data(); s.len[k] = r.v[k].size(); } return s; }
static bool has_class(Result *r, str const &c) { for (uint32_t i = 0; i < r->nvio; i++) if (c == r->vio[i].cls) return true; return false; }

static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void print_result(Result *r) {
  printf("{\"status\":%u,\"hash\":\"%llx\",\"steps\":%llu,\"simtime_ns\":%llu,\"switches\":%llu,\"note\":", r->status, (unsigned long long)r->hash,
         (unsigned long long)r->steps, (unsigned long long)r->simtime, (unsigned long long)r->switches);
  jstr(stdout, r->note); printf(",\"why\":"); jstr(stdout, r->why);
  printf(",\"violations\":[");
  for (uint32_t i = 0; i < r->nvio; i++) {
    printf("%s{\"class\":", i ? "," : ""); jstr(stdout, r->vio[i].cls); printf(",\"detail\":"); jstr(stdout, r->vio[i].detail);
    printf(",\"pc\":\"%llx\"}", (unsigned long long)r->vio[i].pc);
  }
  printf("]}\n");
}

// ---- minimisation ----------------------------------------------------------------------------
static int minimize(const char *in, const char *out, double budget) {
  Rep r;
  if (!read_replay(in, r)) { fprintf(stderr, "cannot read %s\n", in); return 3; }
  Slot s = make_slot();
  double t0 = now_s();
  int tries = 0;
  auto ok = [&]() {
    tries++;
    Streams st = view(r);
    run_child(s, r.scn.c_str(), r.seed, &st, nullptr);
    return has_class(s.res, r.cls);
  };
  if (!ok()) { printf("{\"reproduced\":false}\n"); return 4; }
  auto left = [&]() { return now_s() - t0 < budget; };
  // work on what the run actually consumed, from the least essential kind to the configuration
  static const int order[] = {SIM_K_PREEMPT, SIM_K_PICK, SIM_K_TASK, SIM_K_NET, SIM_K_CHUNK, SIM_K_HEAP, SIM_K_FAULT, SIM_K_CFG};
  for (int round = 0; round < 3 && left(); round++) {
    bool changed = false;
    for (int k : order) {
      auto &v = r.v[k];
      while (!v.empty() && v.back() == 0) v.pop_back();
      if (v.empty() || !left()) continue;
      vec<uint32_t> save = v;
      v.clear();
      if (ok()) { changed = true; continue; }
      v = save;
      size_t lo = 0, hi = v.size();          // shortest prefix that still fails (not monotone: best effort)
      while (hi - lo > 1 && left()) {
        size_t mid = (lo + hi) / 2;
        save = v; v.resize(mid);
        if (ok()) { hi = mid; changed = true; } else { v = save; lo = mid; }
      }
      for (size_t blk = std::max<size_t>(1, v.size() / 2); left(); blk /= 2) {   // zero blocks
        for (size_t i = 0; i < v.size() && left(); i += blk) {
          size_t e = std::min(v.size(), i + blk);
          bool any = false; for (size_t j = i; j < e; j++) any |= v[j] != 0;
          if (!any) continue;
          save = v;
          for (size_t j = i; j < e; j++) v[j] = 0;
          if (ok()) changed = true; else v = save;
        }
        if (blk == 1) break;
      }
      if (k == SIM_K_CFG || k == SIM_K_FAULT || k == SIM_K_CHUNK)
        for (size_t i = 0; i < v.size() && left(); i++) {
          uint32_t a = 0, b = v[i];              // smallest value that still fails (bisection, best effort)
          while (b - a > 1 && left()) { uint32_t m = a + (b - a) / 2, o = v[i]; v[i] = m; if (ok()) { b = m; changed = true; } else { v[i] = o; a = m; } }
        }
    }
    if (!changed) break;
  }
  if (!ok()) { printf("{\"reproduced\":false}\n"); return 4; }
  FILE *f = fopen(out, "w");
  if (!f) return 3;
  write_replay(f, s, r.scn.c_str(), r.seed, r.cls.c_str());
  fclose(f);
  printf("{\"reproduced\":true,\"tries\":%d,\"result\":", tries); print_result(s.res); printf("}\n");
  return 0;
}

// ---- batches ---------------------------------------------------------------------------------------
struct Stat {
  uint64_t runs, incon, steps, simtime, switches, preempts, tasks, parcels, allocs, faults[SIM_NFAULTS], fault_runs[SIM_NFAULTS];
  uint64_t concurrent;
  uint64_t maxsteps;
  uint32_t nprobe; struct { char n[40]; uint64_t c; } probe[64];
  uint32_t ncls; struct { char n[40]; uint64_t c; } cls[40];
  uint32_t nnote; char note[6][600];
};
static int batch(int argc, char **argv) {
  vec<str> list; str classes, outdir = "."; uint64_t base = 1; long runs = 100; double tmax = 60; int jobs = 8; int maxvio = 3; long from = 0;
  for (int i = 2; i + 1 < argc; i += 2) {
    str a = argv[i], v = argv[i + 1];
    if (a == "--scenarios") { size_t p = 0; while (p <= v.size()) { size_t q = v.find(',', p); if (q == str::npos) q = v.size(); if (q > p) list.push_back(v.substr(p, q - p)); p = q + 1; } }
    else if (a == "--classes") classes = "," + v + ",";
    else if (a == "--seed") base = strtoull(v.c_str(), 0, 10);
    else if (a == "--runs") runs = atol(v.c_str());
    else if (a == "--from") from = atol(v.c_str());
    else if (a == "--time") tmax = atof(v.c_str());
    else if (a == "--jobs") jobs = atoi(v.c_str());
    else if (a == "--wall") wall_limit = atoi(v.c_str());
    else if (a == "--maxvio") maxvio = atoi(v.c_str());
    else if (a == "--outdir") outdir = v;
    else if (a == "--param") { size_t e = v.find('='); params()[v.substr(0, e)] = v.substr(e + 1); }
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  if (list.empty()) return 3;
  for (auto &l : list) { bool k = false; for (auto &x : scns()) k |= l == x.name; if (!k) { fprintf(stderr, "unknown scenario %s\n", l.c_str()); return 3; } }
  Stat *st = (Stat *)shm(sizeof(Stat) * jobs);
  uint64_t *ih = (uint64_t *)shm(sizeof(uint64_t) * 2 * (runs + 1));
  volatile long *ctl = (volatile long *)shm(4096); // [0] violations dumped, [1] next run
  double t0 = now_s();
  ctl[1] = from;
  vec<pid_t> pids;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p) { pids.push_back(p); continue; }
    Slot s = make_slot();
    Stat &S = st[j];
    for (;;) {
      if (ctl[0] >= maxvio || now_s() - t0 > tmax) break;
      long i = __sync_fetch_and_add((long *)&ctl[1], 1);
      if (i >= from + runs) break;
      str &scn = list[i % list.size()];
      uint64_t h = base; for (char c : scn) h = h * 131 + (unsigned char)c;
      uint64_t seed = sync_mix(h ^ sync_mix(i + 0x1234567));
      run_child(s, scn.c_str(), seed, nullptr, nullptr);
      Result *r = s.res;
      S.runs++; S.incon += r->status == 2; S.steps += r->steps; S.simtime += r->simtime; S.switches += r->switches; S.preempts += r->preempts;
      S.tasks += r->tasks; S.parcels += r->parcels; S.allocs += r->allocs; S.concurrent += r->switches > 0;
      if (r->steps > S.maxsteps) S.maxsteps = r->steps;
      for (int f = 0; f < SIM_NFAULTS; f++) { S.faults[f] += r->faults[f]; S.fault_runs[f] += r->faults[f] > 0; }
      for (uint32_t k = 0; k < r->nprobe; k++) {
        uint32_t x = 0; while (x < S.nprobe && strcmp(S.probe[x].n, r->probe[k])) x++;
        if (x == S.nprobe) { if (x == 64) continue; strcpy(S.probe[x].n, r->probe[k]); S.nprobe++; }
        S.probe[x].c++;
      }
      ih[2 * (i - from)] = r->switches ? r->ihash : 0; ih[2 * (i - from) + 1] = r->hash;
      if (S.nnote < 6) snprintf(S.note[S.nnote++], 600, "%s seed=%llu %s steps=%llu switches=%llu", scn.c_str(), (unsigned long long)seed, r->note, (unsigned long long)r->steps, (unsigned long long)r->switches);
      for (uint32_t k = 0; k < r->nvio; k++) {
        uint32_t x = 0; while (x < S.ncls && strcmp(S.cls[x].n, r->vio[k].cls)) x++;
        if (x == S.ncls) { if (x == 40) continue; strcpy(S.cls[x].n, r->vio[k].cls); S.ncls++; }
        S.cls[x].c++;
      }
      for (uint32_t k = 0; k < r->nvio; k++) {
        str key = str(",") + r->vio[k].cls + ",";
        if (classes.find(key) == str::npos) continue;
        if (__sync_fetch_and_add((long *)&ctl[0], 1) < maxvio) {
          char path[4096]; snprintf(path, sizeof path, "%s/raw-%06ld.replay", outdir.c_str(), i);
          FILE *f = fopen(path, "w");
          if (f) { write_replay(f, s, scn.c_str(), seed, r->vio[k].cls); fclose(f); }
        }
        break;
      }
    }
    _exit(0);
  }
  for (pid_t p : pids) waitpid(p, nullptr, 0);
  Stat T{};
  omap<str, uint64_t> pr, cl;
  for (int j = 0; j < jobs; j++) {
    Stat &S = st[j];
    T.runs += S.runs; T.incon += S.incon; T.steps += S.steps; T.simtime += S.simtime; T.switches += S.switches; T.preempts += S.preempts;
    T.tasks += S.tasks; T.parcels += S.parcels; T.allocs += S.allocs; T.concurrent += S.concurrent; T.maxsteps = std::max(T.maxsteps, S.maxsteps);
    for (int f = 0; f < SIM_NFAULTS; f++) { T.faults[f] += S.faults[f]; T.fault_runs[f] += S.fault_runs[f]; }
    for (uint32_t k = 0; k < S.nprobe; k++) pr[S.probe[k].n] += S.probe[k].c;
    for (uint32_t k = 0; k < S.ncls; k++) cl[S.cls[k].n] += S.cls[k].c;
  }
  vec<uint64_t> hs, is;
  for (long i = 0; i < runs; i++) { if (ih[2 * i]) is.push_back(ih[2 * i]); if (ih[2 * i + 1]) hs.push_back(ih[2 * i + 1]); }
  uint64_t fingerprint = 0; for (uint64_t h : hs) fingerprint = sync_mix(fingerprint ^ h);
  std::sort(is.begin(), is.end()); is.erase(std::unique(is.begin(), is.end()), is.end());
  std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
  printf("{\"runs\":%llu,\"inconclusive\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"max_steps\":%llu,\"simtime_ns\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"tasks\":%llu,\"messages\":%llu,\"allocations\":%llu,\"runs_with_switches\":%llu,\"distinct_interleavings\":%zu,\"distinct_executions\":%zu,\"fingerprint\":\"%llx\"",
         (unsigned long long)T.runs, (unsigned long long)T.incon, now_s() - t0, (unsigned long long)T.steps, (unsigned long long)T.maxsteps, (unsigned long long)T.simtime,
         (unsigned long long)T.switches, (unsigned long long)T.preempts, (unsigned long long)T.tasks, (unsigned long long)T.parcels, (unsigned long long)T.allocs,
         (unsigned long long)T.concurrent, is.size(), hs.size(), (unsigned long long)fingerprint);
  printf(",\"faults\":{");
  bool first = true;
  for (int f = 0; f < SIM_NFAULTS; f++) if (T.faults[f]) { printf("%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", first ? "" : ",", FN[f], (unsigned long long)T.faults[f], (unsigned long long)T.fault_runs[f]); first = false; }
  printf("},\"probes\":{");
  first = true; for (auto &p : pr) { printf("%s", first ? "" : ","); jstr(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
  printf("},\"classes\":{");
  first = true; for (auto &p : cl) { printf("%s", first ? "" : ","); jstr(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
  printf("},\"samples\":[");
  first = true; for (int j = 0; j < jobs; j++) for (uint32_t k = 0; k < st[j].nnote && k < 2; k++) { printf("%s", first ? "" : ","); jstr(stdout, st[j].note[k]); first = false; }
  printf("]}\n");
  return 0;
}

extern "C" SIM_API int sim_main(int argc, char **argv) {
  mem_init_global();
  str cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (auto &s : scns()) printf("%s\n", s.name); return 0; }
  if (cmd == "batch") return batch(argc, argv);
  if (cmd == "replay" && argc >= 3) {
    Rep r;
    const char *trace = nullptr;
    for (int i = 3; i < argc; i++) { if (!strcmp(argv[i], "--trace") && i + 1 < argc) trace = argv[++i]; if (!strcmp(argv[i], "--verbose")) params()["verbose"] = "1"; if (!strcmp(argv[i], "--wall") && i + 1 < argc) wall_limit = atoi(argv[++i]); }
    if (!read_replay(argv[2], r)) return 3;
    Slot s = make_slot();
    Streams st = view(r);
    run_child(s, r.scn.c_str(), r.seed, &st, trace);
    print_result(s.res);
    return has_class(s.res, r.cls) && s.res->hash == r.hash ? 1 : 0;
  }
  if (cmd == "one" && argc >= 4) {
    for (int i = 4; i < argc; i++) { if (!strcmp(argv[i], "--verbose")) params()["verbose"] = "1"; else { str v = argv[i]; size_t e = v.find('='); if (e != str::npos) params()[v.substr(0, e)] = v.substr(e + 1); } }
    Slot s = make_slot();
    run_child(s, argv[2], strtoull(argv[3], 0, 10), nullptr, sim_param("trace"));
    print_result(s.res);
    return 0;
  }
  if (cmd == "minimize" && argc >= 5) return minimize(argv[2], argv[3], atof(argv[4]));
  fprintf(stderr, "usage: list | batch ... | replay FILE [--trace OUT] | one SCENARIO SEED | minimize IN OUT SECONDS\n");
  return 3;
}
