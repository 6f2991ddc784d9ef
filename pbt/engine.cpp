#include "engine.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

bool g_thorough = false;
int g_choice_fd = -1;
void mirror_choice(u64 v) { if (write(g_choice_fd, &v, 8) != 8) g_choice_fd = -1; }
static const int SHARDS = 8;

std::string strf(const char* fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}
void fail(const char* fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); throw Fail{buf};
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; }
  return o + "\"";
}

// ---- shared memory with the worker: the case being executed, so that a crash has a reproduction
struct Shm { volatile u64 progress; volatile u64 body; volatile u64 n; u64 rec[512]; volatile u64 seedst; volatile int mode; };

struct Result { u64 evals = 0, nontriv = 0, exh = 0, discards = 0; std::vector<u64> cls; std::vector<std::string> samples; bool budget_hit = false; };

static bool run_one(const Body& b, Src& s, std::string& msg) {
  try { b.fn(s); return true; }
  catch (Fail& f) { msg = f.msg; return false; }
  catch (Discard&) { return true; }
}

// run a choice list in a child process (crash/hang safe). 0 pass, 1 fail, 2 crash, 3 hang
static int run_forked(const Body& b, const std::vector<u64>& ch, std::string& msg, std::string& text, std::vector<u64>& used, int tmo) {
  int fd[2]; if (pipe(fd)) return 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (!p) {
    close(fd[0]); alarm(tmo); signal(SIGALRM, SIG_DFL);
    static Src s; s.replay = true; s.given = ch.data(); s.ngiven = ch.size(); s.want = true;
    std::string m; bool ok = run_one(b, s, m);
    std::string out; out += ok ? 'P' : 'F';
    u64 n = s.nrec; out.append((char*)&n, 8); out.append((char*)s.rec, n * 8);
    u64 l = m.size(); out.append((char*)&l, 8); out += m; out += s.text;
    size_t o = 0; while (o < out.size()) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
    _exit(0);
  }
  close(fd[1]); std::string in; char buf[8192]; ssize_t r;
  while ((r = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, r);
  close(fd[0]); int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { used = ch; msg = strf("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return WTERMSIG(st) == SIGALRM ? 3 : 2; }
  if (in.size() < 17) { used = ch; msg = strf("abnormal exit status %d", WEXITSTATUS(st)); return 2; }
  u64 n; memcpy(&n, &in[1], 8); used.assign(n, 0); if (n) memcpy(used.data(), &in[9], n * 8);
  u64 l; memcpy(&l, &in[9 + n * 8], 8); msg = in.substr(17 + n * 8, l); text = in.substr(17 + n * 8 + l);
  return in[0] == 'F' ? 1 : 0;
}

static bool smaller(const std::vector<u64>& a, const std::vector<u64>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static std::vector<u64> shrink(const Body& b, std::vector<u64> cur, int kind) {
  double end = now() + (kind >= 2 ? 20 : 15);
  auto bad = [&](const std::vector<u64>& c, std::vector<u64>& used) -> bool {
    std::string m, t;
    if (kind >= 2) { int k = run_forked(b, c, m, t, used, 5); return k >= 1; }
    static Src s; s = Src(); s.replay = true; s.given = c.data(); s.ngiven = c.size();
    bool ok = run_one(b, s, m); used.assign(s.rec, s.rec + s.nrec); return !ok;
  };
  bool progress = true;
  auto accept = [&](const std::vector<u64>& c) { std::vector<u64> u; if (!bad(c, u)) return false; if (!smaller(u, cur)) { if (!smaller(c, cur)) return false; u = c; } cur = u; progress = true; return true; };
  while (progress && now() < end) {
    progress = false;
    for (size_t len = std::min<size_t>(cur.size(), 8); len >= 1; len--)
      for (size_t i = 0; i + len <= cur.size() && now() < end;) { auto c = cur; c.erase(c.begin() + i, c.begin() + i + len); if (!accept(c)) i++; }
    for (size_t i = 0; i < cur.size() && now() < end; i++) {
      if (!cur[i]) continue;
      auto c = cur; c[i] = 0; if (accept(c)) continue;
      for (int bit = 63; bit >= 0 && i < cur.size(); bit--) if (cur[i] >> bit & 1) { c = cur; c[i] &= ~(1ull << bit); accept(c); }
      u64 lo = 0; int guard = 0;
      while (i < cur.size() && lo + 1 < cur[i] && guard++ < 80) { u64 mid = lo + (cur[i] - lo) / 2; c = cur; c[i] = mid; if (!accept(c)) lo = mid; }
      if (i < cur.size() && cur[i]) { c = cur; c[i]--; accept(c); }
    }
  }
  return cur;
}

static double g_scale = 1;
static void worker(Check& c, int shard, u64 seed, double deadline, Shm* shm, const std::string& dir) {
  // open addressing set, bounded
  const size_t CAP = g_thorough ? (1u << 23) : (1u << 21); std::vector<u64> tab(CAP, 0); size_t fill = 0;
  auto insert = [&](u64 h) { if (!h) h = 1; if (fill > CAP / 2) return; size_t i = h & (CAP - 1); while (tab[i]) { if (tab[i] == h) return; i = (i + 1) & (CAP - 1); } tab[i] = h; fill++; };
  static Src s;
  std::string failmsg; std::map<int, std::vector<std::vector<u64>>> fails;      // the first failing case of each body (the first few when what ran before matters)
  std::vector<Result> res(c.bodies.size());
  u64 exh_nontriv = 0;
  for (size_t bi = 0; bi < c.bodies.size(); bi++) {
    Body& b = c.bodies[bi]; Result& r = res[bi]; bool failed = false; r.cls.assign(32, 0);
    shm->body = bi;
    auto account = [&](bool exh) {
      r.evals++; if (exh) r.exh++;
      if (s.counted && s.nontrivial) { r.nontriv++; if (exh) exh_nontriv++; else if (!s.covered) insert(mix64(s.h ^ (bi * 77 + 5))); }
      if (!s.counted) r.discards++;
      for (unsigned m = s.cls_bits; m; m &= m - 1) r.cls[__builtin_ctz(m)]++;
      if (s.want && r.samples.size() < 6 && !s.text.empty()) r.samples.push_back(s.text);
    };
    std::vector<u64> ch;
    for (size_t ei = 0; ei < b.exhaustive.size() && !failed; ei++) {
      Exh& e = b.exhaustive[ei];
      for (u64 i = shard; i < e.count; i += SHARDS) {
        ch.clear(); e.make(i, ch);
        s.replay = true; s.given = ch.data(); s.ngiven = ch.size(); s.nrec = 0; s.counted = false; s.nontrivial = false; s.cls_bits = 0; s.covered = false; s.want = (i / SHARDS) % 50021 == 17; s.text.clear();
        shm->n = ch.size(); memcpy(shm->rec, ch.data(), ch.size() * 8); shm->mode = 1; shm->progress = shm->progress + 1;
        if (!run_one(b, s, failmsg)) { fails[bi].emplace_back(s.rec, s.rec + s.nrec); if (c.forked && fails[bi].size() < 25) continue; failed = true; break; }
        account(true);
        if ((r.evals & 0xfff) == 0 && now() > deadline) { r.budget_hit = true; break; }
      }
    }
    u64 total = (u64)((g_thorough ? b.thorough : b.quick) * 1000 * g_scale) / SHARDS;
    for (u64 i = 0; i < total && !failed; i++) {
      s.replay = false; s.nrec = 0; s.counted = false; s.nontrivial = false; s.cls_bits = 0; s.covered = false; s.text.clear();
      s.want = (i % 20011) == 7;
      s.st = mix64(mix64(seed * 1000003 + bi) ^ (i * SHARDS + shard));
      shm->seedst = s.st; shm->mode = 2; shm->progress = shm->progress + 1;
      if (!run_one(b, s, failmsg)) { fails[bi].emplace_back(s.rec, s.rec + s.nrec); if (c.forked && fails[bi].size() < 25) continue; failed = true; break; }
      account(false);
      if ((i & 0xff) == 0 && now() > deadline) { r.budget_hit = true; break; }
    }
  }
  FILE* f = fopen((dir + strf("/w%d.json", shard)).c_str(), "w");
  fprintf(f, "{\"fail\":%d,\"exh_nontriv\":%llu,\"bodies\":[", (int)fails.size(), (unsigned long long)exh_nontriv);
  for (size_t bi = 0; bi < res.size(); bi++) {
    Result& r = res[bi]; fprintf(f, "%s{\"evals\":%llu,\"nontriv\":%llu,\"exh\":%llu,\"discards\":%llu,\"budget_hit\":%d,\"cls\":[", bi ? "," : "", (unsigned long long)r.evals, (unsigned long long)r.nontriv, (unsigned long long)r.exh, (unsigned long long)r.discards, (int)r.budget_hit);
    for (size_t k = 0; k < c.bodies[bi].classes.size(); k++) fprintf(f, "%s%llu", k ? "," : "", r.cls.empty() ? 0ull : (unsigned long long)r.cls[k]);
    fprintf(f, "],\"samples\":[");
    for (size_t k = 0; k < r.samples.size(); k++) fprintf(f, "%s%s", k ? "," : "", jstr(r.samples[k]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]}"); fclose(f);
  f = fopen((dir + strf("/w%d.hash", shard)).c_str(), "w");
  for (u64 h : tab) if (h) fwrite(&h, 8, 1, f);
  fclose(f);
  if (!fails.empty()) {
    f = fopen((dir + strf("/w%d.fail", shard)).c_str(), "w");
    for (auto& p : fails) for (auto& q : p.second) { u64 n = q.size(), bb = p.first; fwrite(&bb, 8, 1, f); fwrite(&n, 8, 1, f); fwrite(q.data(), 8, n, f); }
    fclose(f);
  }
  _exit(0);
}

// usage: check --out DIR --seed N --tier quick|thorough [--deadline SECONDS] | --replay BODY c0 c1 ...
int engine_main(int argc, char** argv, Check& c) {
  std::string dir = "."; u64 seed = 1; double limit = 0; bool replay = false; std::string rbody; std::vector<u64> rch;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") dir = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--tier") g_thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--scale") g_scale = atof(argv[++i]);
    else if (a == "--deadline") limit = atof(argv[++i]);
    else if (a == "--replay") { replay = true; rbody = argv[++i]; while (i + 1 < argc) rch.push_back(strtoull(argv[++i], 0, 10)); }
  }
  { rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); }
  if (c.init) c.init(g_thorough);
  if (replay) {
    for (Body& b : c.bodies) if (b.name == rbody) {
      std::string m, t; std::vector<u64> u; int k = run_forked(b, rch, m, t, u, 30);
      printf("%s\ncase: %s\n%s\n", k ? "FAILS" : "passes", t.c_str(), m.c_str()); return k ? 1 : 0;
    }
    printf("no such body\n"); return 2;
  }
  double t0 = now(); if (!limit) limit = g_thorough ? 2400 : 300;
  double deadline = t0 + limit;
  Shm* shm = (Shm*)mmap(0, sizeof(Shm) * SHARDS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(SHARDS); fflush(stdout);
  for (int w = 0; w < SHARDS; w++) { pid[w] = fork(); if (!pid[w]) worker(c, w, seed, deadline, &shm[w], dir); }
  struct Bad { int body; std::vector<u64> ch; int kind; };
  std::vector<Bad> bads; std::vector<bool> done(SHARDS, false); int left = SHARDS;
  std::vector<u64> lastp(SHARDS, 0); std::vector<double> lastt(SHARDS, now());
  while (left) {
    usleep(20000);
    for (int w = 0; w < SHARDS; w++) if (!done[w]) {
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool died = false; int kind = 2;
      if (r == pid[w]) { done[w] = true; left--; died = WIFSIGNALED(st) || WEXITSTATUS(st) != 0; }
      else if (shm[w].progress != lastp[w]) { lastp[w] = shm[w].progress; lastt[w] = now(); }
      else if (now() - lastt[w] > 120) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); done[w] = true; left--; died = true; kind = 3; }
      if (died) {
        Bad b; b.body = shm[w].body; b.kind = kind;
        if (shm[w].mode == 1) b.ch.assign(shm[w].rec, shm[w].rec + shm[w].n);
        else { b.ch.push_back((u64)shm[w].seedst); b.kind = kind + 10; }   // generated: choices are recovered from the seed below
        bads.push_back(b);
      }
    }
  }
  for (int w = 0; w < SHARDS; w++) {
    FILE* f = fopen((dir + strf("/w%d.fail", w)).c_str(), "r");
    if (!f) continue;
    u64 bb, n;
    while (fread(&bb, 8, 1, f) == 1 && fread(&n, 8, 1, f) == 1) { Bad b; b.body = bb; b.kind = 1; b.ch.resize(n); if (fread(b.ch.data(), 8, n, f) != n) break; bads.push_back(b); }
    fclose(f);
  }
  // distinct count over all workers
  std::vector<u64> all;
  for (int w = 0; w < SHARDS; w++) { FILE* f = fopen((dir + strf("/w%d.hash", w)).c_str(), "r"); if (f) { u64 b[4096]; size_t n; while ((n = fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + n); fclose(f); } unlink((dir + strf("/w%d.hash", w)).c_str()); }
  std::sort(all.begin(), all.end()); u64 distinct = std::unique(all.begin(), all.end()) - all.begin();
  FILE* o = fopen((dir + "/summary.json").c_str(), "w");
  fprintf(o, "{\"distinct_generated\":%llu,\"rule\":%s,\"wall\":%.2f,\"bodies\":[", (unsigned long long)distinct, jstr(c.rule).c_str(), now() - t0);
  for (size_t i = 0; i < c.bodies.size(); i++) { fprintf(o, "%s{\"name\":%s,\"classes\":[", i ? "," : "", jstr(c.bodies[i].name).c_str()); for (size_t k = 0; k < c.bodies[i].classes.size(); k++) fprintf(o, "%s%s", k ? "," : "", jstr(c.bodies[i].classes[k]).c_str()); fprintf(o, "]}"); }
  fprintf(o, "],\"assumptions\":["); for (size_t i = 0; i < c.assumptions.size(); i++) fprintf(o, "%s%s", i ? "," : "", jstr(c.assumptions[i]).c_str());
  fprintf(o, "],\"failures\":[");
  int nf = 0; std::map<int, int> perbody;
  for (Bad& b : bads) {
    if (perbody[b.body] >= 1) continue;       // one minimal reproduction per body
    Body& B = c.bodies[b.body];
    if (c.forked && b.kind == 1 && &b != &bads.back()) { std::string m, t; std::vector<u64> u; if (!run_forked(B, b.ch, m, t, u, 10)) continue; }      // needed what ran before it: look for one that stands alone
    perbody[b.body]++;
    int kind = b.kind; std::vector<u64> ch = b.ch;
    if (kind >= 10) {  // crash in a generated case: recover the choices, then confirm
      kind -= 10; ch.clear();
      int fd[2]; if (pipe(fd) == 0) { fflush(stdout); pid_t p = fork(); if (!p) { alarm(10); close(fd[0]); static Src t; t.st = b.ch[0]; g_choice_fd = fd[1]; std::string m; run_one(B, t, m); _exit(0); } close(fd[1]); u64 v; while (read(fd[0], &v, 8) == 8) ch.push_back(v); close(fd[0]); int st; waitpid(p, &st, 0); }
    }
    if (c.forked && kind == 1) kind = 2;
    std::vector<u64> mn = shrink(B, ch, kind);
    std::string m, t; std::vector<u64> used; int hits = 0;
    for (int k = 0; k < 3; k++) if (run_forked(B, mn, m, t, used, 10) >= 1) hits++;
    if (hits < 3) { mn = ch; hits = 0; for (int k = 0; k < 3; k++) if (run_forked(B, mn, m, t, used, 10) >= 1) hits++; }
    if (hits < 3) { fprintf(stderr, "unconfirmed failure in %s (replayed %d of 3)\n", B.name.c_str(), hits); }
    fprintf(o, "%s{\"body\":%s,\"hits\":%d,\"message\":%s,\"case\":%s,\"choices\":[", nf++ ? "," : "", jstr(B.name).c_str(), hits, jstr(m).c_str(), jstr(t).c_str());
    for (size_t k = 0; k < mn.size(); k++) fprintf(o, "%s%llu", k ? "," : "", (unsigned long long)mn[k]);
    fprintf(o, "]}");
  }
  fprintf(o, "]}"); fclose(o);
  return bads.empty() ? 0 : 1;
}
