#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <strings.h>
#include <cstdlib>
#include <cerrno>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>

std::string strf(const char* fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return std::string(b, n < (int)sizeof b ? n : (int)sizeof b - 1); }
std::string join(const std::vector<std::string>& v, const char* sep) { std::string o; for (size_t i = 0; i < v.size(); i++) { if (i) o += sep; o += v[i]; } return o; }
// the bar that ends the line which begins at p: "|" in quotes is text, other bars in a string left open end the line
size_t line_bar(const std::string& s, size_t p) {
  bool q = false;
  for (size_t i = p; i < s.size(); i++) {
    if (s[i] == '"') q = !q;
    if (s[i] != '|') continue;
    bool text = q && i > p && s[i - 1] == '"' && (s.compare(i + 1, 1, "\"") == 0 || s.compare(i + 1, 2, "e\"") == 0);
static FILE* dbg = getenv("LBMC_QUOTE") ? fopen(getenv("LBMC_QUOTE"), "a") : nullptr; if (dbg && q) { fprintf(dbg, "%s %s\n", text ? "TEXT" : "OPEN", s.substr(i < 25 ? 0 : i - 25, 45).c_str()); fflush(dbg); }
    if (!text) return i;
  }
  return std::string::npos;
}
std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> v; size_t p = 0;
  if (s.empty()) return v;
  for (;;) { size_t e = line_bar(s, p); if (e == std::string::npos) { v.push_back(s.substr(p) + "\n"); return v; } v.push_back(s.substr(p, e - p) + "\n"); p = e + 1; }
}
Case session(const std::string& s) { Case c; c.argv = {"-q"}; c.in = lines_of(s); return c; }
Case program(const std::string& s) { Case c; c.argv = {"-q", "P"}; for (auto& l : lines_of(s)) c.files["P"] += l; return c; }

Shared* shared;
static uint64_t* table; static size_t table_size;
static const size_t HASH_BITS = 25;
uint64_t visit_state(uint64_t h) {
  if (!h) h = 1;
  __sync_fetch_and_add(&shared->transitions, 1);
  if (shared->saturated) return 0;
  size_t i = (h * 0x9E3779B97F4A7C15ULL) >> (64 - HASH_BITS);
  for (int k = 0; k < 64; k++, i = (i + 1) & (table_size - 1)) {
    uint64_t v = __atomic_load_n(&table[i], __ATOMIC_RELAXED);
    if (v == h) return 0;
    if (!v) {
      if (__sync_bool_compare_and_swap(&table[i], 0, h)) { long n = __sync_add_and_fetch(&shared->states, 1); if ((size_t)n > table_size * 3 / 4) shared->saturated = 1; return 1; }
      if (table[i] == h) return 0;
    }
  }
  return 0;
}

std::string check_to_text(const Check& c, const std::string& prop, const std::string& why) {
  std::string o = "property " + prop + "\noracle " + c.oracle + "\n";
  if (!c.param.empty()) o += "param " + esc(c.param) + "\n";
  if (!why.empty()) o += "why " + esc(why) + "\n";
  for (auto& k : c.cases) o += "case\n" + case_to_text(k);
  return o;
}
bool check_from_text(const std::string& t, Check& c, std::string& prop) {
  c = Check(); size_t p = 0; std::string cur; bool in = false;
  auto flush = [&] { if (in) { Case k; if (!case_from_text(cur, k)) return false; c.cases.push_back(k); } cur.clear(); return true; };
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(p, e - p); p = e + 1;
    if (l == "case") { if (!flush()) return false; in = true; }
    else if (in) cur += l + "\n";
    else if (l.compare(0, 9, "property ") == 0) prop = l.substr(9);
    else if (l.compare(0, 7, "oracle ") == 0) c.oracle = l.substr(7);
    else if (l.compare(0, 6, "param ") == 0) c.param = unesc(l.substr(6));
  }
  return flush() && oracles.count(c.oracle);
}

// ------------------------------------------------------------------ comparison with the model
void impl_run(const Case& c, Result& r, const RunOpts& o) {
  rt_run(c, o, r);
  __sync_fetch_and_add(&shared->traces, 1);
}
std::string normal(const std::string& s) { // the sign of a NaN is not specified
  if (s.find("-nan") == std::string::npos) return s;
  std::string o; for (size_t i = 0; i < s.size(); i++) { if (s.compare(i, 4, "-nan") == 0) continue; o += s[i]; } return o;
}
static std::string show(const std::string& a, const std::string& b) { // first difference
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 60 ? i - 60 : 0;
  return strf("at byte %zu: expected \"...%s\" got \"...%s\"", i, esc(a.substr(f, 160)).c_str(), esc(b.substr(f, 160)).c_str());
}
static std::string compare_err(const std::string& err, const std::vector<mdl::ErrRec>& recs) {
  size_t nr = 0, n = 0; for (auto& r : recs) nr += r.kind == 'R';
  for (size_t p = 0; (p = err.find("Runtime error", p)) != std::string::npos; p++) n++;
  if (n != nr) return strf("%zu runtime errors expected, %zu reported; stderr \"%s\"", nr, n, esc(err.substr(0, 300)).c_str());
  if (recs.empty()) return err.empty() ? "" : "unexpected message on stderr: \"" + esc(err.substr(0, 300)) + "\"";
  size_t p = 0;
  for (auto& r : recs) {
    if (r.kind == 'F') { if (err.empty()) return "a file error was not reported"; continue; }
    size_t from = p, to = err.size();
    if (r.kind == 'R') { from = err.find("Runtime error", p); if (from == std::string::npos) return "runtime errors out of order"; to = err.find("Runtime error", from + 5); if (to == std::string::npos) to = err.size(); }
    bool ok = false; size_t end = from + 5;
    for (auto& l : r.lines) { size_t q = err.find(l, from); if (q != std::string::npos && q + l.size() <= to) { ok = true; if (!l.empty() && r.kind == 'P') end = q + l.size(); break; } }
    if (r.lines.empty()) ok = true;
    if (!ok) return strf("the offending line \"%s\" was not shown; stderr \"%s\"", esc(r.lines[0]).c_str(), esc(err.substr(0, 300)).c_str());
    p = end;
  }
  return "";
}
// the log goes to stderr; listing names may complain about what cannot be a name
static bool is_renum(const std::string& l) { size_t p = l.find_first_not_of(" \t"); return p != std::string::npos && !strncasecmp(l.c_str() + p, "RENUM", 5); }
static bool has_g(const Case& c) { for (auto& a : c.argv) if (a == "-g" || a == "-n" || a == "--trace-log" || a == "--list-names") return true; return false; }

std::string compare_model(const Case& c, const Result& r, const mdl::Outcome& o) {
  if (r.kind == K_ABORT || r.kind == K_MEMERR) return std::string("the interpreter failed: ") + kind_name[r.kind] + ": " + r.why;
  std::string mo = normal(o.out), io = normal(r.out);
  if (o.diverged) {
    size_t n = std::min(mo.size(), io.size());
    if (mo.compare(0, n, io, 0, n) != 0) return "output differs " + show(mo.substr(0, n), io.substr(0, n));
    if (r.kind != K_HORIZON) return "a program that never ends was ended";
    return "";
  }
  if (r.kind == K_HORIZON) return "does not terminate, or output differs " + show(mo, io.substr(0, mo.size() + 200));
  if (mo != io) return "output differs " + show(mo, io);
  if (r.status != o.status) return strf("exit status: expected %d got %d", o.status, r.status);
  if (!has_g(c)) { // command by command: what is reported after each line of input has been read
    std::vector<size_t> start; size_t n = 0; for (auto& l : c.in) { start.push_back(n); n += l.size(); }
    bool lines = true; for (auto& l : c.in) if (l.empty() || l.find('\n') != l.size() - 1) lines = false;
    size_t steps = lines ? c.in.size() : 0;
    size_t k = 0, i = 0, from = 0;
    for (; from <= r.err.size() && k <= steps; k++) { // k lines read
      size_t to = k < steps && k < r.err_at_read.size() ? r.err_at_read[k] : r.err.size();
      std::vector<mdl::ErrRec> recs; while (i < o.errs.size() && (k >= steps || o.errs[i].at <= start[k])) recs.push_back(o.errs[i++]);
      if (k && recs.empty() && is_renum(c.in[k - 1])) { from = to; continue; } // it may remark on a line that cannot be read
      std::string e = compare_err(r.err.substr(from, to - from), recs);
      if (!e.empty()) return k ? strf("after input line %zu (%s): ", k, esc(c.in[k - 1]).c_str()) + e : e;
      from = to;
    }
  }
  if (r.sys != o.sys) return "system commands differ: expected \"" + esc(join(o.sys, ";")) + "\" got \"" + esc(join(r.sys, ";")) + "\"";
  std::map<std::string, std::string> mf = o.files, rf = r.files;
  for (auto& d : o.dontcare) { mf.erase(d); rf.erase(d); }
  if (mf != rf) {
    for (auto& f : mf) if (!rf.count(f.first) || rf[f.first] != f.second) return "file " + f.first + " differs " + show(f.second, rf.count(f.first) ? rf[f.first] : "<missing>");
    return "an unexpected file was written";
  }
  if (r.open_files) return strf("%ld files were left open", r.open_files);
  return "";
}

static std::string oracle_model(const Check& k) {
  const Case& c = k.cases[0];
  mdl::Outcome o; mdl::run_case(c, o, true, visit_state, k.param == "long" ? 400000 : 20000);
  Result r; RunOpts ro; if (o.diverged) ro.horizon = 100000;
  { size_t h = c.in.size() * 31; for (auto& l : c.in) h = h * 31 + l.size() + (unsigned char)l[0]; for (auto& f : c.files) h += f.second.size(); ro.reuse = h & 1; } // in half of the cases, new blocks are where old ones were
  if (k.param == "long" && !o.diverged) ro.horizon = 1000000000;
  impl_run(c, r, ro);
  if (r.kind == K_HORIZON && !o.diverged) { r = Result(); ro.horizon = 40000000; impl_run(c, r, ro); } // slow, or endless?
  std::string e = compare_model(c, r, o);
  if (!e.empty() && o.deep) { // an implementation may allow deeper evaluation
    mdl::Outcome o2; mdl::run_case(c, o2, false); if (compare_model(c, r, o2).empty()) return "";
  }
  return e;
}
std::string oracle_model_(const Check& k) { return oracle_model(k); }

// ------------------------------------------------------------------ exploration
void Ctx::sec(const char* n) { section = n; if (getenv("LBMC_V") && worker == 0) { static time_t t0 = time(nullptr); fprintf(stderr, "[%lds] %s index=%ld\n", (long)(time(nullptr) - t0), n, index); } }

static char* current; static const size_t CURMAX = 1 << 20; // this worker's current case, readable by the parent
static std::string replay_dir;
static volatile long* heartbeat;
static time_t deadline;

static std::string save_replay(const std::string& prop, const std::string& text) {
  uint64_t h = 1469598103934665603ULL; for (unsigned char ch : text) h = (h ^ ch) * 1099511628211ULL;
  std::string f = replay_dir + strf("/%s-%08x.case", prop.c_str(), (unsigned)(h ^ h >> 32));
  FILE* fp = fopen(f.c_str(), "w"); if (fp) { fwrite(text.data(), 1, text.size(), fp); fclose(fp); }
  return f;
}

struct Sample { char text[1500]; };
static Sample* samples; static const int NSAMPLES = 6; // per worker... one slot per section start

void Ctx::run(const Check& c) {
  if (shared->stop) throw Stop();
  if (time(nullptr) > deadline) { shared->stop = 2; throw Stop(); }
  std::string t = check_to_text(c, prop, "");
  size_t n = t.size() < CURMAX - 1 ? t.size() : CURMAX - 1;
  memcpy(current, t.data(), n); current[n] = 0;
  ++*heartbeat;
  static bool slow = getenv("LBMC_SLOW"); struct timespec t0, t1; if (slow) clock_gettime(CLOCK_MONOTONIC, &t0);
  std::string why = oracles.at(c.oracle)(c);
  if (slow) { clock_gettime(CLOCK_MONOTONIC, &t1); double d = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9; if (d > .5) { fprintf(stderr, "%.2f s: %s %s ", d, section, c.oracle.c_str()); for (auto& l : c.cases[0].in) if (&l - &c.cases[0].in[0] < 8) fprintf(stderr, "%s|", esc(l).substr(0, 40).c_str()); for (auto& f : c.cases[0].files) fprintf(stderr, " %s %zu bytes %s", f.first.c_str(), f.second.size(), esc(f.second.substr(f.second.size() > 60 ? f.second.size() - 60 : 0)).c_str()); fprintf(stderr, "\n"); } }
  long nc = __sync_add_and_fetch(&shared->cases, 1);
  if ((nc & (nc - 1)) == 0 && nc > 8) { int slot = __builtin_ctzl(nc) % NSAMPLES; snprintf(samples[slot].text, sizeof samples[slot].text, "%s", t.c_str()); }
  if (nc == 1) snprintf(samples[0].text, sizeof samples[0].text, "%s", t.c_str());
  if (!why.empty()) {
    save_replay(prop, check_to_text(c, prop, why));
    if (__sync_add_and_fetch(&shared->violations, 1) >= 3) shared->stop = 1;
  }
  current[0] = 0;
}

static Case make_session(const std::vector<std::string>& argv, const std::map<std::string, std::string>& files, const std::vector<std::string>& lines) { Case c; c.argv = argv; c.files = files; for (auto& l : lines) for (auto& x : lines_of(l)) c.in.push_back(x); return c; }

void Ctx::histories(const std::vector<std::string>& argv, const std::vector<std::string>& prefix, const std::vector<std::string>& alphabet,
    const std::vector<std::string>& probe, int depth, const std::map<std::string, std::string>& files) {
  std::vector<int> d;
  for (int len = 0; len <= depth; len++) {
    d.assign(len, 0);
    for (;;) {
      if (take()) {
        std::vector<std::string> h = prefix; for (int x : d) h.push_back(alphabet[x]); for (auto& p : probe) h.push_back(p);
        model(make_session(argv, files, h));
      }
      int i = len - 1; while (i >= 0 && ++d[i] == (int)alphabet.size()) d[i--] = 0;
      if (i < 0) break;
    }
  }
}

void Ctx::bfs(const std::vector<std::string>& argv, const std::vector<std::string>& prefix, const std::vector<std::string>& alphabet,
    const std::vector<std::string>& probe, size_t max_states, int max_depth, const std::map<std::string, std::string>& files) {
  struct Node { mdl::Model m; int parent, event, depth; };
  std::deque<Node> nodes; std::unordered_set<uint64_t> seen;
  Case base = make_session(argv, files, {});
  auto feed = [&](mdl::Model& m, const std::vector<std::string>& ls) {
    std::string in; for (auto& l : ls) for (auto& x : lines_of(l)) in += x;
    m.in = &in; m.inpos = 0; m.out.clear(); m.errs.clear(); m.steps = 0;
    bool ok = true;
    try { while (m.inpos < in.size()) if (!m.prompt()) { ok = false; break; } } catch (...) { ok = false; }
    m.in = nullptr; m.inpos = 0;
    return ok && !m.eof;
  };
  Node root; root.parent = -1; root.event = -1; root.depth = 0;
  for (auto& a : argv) { if (a == "-k") root.m.kw = true; if (a == "-t") root.m.trace = true; if (a == "-f") root.m.tracefor = true; }
  root.m.env = &base; root.m.files = files;
  if (!feed(root.m, prefix)) return;
  seen.insert(root.m.hash()); nodes.push_back(root);
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].depth >= max_depth) break;
    for (size_t e = 0; e < alphabet.size(); e++) {
      Node n; n.m = nodes[i].m; n.parent = (int)i; n.event = (int)e; n.depth = nodes[i].depth + 1;
      if (take()) {
        std::vector<int> ev; for (int k = (int)i; k > 0; k = nodes[k].parent) ev.push_back(nodes[k].event);
        std::vector<std::string> h = prefix; for (size_t k = ev.size(); k--; ) h.push_back(alphabet[ev[k]]); h.push_back(alphabet[e]); for (auto& p : probe) h.push_back(p);
        model(make_session(argv, files, h));
      }
      if (!feed(n.m, {alphabet[e]})) continue;
      if (nodes.size() < max_states && seen.insert(n.m.hash()).second) nodes.push_back(std::move(n));
    }
    nodes[i].m = mdl::Model(); // keep only the path
  }
}

// ------------------------------------------------------------------ processes
static void worker_main(const std::string& prop, bool thorough, int w, int n, long from, const char* so) {
  rt_load(so);
  Ctx c; c.prop = prop; c.thorough = thorough; c.worker = w; c.workers = n;
  (void)from;
  try { generators.at(prop)(c); } catch (Stop&) {}
  fflush(stdout);
  _exit(0);
}

static int run_replay(const char* self, const std::string& so, const std::string& file, std::string& why) {
  int p[2]; if (pipe(p)) return -1;
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(p[0]); close(p[1]);
    alarm(120);
    execl(self, self, "replay", so.c_str(), file.c_str(), (char*)nullptr); _exit(3);
  }
  close(p[1]); char b[4096]; ssize_t k; why.clear(); while ((k = read(p[0], b, sizeof b)) > 0) why.append(b, k); close(p[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { why = "memory error reported by the address sanitizer"; return 1; }
  if (WIFSIGNALED(st)) { why = strf("the interpreter crashed or hung (signal %d)", WTERMSIG(st)); return 1; }
  return -1;
}

static std::string jstr(const std::string& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

int main(int argc, char** argv) {
  setenv("TZ", "UTC", 1);
  table_size = size_t(1) << HASH_BITS;
  auto shm = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
  shared = (Shared*)shm(sizeof *shared); table = (uint64_t*)shm(table_size * 8); samples = (Sample*)shm(sizeof(Sample) * NSAMPLES);
  if (argc >= 4 && !strcmp(argv[1], "replay")) {
    FILE* fp = fopen(argv[3], "r"); if (!fp) { perror(argv[3]); return 3; }
    std::string t; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0) t.append(b, k); fclose(fp);
    Check c; std::string prop; if (!check_from_text(t, c, prop)) { fprintf(stderr, "bad replay file\n"); return 3; }
    rt_load(argv[2]);
    if (argc > 4) for (auto& k : c.cases) { // show
      Result r; rt_run(k, RunOpts(), r); mdl::Outcome o; mdl::run_case(k, o);
      printf("--- implementation: %s status %d %s\n%s\n--- stderr\n%s\n--- model: %s status %d\n%s\n", kind_name[r.kind], r.status, r.why.c_str(), r.out.c_str(), r.err.c_str(), o.diverged ? "diverged" : "", o.status, o.out.c_str());
      for (auto& e : o.errs) { printf("  expect %c:", e.kind); for (auto& l : e.lines) printf(" [%s]", l.c_str()); printf("\n"); }
      printf("blocks %ld live %ld\n", r.blocks, r.live);
    }
    std::string why = oracles.at(c.oracle)(c);
    if (why.empty()) { printf("ok\n"); return 0; }
    printf("%s\n", why.c_str()); return 1;
  }
  if (argc < 6 || strcmp(argv[1], "check")) { fprintf(stderr, "usage: lbmc check SO PROP quick|thorough VERIFDIR\n       lbmc replay SO FILE [show]\n"); return 3; }
  std::string so = argv[2], prop = argv[3]; bool thorough = !strcmp(argv[4], "thorough"); std::string dir = argv[5];
  if (!generators.count(prop)) { fprintf(stderr, "no such property\n"); return 3; }
  replay_dir = dir + "/evidence/replays"; mkdir((dir + "/evidence").c_str(), 0777); mkdir(replay_dir.c_str(), 0777);
  int n = (int)sysconf(_SC_NPROCESSORS_ONLN); if (n < 2) n = 2; if (n > 8) n = 8;
  if (getenv("LBMC_N")) n = atoi(getenv("LBMC_N"));
  time_t t0 = time(nullptr); struct timespec c0; clock_gettime(CLOCK_MONOTONIC, &c0);
  deadline = t0 + (getenv("LBMC_DEADLINE") ? atoi(getenv("LBMC_DEADLINE")) : thorough ? 780 : 600);
  { // remove old replay files of this property
    std::string cmd = "find '" + replay_dir + "' -maxdepth 1 -name '" + prop + "-*.case' -delete"; if (system(cmd.c_str())) {}
  }
  std::vector<char*> cur(n); volatile long* beats = (volatile long*)shm(sizeof(long) * 64); std::vector<pid_t> pid(n); std::vector<long> last(n, 0); std::vector<time_t> lastt(n, t0);
  for (int w = 0; w < n; w++) cur[w] = (char*)shm(CURMAX);
  std::string logf = dir + "/evidence/" + prop + ".log";
  unlink(logf.c_str());
  fflush(stdout);
  for (int w = 0; w < n; w++) {
    pid[w] = fork();
    if (pid[w] == 0) {
      current = cur[w]; heartbeat = beats + w;
      int fd = open(logf.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666); if (fd >= 0 && !(getenv("LBMC_V"))) dup2(fd, 2);
      worker_main(prop, thorough, w, n, 0, so.c_str());
    }
  }
  int left = n; std::vector<std::string> crashes; bool lost = false;
  while (left) {
    bool any = false;
    for (int w = 0; w < n; w++) if (pid[w] > 0) {
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        pid[w] = 0; left--; any = true;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          lost = true;
          if (cur[w][0]) { crashes.push_back(save_replay(prop, cur[w])); }
          else fprintf(stderr, "worker %d ended: status %x\n", w, st);
          shared->stop = 1;
        }
      }
      else if (beats[w] != last[w]) { last[w] = beats[w]; lastt[w] = time(nullptr); }
      else if (time(nullptr) - lastt[w] > 60 && cur[w][0]) { kill(pid[w], SIGKILL); lastt[w] = time(nullptr); }
    }
    if (!any) usleep(20000);
  }
  // confirm every candidate in a fresh process
  int confirmed = 0, candidates = 0;
  { std::string list; FILE* fp = popen(("ls '" + replay_dir + "' | grep '^" + prop + "-.*\\.case$' | head -12").c_str(), "r"); char b[512];
    std::vector<std::string> fs; while (fp && fgets(b, sizeof b, fp)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); fs.push_back(replay_dir + "/" + s); } if (fp) pclose(fp);
    for (auto& f : fs) {
      candidates++; std::string why; int r = run_replay(argv[0], so, f, why);
      if (r == 1) { confirmed++; while (!why.empty() && why.back() == '\n') why.pop_back(); printf("VIOLATION property=%s replay=%s\n  %s\n", prop.c_str(), f.c_str(), why.c_str()); if (confirmed >= 3) break; }
      else fprintf(stderr, "not reproduced: %s\n", f.c_str());
    } }
  struct timespec c1; clock_gettime(CLOCK_MONOTONIC, &c1); double wall = (c1.tv_sec - c0.tv_sec) + (c1.tv_nsec - c0.tv_nsec) / 1e9;
  bool complete = !shared->stop && !lost;
  std::string js = "{\n \"property\": " + jstr(prop) + ", \"tier\": " + jstr(argv[4]) + ", \"seed\": " + std::to_string(atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1")) + ", \"level\": \"model_checking\",\n \"coverage\": {\n";
  js += strf("  \"states\": %ld, \"transitions\": %ld, \"traces_validated_against_impl\": %ld, \"cases\": %ld, \"exhaustive\": %s, \"state_table_saturated\": %s, \"unreproduced_candidates\": %d,\n", shared->states, shared->transitions, shared->traces, shared->cases, complete ? "true" : "false", shared->saturated ? "true" : "false", candidates - confirmed);
  js += "  \"samples\": ["; bool first = true; for (int i = 0; i < NSAMPLES; i++) if (samples[i].text[0]) { js += (first ? "" : ", ") + jstr(samples[i].text); first = false; }
  js += "]\n },\n \"assumptions\": [\"cases outside the stated bounds are not covered\", \"the reference model states what the documentation says\"],\n";
  js += strf(" \"wall_s\": %.2f, \"violations\": %d\n}\n", wall, confirmed);
  FILE* fp = fopen((dir + "/evidence/" + prop + ".json").c_str(), "w"); if (fp) { fputs(js.c_str(), fp); fclose(fp); }
  printf("%s %s: %ld cases, %ld executions of the interpreter, %ld model states, %ld transitions, %s, %.1f s\n", prop.c_str(), argv[4], shared->cases, shared->traces, shared->states, shared->transitions, complete ? "complete" : shared->stop == 2 ? "stopped at the time limit" : "stopped", wall);
  if (confirmed) return 1;
  if (lost && candidates == 0) return 2;
  return 0;
}
