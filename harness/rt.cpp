#include "rt.h"
#include <dlfcn.h>
#include <link.h>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" void __asan_handle_no_return(void);
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
         "handle_segv=1:allocator_may_return_null=1:intercept_strlen=1:strict_string_checks=0:print_legend=0";
}

const char* kind_name[] = {"return", "exit", "abort", "horizon", "memory-error", "harness"};

// ---------------------------------------------------------------- state of the current run
static const Case* C; static Result* R; static const RunOpts* O;
static jmp_buf leave; static volatile bool running = false, in_handler = false;
static long blocks, limit_blocks, horizon;
static long irq_at;
typedef void (*sigfn)(int);
static sigfn handler = SIG_DFL;
static std::vector<void(*)()> atexits;
static size_t rndpos; static uint32_t lcg; static long nowcalls;

[[noreturn]] static void finish(Kind k, int status, const char* why) {
  R->kind = k; R->status = status; if (why) R->why = why;
  running = false;
  __asan_handle_no_return();
  longjmp(leave, 1);
}

// ---------------------------------------------------------------- memory
static char* arena; static const size_t ARENA = size_t(1) << 30; static size_t bump; static size_t high;
struct Head { uint64_t magic; uint64_t size; };
static const uint64_t LIVE = 0x4c495645b10cULL, DEAD = 0xdeadb10cULL;
static long live;

__attribute__((noinline)) static void rawset(void* p, int c, size_t n) { // memset without interception
  volatile char* q = (volatile char*)p; (void)q;
  asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory");
}
static void rawcpy(void* d, const void* s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static uint64_t peek64(const void* p) { uint64_t v; rawcpy(&v, p, 8); return v; }
static void poke64(void* p, uint64_t v) { rawcpy(p, &v, 8); }
static bool in_arena(const void* p) { return (char*)p >= arena && (char*)p < arena + ARENA; }

static const size_t CLASSES = 1025; static char* released[CLASSES]; // by size: the block released last (its redzone leads to the one before)
static char* again(size_t n) {
  size_t k = (n + 15) / 16; if (!O || !O->reuse || k >= CLASSES || !released[k]) return nullptr;
  char* base = released[k]; released[k] = (char*)peek64(base); return base;
}
static void* amalloc(size_t n, int fill) {
  size_t need = 32 + ((n + 15) & ~size_t(15)) + 16; // header, block, redzone
  char* base = n > ARENA ? nullptr : again(n);
  if (!base) {
    if (n > ARENA || bump + need > ARENA - 4096) return nullptr;
    base = arena + bump; bump += need; if (bump > high) high = bump;
  }
  Head* h = (Head*)(base + 16); // 16 redzone, 16 header
  __asan_unpoison_memory_region(h, sizeof *h);
  h->magic = LIVE; h->size = n;
  __asan_poison_memory_region(h, sizeof *h);
  char* p = base + 32;
  __asan_unpoison_memory_region(p, n);
  rawset(p, fill, n);
  live++;
  return p;
}
static Head* head(void* p) { return (Head*)((char*)p - 16); }

extern "C" {
void* lbx_malloc(size_t n) { return amalloc(n, O ? O->fill : 0xBE); }
void* lbx_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return nullptr;
  return amalloc(a * b, 0);
}
void lbx_free(void* p) {
  if (!p) return;
  if (!in_arena(p)) { free(p); return; }
  Head* h = head(p);
  uint64_t m = ((uintptr_t)p & 15) ? 0 : peek64(&h->magic);
  if (m != LIVE) finish(K_MEMERR, 0, m == DEAD ? "double free" : "free of an address that was not allocated");
  poke64(&h->magic, DEAD);
  size_t n = peek64(&h->size), k = (n + 15) / 16;
  __asan_poison_memory_region(p, n);
  if (O && O->reuse && k < CLASSES) { char* base = (char*)p - 32; poke64(base, (uint64_t)released[k]); released[k] = base; }
  live--;
}
void* lbx_realloc(void* p, size_t n) {
  if (!p) return lbx_malloc(n);
  if (!in_arena(p)) return realloc(p, n);
  Head* h = head(p);
  uint64_t m = ((uintptr_t)p & 15) ? 0 : peek64(&h->magic);
  if (m != LIVE) finish(K_MEMERR, 0, m == DEAD ? "realloc of released memory" : "realloc of an address that was not allocated");
  size_t old = peek64(&h->size);
  if (n == 0) { lbx_free(p); return nullptr; }
  void* q = lbx_malloc(n);
  if (!q) return nullptr;
  rawcpy(q, p, old < n ? old : n);
  lbx_free(p);
  return q;
}
char* lbx_strdup(const char* s) { size_t n = strlen(s); char* t = (char*)lbx_malloc(n + 1); if (t) memcpy(t, s, n + 1); return t; }
char* lbx_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* t = (char*)lbx_malloc(n + 1); if (t) { memcpy(t, s, n); t[n] = 0; } return t; }

// ---------------------------------------------------------------- process control
[[noreturn]] void lbx_exit(int rc) {
  while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); }
  finish(K_EXIT, rc, nullptr);
}
[[noreturn]] void lbx_exit2(int rc) { finish(K_EXIT, rc, nullptr); }
[[noreturn]] void lbx_exit3(int rc) { finish(K_EXIT, rc, nullptr); }
[[noreturn]] void lbx_exit4(int rc) { finish(K_EXIT, rc, nullptr); }
[[noreturn]] void lbx_abort() { finish(K_ABORT, 0, "abort()"); }
[[noreturn]] void lbx_assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  static char b[600]; snprintf(b, sizeof b, "assertion `%s' failed at %s:%u (%s)", e, f, l, fn ? fn : "?");
  finish(K_ABORT, 0, b);
}
int lbx_atexit(void (*f)()) { atexits.push_back(f); return 0; }
static sigfn set_handler(int sig, sigfn h) {
  if (sig != SIGINT) return SIG_DFL;
  sigfn o = handler; handler = h;
  if (O && O->handlers) O->handlers->push_back({blocks, h != SIG_DFL && h != SIG_IGN, R->out.size() + __fpending(stdout)});
  return o;
}
sigfn lbx_signal(int sig, sigfn h) { return set_handler(sig, h); }
sigfn lbx_signal2(int sig, sigfn h) { return set_handler(sig, h); }
sigfn lbx_signal3(int sig, sigfn h) { return set_handler(sig, h); }
int lbx_sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = handler; }
  if (a) set_handler(sig, a->sa_handler);
  return 0;
}
static void deliver() {
  if (in_handler) return;
  if (handler == SIG_IGN) return;
  if (handler == SIG_DFL) { R->irq_nohandler = true; return; }
  R->irq_delivered = true; R->irq_outpos = R->out.size() + __fpending(stdout);
  for (int i = 0; i < C->irq_times; i++) {
    if (handler == SIG_IGN) return;
    if (handler == SIG_DFL) finish(K_ABORT, SIGINT, "a second interrupt, at the same point as the first, would have ended the interpreter");
    in_handler = true; handler(SIGINT); in_handler = false;
  }
}
int lbx_raise(int sig) { if (sig == SIGINT && handler != SIG_DFL) { deliver(); return 0; } finish(K_ABORT, sig, "raise()"); }
int lbx_kill(pid_t, int sig) { finish(K_ABORT, sig, "kill()"); }
int lbx_system(const char* s) { R->sys.push_back(s ? s : ""); return C->sysret; }
FILE* lbx_popen(const char* s, const char*) { R->sys.push_back(s ? s : ""); errno = ENOSYS; return nullptr; }

// ---------------------------------------------------------------- clock and random numbers
time_t lbx_time(time_t* t) { time_t v = C->now + nowcalls++; if (t) *t = v; return v; }
clock_t lbx_clock() { return nowcalls++; }
int lbx_gettimeofday(struct timeval* tv, void*) { if (tv) { tv->tv_sec = lbx_time(nullptr); tv->tv_usec = 0; } return 0; }
int lbx_clock_gettime(int, struct timespec* ts) { if (ts) { ts->tv_sec = lbx_time(nullptr); ts->tv_nsec = 0; } return 0; }
}
int lcg_next(uint32_t& s) { s = s * 1664525u + 1013904223u; uint32_t a = s >> 9; s = s * 1664525u + 1013904223u; return int(((a << 8) ^ (s >> 12)) & 0x7fffffff); }
extern "C" {
int lbx_rand() { R->rand_calls++; if (rndpos < C->rnd.size()) return C->rnd[rndpos++]; return lcg_next(lcg); }
void lbx_srand(unsigned s) { R->srand_calls++; R->last_seed = s; lcg = s * 2654435761u + 12345u; }
long lbx_random() { return lbx_rand(); }
void lbx_srandom(unsigned s) { lbx_srand(s); }

// ---------------------------------------------------------------- coverage callback: one call per basic block
static void slow() {
  if (irq_at >= 0 && blocks >= irq_at) { irq_at = -1; limit_blocks = horizon; deliver(); return; }
  if (blocks >= horizon) { if (in_handler) in_handler = false; finish(K_HORIZON, 0, "too many basic blocks executed"); }
}
void __sanitizer_cov_trace_pc() {
  if (!running) return;
  if (O->outpos_at_block && !in_handler) O->outpos_at_block->push_back(uint32_t(R->out.size() + __fpending(stdout)));
  if (++blocks >= limit_blocks) slow();
}
void __ubsan_handle_out_of_bounds_abort(void*, void*) { finish(K_MEMERR, 0, "array index out of bounds"); }
void __ubsan_handle_out_of_bounds(void*, void*) { finish(K_MEMERR, 0, "array index out of bounds"); }
}

// ---------------------------------------------------------------- files
struct VFile { std::string path; size_t pos = 0; bool w = false, r = false, app = false; long done = 0; };
static std::map<std::string,std::string> vfs;
static std::vector<FILE*> openfiles;
static bool faulty(const std::string& p, int k) { return C->fault.kind == k && C->fault.path == p; }

static ssize_t v_read(void* c, char* buf, size_t n) {
  VFile* f = (VFile*)c;
  const std::string& d = vfs[f->path];
  size_t a = f->pos < d.size() ? d.size() - f->pos : 0; if (a > n) a = n;
  if (faulty(f->path, 2)) {
    if ((long)f->pos >= C->fault.at) { errno = EIO; return -1; }
    if ((long)(f->pos + a) > C->fault.at) a = C->fault.at - f->pos;
  }
  memcpy(buf, d.data() + f->pos, a); f->pos += a;
  return a;
}
static ssize_t v_write(void* c, const char* buf, size_t n) {
  VFile* f = (VFile*)c;
  std::string& d = vfs[f->path];
  if (f->app) f->pos = d.size();
  size_t a = n;
  if (faulty(f->path, 3)) {
    if (f->done >= C->fault.at) { errno = ENOSPC; return 0; }
    if (f->done + (long)a > C->fault.at) a = C->fault.at - f->done;
  }
  if (f->pos > d.size()) d.resize(f->pos, '\0');
  d.replace(f->pos, a, buf, a); f->pos += a; f->done += a;
  return a;
}
static int v_seek(void* c, off64_t* off, int wh) {
  VFile* f = (VFile*)c; long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)f->pos : (long)vfs[f->path].size();
  if (base + *off < 0) return -1;
  f->pos = base + *off; *off = f->pos; return 0;
}
static bool closing_run = false;
static int v_close(void* c) { VFile* f = (VFile*)c; bool bad = !closing_run && faulty(f->path, 4); delete f; if (bad) { errno = EIO; return -1; } return 0; }

extern "C" {
FILE* lbx_fopen(const char* path, const char* mode) {
  std::string p = path;
  if (faulty(p, 1)) { errno = EACCES; return nullptr; }
  bool ex = vfs.count(p);
  if (mode[0] == 'r' && !ex) { errno = ENOENT; return nullptr; }
  if (mode[0] != 'r' && (p.empty() || p.find('/') != std::string::npos)) { errno = EACCES; return nullptr; }
  VFile* f = new VFile; f->path = p;
  if (mode[0] == 'w') vfs[p] = ""; else if (mode[0] == 'a') { vfs[p]; f->app = true; }
  cookie_io_functions_t io{}; io.read = v_read; io.write = v_write; io.seek = v_seek; io.close = v_close;
  FILE* fp = fopencookie(f, mode, io);
  if (fp) openfiles.push_back(fp);
  return fp;
}
FILE* lbx_fopen64(const char* p, const char* m) { return lbx_fopen(p, m); }
int lbx_fclose(FILE* fp) {
  for (size_t i = 0; i < openfiles.size(); i++) if (openfiles[i] == fp) { openfiles.erase(openfiles.begin() + i); return fclose(fp); }
  if (fp == stdin || fp == stdout || fp == stderr) { fflush(fp); return 0; }
  finish(K_MEMERR, 0, "fclose of a stream that is not open");
}
FILE* lbx_freopen(const char*, const char*, FILE*) { errno = EACCES; return nullptr; }
int lbx_rename(const char* a, const char* b) { if (!vfs.count(a)) { errno = ENOENT; return -1; } if (faulty(b, 1)) { errno = EACCES; return -1; } vfs[b] = vfs[a]; vfs.erase(a); return 0; }
int lbx_remove(const char* a) { if (!vfs.count(a)) { errno = ENOENT; return -1; } vfs.erase(a); return 0; }
int lbx_unlink(const char* a) { return lbx_remove(a); }
}

// ---------------------------------------------------------------- standard streams
static FILE *sin_, *sout_, *serr_;
static size_t inpos;
static ssize_t in_read(void*, char* buf, size_t n) {
  long idx = R->reads++;
  if (serr_) fflush(serr_);
  R->err_at_read.push_back(R->err.size());
  if (O->read_blocks) O->read_blocks->push_back(blocks);
  if (idx == C->irq_read) { if (handler == SIG_DFL) R->irq_nohandler = true; else deliver(); }
  if (inpos >= C->in.size()) return 0;
  const std::string& s = C->in[inpos++];
  size_t a = s.size() < n ? s.size() : n;
  memcpy(buf, s.data(), a);
  return a;
}
static const size_t OUTCAP = 8u << 20;
static ssize_t out_write(void*, const char* b, size_t n) { if (R->out.size() < OUTCAP) R->out.append(b, n); return n; }
static ssize_t err_write(void*, const char* b, size_t n) { if (R->err.size() < OUTCAP) R->err.append(b, n); return n; }

// ---------------------------------------------------------------- loading and snapshot
struct Seg { char* at; size_t n; char* copy; };
static std::vector<Seg> segs;
static int (*lb_main)(int, char**);
static const char* so_name;

static int phdr(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || strcmp(i->dlpi_name, so_name) != 0) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      Seg s; s.at = (char*)(i->dlpi_addr + p.p_vaddr); s.n = p.p_memsz; s.copy = (char*)mmap(nullptr, s.n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
      rawcpy(s.copy, s.at, s.n); segs.push_back(s);
    }
  }
  return 0;
}
void rt_load(const char* so) {
  setenv("TZ", "UTC", 1); tzset();
  arena = (char*)mmap(nullptr, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) { perror("mmap"); _exit(3); }
  __asan_poison_memory_region(arena, 1 << 20);
  high = 0;
  void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
  lb_main = (int(*)(int, char**))dlsym(h, "lb_main");
  if (!lb_main) { fprintf(stderr, "no main in %s\n", so); _exit(3); }
  so_name = so;
  dl_iterate_phdr(phdr, nullptr);
  if (segs.empty()) { fprintf(stderr, "no writable segment found\n"); _exit(3); }
  cookie_io_functions_t io{};
  io.read = in_read; sin_ = fopencookie(nullptr, "r", io);
  io = {}; io.write = out_write; sout_ = fopencookie(nullptr, "w", io);
  io = {}; io.write = err_write; serr_ = fopencookie(nullptr, "w", io);
  setvbuf(sin_, nullptr, _IOFBF, 1 << 16);
  setvbuf(sout_, nullptr, _IOFBF, 1 << 16);
  setvbuf(serr_, nullptr, _IOFBF, 1 << 16);
}

void rt_run(const Case& c, const RunOpts& o, Result& r) {
  C = &c; R = &r; O = &o;
  r = Result(); r.out.reserve(512);
  for (auto& s : segs) rawcpy(s.at, s.copy, s.n);
  if (high) { size_t n = (high + 4096 + 7) & ~size_t(7); __asan_poison_memory_region(arena, n < (1u<<20) ? (1u<<20) : n); if (high > (64u << 20)) madvise(arena, high, MADV_DONTNEED); }
  else __asan_poison_memory_region(arena, 1 << 20);
  bump = 0; high = 0; live = 0; memset(released, 0, sizeof released);
  handler = SIG_DFL; atexits.clear(); rndpos = 0; lcg = 1u * 2654435761u + 12345u; nowcalls = 0;
  vfs = c.files; inpos = 0; in_handler = false;
  __fpurge(sin_); clearerr(sin_); __fpurge(sout_); clearerr(sout_); __fpurge(serr_); clearerr(serr_);
  std::vector<std::string> av = c.argv; std::vector<char*> argv; static char a0[] = "legacy-basic";
  argv.push_back(a0); for (auto& s : av) argv.push_back(&s[0]); argv.push_back(nullptr);
  FILE *si = stdin, *so = stdout, *se = stderr;
  blocks = 0; horizon = o.horizon; irq_at = c.irq_block; limit_blocks = irq_at >= 0 && irq_at < horizon ? irq_at : horizon;
  if (irq_at == 0) limit_blocks = 1;
  if (setjmp(leave) == 0) {
    stdin = sin_; stdout = sout_; stderr = serr_;
    running = true;
    int rc = lb_main(int(argv.size()) - 1, argv.data());
    running = false;
    while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); }
    r.kind = K_RETURN; r.status = rc;
  }
  running = false;
  fflush(sout_); fflush(serr_);
  stdin = si; stdout = so; stderr = se;
  r.live = live; r.open_files = (long)openfiles.size(); r.blocks = blocks;
  closing_run = true;
  for (FILE* f : openfiles) fclose(f);
  closing_run = false;
  openfiles.clear();
  r.files.swap(vfs);
}

// ---------------------------------------------------------------- replay files
std::string esc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
  }
  return o;
}
std::string unesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'r') o += '\r';
    else if (c == 'x' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += c;
  }
  return o;
}
std::string case_to_text(const Case& c) {
  std::string o; char b[100];
  if (!c.note.empty()) o += "note " + esc(c.note) + "\n";
  for (auto& a : c.argv) o += "arg " + esc(a) + "\n";
  for (auto& f : c.files) o += "file " + esc(f.first) + "\ndata " + esc(f.second) + "\n";
  for (auto& l : c.in) o += "in " + esc(l) + "\n";
  if (c.irq_block >= 0) { snprintf(b, sizeof b, "irq_block %ld\n", c.irq_block); o += b; }
  if (c.irq_times != 1) { snprintf(b, sizeof b, "irq_times %d\n", c.irq_times); o += b; }
  if (c.irq_read >= 0) { snprintf(b, sizeof b, "irq_read %ld\n", c.irq_read); o += b; }
  if (c.fault.kind) { snprintf(b, sizeof b, "fault %d %ld ", c.fault.kind, c.fault.at); o += b + esc(c.fault.path) + "\n"; }
  for (int r : c.rnd) { snprintf(b, sizeof b, "rnd %d\n", r); o += b; }
  if (c.now) { snprintf(b, sizeof b, "now %ld\n", c.now); o += b; }
  if (c.sysret) { snprintf(b, sizeof b, "sysret %d\n", c.sysret); o += b; }
  return o;
}
bool case_from_text(const std::string& t, Case& c) {
  c = Case(); std::string last; size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(p, e - p); p = e + 1;
    if (l.empty() || l[0] == '#') continue;
    size_t s = l.find(' '); std::string k = l.substr(0, s), v = s == std::string::npos ? "" : l.substr(s + 1);
    if (k == "note") c.note = unesc(v);
    else if (k == "arg") c.argv.push_back(unesc(v));
    else if (k == "file") { last = unesc(v); c.files[last] = ""; }
    else if (k == "data") c.files[last] = unesc(v);
    else if (k == "in") c.in.push_back(unesc(v));
    else if (k == "irq_block") c.irq_block = atol(v.c_str());
    else if (k == "irq_times") c.irq_times = atoi(v.c_str());
    else if (k == "irq_read") c.irq_read = atol(v.c_str());
    else if (k == "fault") { int n = 0; sscanf(v.c_str(), "%d %ld %n", &c.fault.kind, &c.fault.at, &n); c.fault.path = unesc(v.substr(n)); }
    else if (k == "rnd") c.rnd.push_back(atoi(v.c_str()));
    else if (k == "now") c.now = atol(v.c_str());
    else if (k == "sysret") c.sysret = atoi(v.c_str());
    else if (k == "expect" || k == "got" || k == "property" || k == "why") ;
    else return false;
  }
  return true;
}
