// Oracles other than plain agreement with the model.
#include "gen.h"
std::string oracle_model_(const Check& k);
// agreement with the model, and stderr contains (or with ! does not contain) the text of the parameter
std::string oracle_stderr(const Check& k) {
  std::string e = oracle_model_(Check{"model", k.cases, ""}); if (!e.empty()) return e;
  Result r; impl_run(k.cases[0], r);
  std::string t = k.param; bool neg = t[0] == '!'; if (neg) t = t.substr(1);
  bool has = r.err.find(t) != std::string::npos;
  if (has == neg) return std::string("message \"") + t + (neg ? "\" was not expected" : "\" was expected") + " on stderr: \"" + esc(r.err.substr(0, 300)) + "\"";
  return "";
}
// two runs that ought to agree: when only one of them is cut off, both are given more time
static void both(const Case& x, const Case& y, RunOpts o, Result& a, Result& b) { impl_run(x, a, o); impl_run(y, b, o); if ((a.kind == K_HORIZON) != (b.kind == K_HORIZON)) { o.horizon *= 20; a = Result(); b = Result(); impl_run(x, a, o); impl_run(y, b, o); } }
static std::string strip(std::string s, const std::string& what) { size_t p = 0; while ((p = s.find(what, p)) != std::string::npos) s.erase(p, what.size()); return s; }
// cases[0] without, cases[1] with RENUM: the program does the same
std::string oracle_renum(const Check& k) {
  Result a, b; RunOpts o; o.horizon = 400000; both(k.cases[0], k.cases[1], o, a, b);
  if (a.kind == K_HORIZON && b.kind == K_HORIZON) return "";
  std::string x = strip(normal(a.out), "> "), y = strip(normal(b.out), "> ");
  size_t p = y.find("Cannot renumber"); if (p != std::string::npos) { size_t e = y.find('\n', p); y.erase(p, e - p + 1); }
  y = strip(y, "Command syntax error\n"); x = strip(x, "Command syntax error\n");
  if (a.kind != b.kind) return strf("ended differently after RENUM: %s, %s", kind_name[a.kind], kind_name[b.kind]);
  if (x != y) return "behaves differently after RENUM: \"" + esc(x.substr(0, 300)) + "\" became \"" + esc(y.substr(0, 300)) + "\"";
  auto count = [](const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("Runtime error", p)) != std::string::npos; p++) n++; return n; };
  if (count(a.err) != count(b.err)) return "other errors after RENUM: \"" + esc(a.err.substr(0, 300)) + "\" became \"" + esc(b.err.substr(0, 300)) + "\"";
  return "";
}
// cases[0] runs without STOP, cases[1] with STOP and CONT: the same output remains when the stops are taken out
std::string oracle_cont(const Check& k) {
  std::string e = oracle_model_(Check{"model", {k.cases[0]}, ""}); if (!e.empty()) return "(without STOP) " + e;
  e = oracle_model_(Check{"model", {k.cases[1]}, ""}); if (!e.empty()) return e;
  Result a, b; impl_run(k.cases[0], a); impl_run(k.cases[1], b);
  std::string x = strip(normal(a.out), "> "), y = strip(normal(b.out), "Cannot continue\n");
  for (size_t p; (p = y.find("\nStopped\n")) != std::string::npos; ) { size_t q = y.rfind("STOP", p); if (q == std::string::npos) return "no line shown before Stopped"; /* the line shown begins with its number */
    // find the shown line among the program's lines
    bool found = false; for (auto& l : k.cases[1].in) { std::string t = l.substr(0, l.size() - 1); if (t.find("STOP") == std::string::npos || !isdigit((unsigned char)t[0])) continue; if (p >= t.size() && y.compare(p - t.size(), t.size(), t) == 0) { y.erase(p - t.size(), t.size() + 9); found = true; break; } }
    if (!found) return "the line of a STOP was not shown"; }
  y = strip(y, "> ");
  if (x != y) return "differs from the run without STOP: \"" + esc(x.substr(0, 300)) + "\" became \"" + esc(y.substr(0, 300)) + "\"";
  return "";
}
// distinct observable outcomes count as states
void outcome(const Result& r) { uint64_t h = 1469598103934665603ULL; for (const std::string* s : {&r.out, &r.err}) for (unsigned char ch : *s) h = (h ^ ch) * 1099511628211ULL; visit_state(h ^ (uint64_t)r.kind << 60 ^ (uint64_t)r.status); }
// the same run with different contents of fresh memory, and everything released
std::string oracle_mem(const Check& k) {
  Result a, b; RunOpts o; o.horizon = k.param == "long" ? 3000000 : 60000; o.fill = 0x00; impl_run(k.cases[0], a, o); o.fill = 0xBE; o.reuse = true; impl_run(k.cases[0], b, o);
  for (Result* r : {&a, &b}) if (r->kind == K_ABORT || r->kind == K_MEMERR) return std::string("the interpreter failed: ") + kind_name[r->kind] + ": " + r->why;
  outcome(a);
  if (a.kind != b.kind || a.status != b.status || normal(a.out) != normal(b.out) || a.err != b.err || a.files != b.files) return "depends on the contents of uninitialised memory or on where blocks are: \"" + esc(a.out.substr(0, 300)) + "\" \"" + esc(b.out.substr(0, 300)) + "\"";
  if (a.kind == K_RETURN && a.status == 0) {
    if (a.open_files) return strf("%ld files were left open", a.open_files);
    if (a.err.find("Runtime error") == std::string::npos && a.live) return strf("%ld blocks of memory were not released", a.live);
  }
  return "";
}
// --report-memory: as many blocks released as allocated
std::string oracle_report(const Check& k) {
  Result a; RunOpts o; o.horizon = 60000; impl_run(k.cases[0], a, o);
  if (a.kind == K_ABORT || a.kind == K_MEMERR) return std::string("the interpreter failed: ") + kind_name[a.kind] + ": " + a.why;
  outcome(a);
  if (a.kind != K_RETURN || a.status) return "";
  size_t m = a.out.rfind("malloc:"), f = a.out.rfind("free:");
  if (m == std::string::npos || f == std::string::npos) return "no memory report";
  long x = atol(a.out.c_str() + m + 7), y = atol(a.out.c_str() + f + 5);
  if (a.err.find("Runtime error") == std::string::npos && x != y) return strf("%ld blocks allocated, %ld released", x, y);
  if (y > x) return strf("%ld blocks allocated, %ld released", x, y);
  return "";
}
// both cases do the same (stderr aside, which shows the text of lines); the first agrees with the model
std::string oracle_same(const Check& k) {
  if (k.param != "nomodel") { std::string e = oracle_model_(Check{"model", {k.cases[0]}, ""}); if (!e.empty()) return e; }
  RunOpts o; o.horizon = 200000; Result a, b; both(k.cases[0], k.cases[1], o, a, b); outcome(a);
  for (Result* r : {&a, &b}) if (r->kind == K_ABORT || r->kind == K_MEMERR) return std::string("the interpreter failed: ") + kind_name[r->kind] + ": " + r->why;
  if (a.kind != b.kind) return strf("one ends with %s, the other with %s", kind_name[a.kind], kind_name[b.kind]);
  std::string x = normal(a.out), y = normal(b.out);
  if (a.kind == K_HORIZON) { size_t n = std::min(x.size(), y.size()); x.resize(n); y.resize(n); }
  if (x != y) return "the outputs differ: \"" + esc(x.substr(0, 300)) + "\" \"" + esc(y.substr(0, 300)) + "\"";
  if (a.status != b.status) return strf("exit status %d and %d", a.status, b.status);
  auto count = [](const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("Runtime error", p)) != std::string::npos; p++) n++; return n; };
  if (a.kind != K_HORIZON && (count(a.err) != count(b.err) || a.err.empty() != b.err.empty())) return "different errors: \"" + esc(a.err.substr(0, 300)) + "\" \"" + esc(b.err.substr(0, 300)) + "\"";
  if (a.sys != b.sys) return "different system commands";
  return "";
}
// the two commands end with the same status, and neither executes the program
std::string oracle_status(const Check& k) {
  Result a, b; impl_run(k.cases[0], a); impl_run(k.cases[1], b); outcome(b);
  for (Result* r : {&a, &b}) if (r->kind == K_ABORT || r->kind == K_MEMERR || r->kind == K_HORIZON) return std::string("the interpreter failed: ") + kind_name[r->kind] + ": " + r->why;
  if (a.status != b.status) return strf("exit status %d and %d", a.status, b.status);
  if (a.reads || b.reads) return "the program was executed";
  return "";
}
static int count_errors(const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("Runtime error", p)) != std::string::npos; p++) n++; return n; }
static std::string bad_end(const Result& r) { return r.kind == K_ABORT || r.kind == K_MEMERR ? std::string("the interpreter failed: ") + kind_name[r.kind] + ": " + r.why : ""; }
static bool has_arg(const Case& c, const char* s, const char* l) { for (auto& a : c.argv) if (a == s || a == l) return true; return false; }
// the banner comes first: everything up to and including the first empty line
static bool take_banner(std::string& s) { size_t e = s.find("\n\n"); if (s.find("Legacy Basic") != 0 || e == std::string::npos) return false; s.erase(0, e + 2); return true; }
// cases[0] plain, cases[1] with options: the same but for what the options report
std::string oracle_opts(const Check& k) {
  const Case& o = k.cases[1]; RunOpts ro; ro.horizon = 300000; Result a, b; both(k.cases[0], o, ro, a, b); outcome(b);
  std::string e = bad_end(a); if (e.empty()) e = bad_end(b); if (!e.empty()) return e;
  Case m = o; m.argv.erase(std::remove_if(m.argv.begin(), m.argv.end(), [](const std::string& x) { return x == "-q" || x == "--quiet" || x == "-g" || x == "--trace-log"; }), m.argv.end());
  if (a.kind == K_HORIZON && b.kind == K_HORIZON) return "";
  if (a.kind != b.kind || a.status != b.status) return strf("ends with %s status %d, with the options with %s status %d", kind_name[a.kind], a.status, kind_name[b.kind], b.status);
  std::string y = b.out;
  if (!has_arg(o, "-q", "--quiet") && !take_banner(y)) return "the banner is missing: \"" + esc(b.out.substr(0, 200)) + "\"";
  if (has_arg(o, "-m", "--report-memory") && b.kind == K_RETURN) { size_t p = y.rfind("malloc:"); if (p == std::string::npos || p < 1 || y[p - 1] != '\n') return "the memory report is missing"; y.erase(p - 1); }
  bool t = has_arg(o, "-t", "--trace-basic"), f = has_arg(o, "-f", "--trace-for");
  if (!t && !f && normal(y) != normal(a.out)) return "the options change the output: \"" + esc(a.out.substr(0, 300)) + "\" \"" + esc(y.substr(0, 300)) + "\"";
  if (t || f) { // the model knows what these print
    mdl::Outcome mo; mdl::run_case(m, mo, true, visit_state); Result r = b; r.out = y; bool g = has_arg(o, "-g", "--trace-log"); if (g) { r.err = a.err; r.err_at_read = a.err_at_read; }
    Case mm = m; std::string s = compare_model(mm, r, mo); if (!s.empty()) return s; }
  if (!has_arg(o, "-g", "--trace-log")) { if (a.err != b.err) return "the options change the error messages"; }
  else {
    if (count_errors(a.err) != count_errors(b.err)) return "the options change the errors";
    // expected log: the lines in the order executed, as --trace-basic shows them
    Case tc = k.cases[0]; tc.argv = {"-q", "-t", "P"}; if (has_arg(o, "-k", "--keywords-anywhere")) tc.argv.push_back("-k"); mdl::Outcome mo; mdl::run_case(tc, mo); 
    std::map<std::string, std::string> text; for (auto& kv : tc.files) { size_t p = 0; while (p < kv.second.size()) { size_t q = kv.second.find('\n', p); std::string l = kv.second.substr(p, q - p); text[l.substr(0, l.find(' '))] = l; p = q + 1; } }
    std::vector<std::string> exp; for (size_t p = 0; p < mo.out.size(); p++) if (mo.out[p] == '[') { size_t q = p + 1; while (q < mo.out.size() && isdigit((unsigned char)mo.out[q])) q++; if (q > p + 1 && q < mo.out.size() && mo.out[q] == ']' && text.count(mo.out.substr(p + 1, q - p - 1))) exp.push_back(text[mo.out.substr(p + 1, q - p - 1)]); }
    if (!mo.diverged) { size_t at = 0; std::vector<std::string> got; while (at < b.err.size()) { size_t q = b.err.find('\n', at); if (q == std::string::npos) q = b.err.size(); got.push_back(b.err.substr(at, q - at)); at = q + 1; }
      got.erase(std::remove_if(got.begin(), got.end(), [](const std::string& l) { return l.empty() || !isdigit((unsigned char)l[0]); }), got.end()); // the evaluation stack is shown too
      for (auto* v : {&got, &exp}) for (auto& l : *v) while (!l.empty() && l.back() == ' ') l.pop_back();
      if (a.err.empty()) { if (got != exp) return "the log of lines differs: expected \"" + esc(join(exp, "|").substr(0, 300)) + "\" got \"" + esc(b.err.substr(0, 300)) + "\""; }
      else { size_t i = 0; for (auto& g : got) if (i < exp.size() && g == exp[i]) i++; if (i != exp.size()) return "lines are missing from the log: \"" + esc(b.err.substr(0, 300)) + "\""; } }
  }
  if (a.files != b.files || a.sys != b.sys || a.open_files != b.open_files) return "the options change the effects";
  return "";
}
// nothing of the program is executed
std::string oracle_idle(const Check& k) {
  Result a; impl_run(k.cases[0], a); outcome(a); std::string e = bad_end(a); if (!e.empty()) return e;
  if (a.kind == K_HORIZON) return "does not end";
  if (a.reads) return "the program was executed";
  if (a.sys.size() || a.files != k.cases[0].files) return "the program was executed";
  if (count_errors(a.err)) return "the program was executed: \"" + esc(a.err.substr(0, 200)) + "\"";
  return "";
}
// cases[0] with --quiet, cases[1] without: only the banner differs
std::string oracle_banner(const Check& k) {
  Result a, b; impl_run(k.cases[0], a); impl_run(k.cases[1], b); outcome(b); std::string e = bad_end(a); if (e.empty()) e = bad_end(b); if (!e.empty()) return e;
  std::string y = b.out; if (!take_banner(y)) return "the banner is missing: \"" + esc(b.out.substr(0, 200)) + "\"";
  if (k.param == "session") { size_t p = y.find("> "), q = y.find("HELP"); if (q == std::string::npos || q > p) return "the hint about HELP is missing"; y.erase(0, p); }
  if (y != a.out) return "--quiet changes more than the banner: \"" + esc(a.out.substr(0, 300)) + "\" \"" + esc(y.substr(0, 300)) + "\"";
  if (a.status != b.status || (a.err != b.err && k.cases[1].argv != std::vector<std::string>{"-g"})) return "--quiet changes the outcome";
  return "";
}
// every line of the output has these fields
std::string oracle_lines(const Check& k) {
  Result a; RunOpts o; o.horizon = 4000000; impl_run(k.cases[0], a, o); outcome(a); std::string e = bad_end(a); if (!e.empty()) return e;
  if (a.kind != K_RETURN || !a.err.empty()) return "the program did not end normally: \"" + esc(a.err.substr(0, 200)) + "\"";
  size_t p = 0; int n = 0; while (p < a.out.size()) { size_t q = a.out.find('\n', p); if (q == std::string::npos) q = a.out.size(); std::string l; for (char ch : a.out.substr(p, q - p)) if (ch != ' ' || (!l.empty() && l.back() != ' ')) l += ch; while (!l.empty() && l.back() == ' ') l.pop_back(); if (l != k.param) return "expected \"" + k.param + "\" got \"" + esc(l) + "\""; p = q + 1; n++; }
  return n ? "" : "no output";
}
// what follows the marker is the same (or with ! different) in both
std::string oracle_tail(const Check& k) {
  Result a, b; RunOpts o; o.horizon = 40000000; impl_run(k.cases[0], a, o); impl_run(k.cases[1], b, o); outcome(a); outcome(b); std::string e = bad_end(a); if (e.empty()) e = bad_end(b); if (!e.empty()) return e;
  bool differ = k.param[0] == '!'; std::string m = differ ? k.param.substr(1) : k.param;
  auto tail = [&](const std::string& s) { size_t p = s.rfind(m); return p == std::string::npos ? "<no marker>" + s : s.substr(p); };
  std::string x = tail(a.out), y = tail(b.out);
  if ((x == y) == differ) return std::string(differ ? "the same values: \"" : "different values: \"") + esc(x.substr(0, 300)) + "\" \"" + esc(y.substr(0, 300)) + "\"";
  return "";
}
// ---- interrupts
// param: kind;from;step;after   kinds: cont run any list endless
std::string oracle_irq(const Check& k) {
  auto ps = split(k.param, ';'); std::string kind = ps[0]; long from = atol(ps[1].c_str()), step = atol(ps[2].c_str()); VS after; if (ps.size() > 3) { std::string t = ps[3]; for (size_t i = 4; i < ps.size(); i++) t += ";" + ps[i]; after = split(t, '|'); }
  const Case& pre = k.cases[0]; const VS& inputs = k.cases[1].in; const char* END = "PRINT \"##\"\n";
  auto make = [&](size_t cut) { Case c = pre; for (size_t i = 0; i < cut; i++) c.in.push_back(inputs[i]); for (auto& a : after) c.in.push_back(a + "\n"); for (size_t i = cut; i < inputs.size(); i++) c.in.push_back(inputs[i]); c.in.push_back(END); return c; };
  if (kind == "endless") { // every block of a window after the program has started
    RunOpts o; o.horizon = 60000; Case c = pre; c.in.push_back(END); c.in.push_back("PRINT 1+(2+3)\n"); std::vector<uint32_t> pos; std::vector<HandlerEvent> hs; o.handlers = &hs; Result b; impl_run(c, b, o);
    if (b.kind != K_HORIZON) return "the program was expected not to end";
    long start = -1; for (auto& h : hs) if (h.installed) start = h.block; if (start < 0) return "no handler for interrupts while the program runs";
    RunOpts q; q.horizon = 400000;
    for (long at = start + 100 + from; at < start + 100 + from + step; at++) { c.irq_block = at; Result r; impl_run(c, r, q); if (r.irq_nohandler) return strf("an interrupt after block %ld would have ended the interpreter", at);
      outcome(r);
      std::string e = bad_end(r); if (!e.empty()) return strf("interrupt after block %ld: ", at) + e;
      if (r.kind == K_HORIZON) return strf("interrupt after block %ld did not stop the program", at);
      size_t p = r.out.find("Break\n> ##\n>  6 \n> "); if (p == std::string::npos) return strf("interrupt after block %ld: no return to the prompt: \"", at) + esc(r.out.substr(r.out.size() > 200 ? r.out.size() - 200 : 0)) + "\"";
      if (p > r.irq_outpos + 80) return strf("interrupt after block %ld: not stopped promptly", at); }
    return "";
  }
  // the run without interrupt
  Case base = make(inputs.size()); RunOpts o; std::vector<HandlerEvent> hs; std::vector<uint32_t> pos; std::vector<long> rb; o.handlers = &hs; o.outpos_at_block = &pos; o.read_blocks = &rb; o.horizon = 500000; Result b; impl_run(base, b, o);
  if (b.kind != K_RETURN) return std::string("(without interrupt) ") + kind_name[b.kind] + " " + b.why;
  if (from == 0) { mdl::Outcome mo; mdl::run_case(base, mo, true, visit_state); std::string e = compare_model(base, b, mo); if (!e.empty()) return "(without interrupt) " + e; }
  size_t s0 = b.out.find("@@\n> "), s1 = b.out.rfind("##"); if (s0 == std::string::npos || s1 == std::string::npos) return "(without interrupt) markers missing"; s0 += 5;
  // output of the run alone
  Case alone = pre; for (auto& l : inputs) alone.in.push_back(l); alone.in.push_back(END); Result al; impl_run(alone, al, RunOpts()); size_t e1 = al.out.rfind("> ##"); if (e1 == std::string::npos) return "(without interrupt) markers missing";
  std::string P = strip(al.out.substr(s0, e1 - s0), "> "); long errs_alone = count_errors(al.err); size_t p_end = e1;
  std::string B = strip(b.out.substr(s0), "> "); // the run and what comes after
  std::string T = B.substr(P.size());            // what comes after
  // from the moment the line that starts the run is read, until the next line is read
  size_t first = pre.in.size() - 1, next = pre.in.size() + inputs.size(); if (rb.size() <= next) return "(without interrupt) input was not read";
  long lo = rb[first], hi = rb[next];
  RunOpts q; q.horizon = 1000000;
  bool needs_handler = kind != "list";
  for (long at = lo + from; at < hi; at += step) {
    bool ok = false; std::string last;
    for (size_t cut = 0; cut <= inputs.size() && !ok; cut++) {
      Case c = make(cut); c.irq_block = at; Result r; impl_run(c, r, q); outcome(r);
      std::string e = bad_end(r); if (!e.empty()) return strf("interrupt after block %ld: ", at) + e;
      if (r.kind != K_RETURN || r.status) { last = strf("interrupt after block %ld: the session ended: %s %d", at, kind_name[r.kind], r.status); continue; }
      if (r.irq_nohandler && cut < inputs.size()) continue; // the run took another course
      if (r.irq_nohandler) { // nothing was delivered; allowed only before or after the run
        size_t pz = at < (long)pos.size() ? pos[at] : 0;
        if (needs_handler && pz > s0 && pz < p_end && P.size() > 0) return strf("an interrupt after block %ld, in the middle of the output, would have ended the interpreter", at);
        ok = true; break; }
      size_t ip = r.irq_outpos; if (r.out.size() < s0) { last = "output lost"; continue; }
      if (r.out.compare(0, s0, b.out, 0, s0) != 0) { last = "earlier output changed"; continue; }
      std::string R = r.out.substr(s0); size_t br = R.find("Break\n"); std::string S = strip(R, "> ");
      if (br == std::string::npos) {
        if (kind == "list") { // shows a part of the lines, then goes on as usual
          if (S.size() >= T.size() && S.compare(S.size() - T.size(), std::string::npos, T) == 0 && P.compare(0, S.size() - T.size(), S, 0, S.size() - T.size()) == 0) {
            size_t shown = S.size() - T.size(); // a long listing stops within a line or two
            if (ip > s0 && P.size() > 200 && shown > ip - s0 + 40) last = strf("interrupt after block %ld did not stop the listing", at); else ok = true; } else last = strf("interrupt after block %ld: \"", at) + esc(S.substr(0, 400)) + "\"";
          continue; }
        if (ip <= s0 && S == B) { ok = true; continue; }
        auto nocc = [](std::string x) { size_t p; while ((p = x.find("Cannot continue\n")) != std::string::npos) x.erase(p, 16); return x; };
        if (ip >= p_end && hi - at < 60 && nocc(S) == nocc(B)) { ok = true; continue; } // before the program had begun, or between its last statement and the prompt
        last = strf("interrupt after block %ld was ignored, or output was lost: \"", at) + esc(R.substr(0, 400)) + "\""; continue; }
      if (s0 + br > ip + 64) { last = strf("interrupt after block %ld: not stopped promptly: \"", at) + esc(R.substr(0, 400)) + "\""; if (cut == 0 || inputs.empty()) return last; continue; }
      std::string P1 = strip(R.substr(0, br), "> "), rest = strip(R.substr(br + 6), "> ");
      if (P.compare(0, P1.size(), P1) != 0) { last = strf("interrupt after block %ld: the output before the break differs: \"", at) + esc(P1) + "\" expected the beginning of \"" + esc(P) + "\""; continue; }
      std::string P2 = P.substr(P1.size());
      bool finished = P2.empty() || errs_alone;
      if (rest.find("Break\n") != std::string::npos) { last = strf("interrupt after block %ld broke two statements", at); continue; }
      if (kind == "any" || kind == "list") { // an immediate line: it is not continued, or a program entered by it is; later statements work
        if (rest.size() >= 3 && rest.compare(rest.size() - 3, 3, "##\n") == 0) ok = true; else if (rest.size() >= 2 && rest.find("##") != std::string::npos) ok = true; else last = strf("interrupt after block %ld: \"", at) + esc(rest) + "\""; continue; }
      if (kind == "run") { // what comes after a complete run comes after a broken one
        if (rest == T) ok = true; else last = strf("interrupt after block %ld: \"", at) + esc(rest) + "\" expected \"" + esc(T) + "\""; continue; }
      // cont: T holds "Cannot continue" where CONT was entered
      std::string X = T; size_t cc = X.rfind("Cannot continue\n"); if (cc == std::string::npos) return "(without interrupt) CONT was expected not to continue";
      std::string Y = X; Y.replace(cc, 16, P2);
      if (rest == Y) { if (count_errors(r.err) >= count_errors(b.err)) { ok = true; continue; } last = "an error was lost"; continue; }
      if (finished && rest == X) { ok = true; continue; }
      if (errs_alone && count_errors(r.err) > count_errors(b.err)) { // the failing statement was stopped and is tried again
        std::string head = X.substr(0, cc), tail = X.substr(cc + 16);
        if (rest.size() >= head.size() + tail.size() && rest.compare(0, head.size(), head) == 0 && rest.compare(rest.size() - tail.size(), std::string::npos, tail) == 0) { ok = true; continue; } }
      last = strf("interrupt after block %ld: after the break \"", at) + esc(rest.substr(0, 300)) + "\" expected \"" + esc(Y.substr(0, 300)) + "\"";
    }
    if (!ok) return last;
  }
  return "";
}

// ---- interrupts, judged by the model: what is seen is what a break at one of the model's points would have shown
// param: number of the line of input that is interrupted (from 0), first block, step
std::string oracle_irqm(const Check& k) {
  const Case& base = k.cases[0]; auto ps = split(k.param, ';'); size_t cmd = (size_t)atol(ps[0].c_str()); long from = ps.size() > 1 ? atol(ps[1].c_str()) : 0, step = ps.size() > 2 ? atol(ps[2].c_str()) : 1;
  auto model = [&](long at, mdl::Outcome& o) { mdl::brk.cmd = (long)cmd + 1; mdl::brk.at = at; mdl::run_case(base, o, true, visit_state); long n = mdl::brk.n; mdl::brk = mdl::BreakSpec(); return n; };
  mdl::Outcome m0; long points = model(-1, m0); if (m0.diverged || m0.deep) return "";
  RunOpts o; std::vector<uint32_t> pos; std::vector<long> rb; o.outpos_at_block = &pos; o.read_blocks = &rb; o.horizon = 500000; Result b; impl_run(base, b, o);
  std::string e = compare_model(base, b, m0); if (!e.empty()) return "(without interrupt) " + e;
  size_t upto = 0; for (size_t i = 0; i <= cmd; i++) upto += base.in[i].size();
  for (auto& x : m0.errs) if (x.at == upto) return ""; // a statement that fails: see the other oracle
  if (rb.size() <= cmd + 1) return "(without interrupt) input was not read";
  long lo = rb[cmd], hi = rb[cmd + 1]; size_t out0 = lo < (long)pos.size() ? pos[lo] : 0, out1 = hi < (long)pos.size() ? pos[hi] : b.out.size();
  size_t tail = out1 > 4 ? out1 - 4 : 0; { std::string seg = b.out.substr(out0, out1 - out0); size_t st = seg.rfind("\nStopped\n"); if (st != std::string::npos && st + 13 >= seg.size()) { size_t nl = st ? seg.rfind('\n', st - 1) : std::string::npos; tail = out0 + (nl == std::string::npos ? 0 : nl + 1); } } // from here on the run is over
  std::vector<mdl::Outcome> ms; RunOpts q; q.horizon = 1000000; size_t last = 0;
  auto get = [&](size_t n) -> mdl::Outcome& { while (ms.size() <= n) { ms.emplace_back(); model((long)ms.size() - 1, ms.back()); } return ms[n]; };
  for (long at = lo + from; at < hi; at += step) for (int times = 1; times < (at % 3 == 0 ? 3 : 2); times++) { // signals that come together count as one
    Case c = base; c.irq_block = at; c.irq_times = times; Result r; impl_run(c, r, q); outcome(r);
    e = bad_end(r); if (!e.empty()) return strf("interrupt after block %ld: ", at) + e;
    if (r.irq_nohandler) { size_t z = at < (long)pos.size() ? pos[at] : 0; if (z > out0 && z < tail) return strf("an interrupt after block %ld, in the middle of the output, would have ended the interpreter", at); continue; }
    bool ok = false;
    if ((r.irq_outpos <= out0 || r.irq_outpos >= tail) && compare_model(base, r, m0).empty()) ok = true;
    for (size_t n = last; !ok && (long)n < points; n++) if (compare_model(base, r, get(n)).empty()) { ok = true; last = n; }
    for (size_t n = 0; !ok && n < last; n++) if (compare_model(base, r, get(n)).empty()) { ok = true; }
    if (!ok && points && r.irq_outpos >= tail && hi - at < 60) for (size_t n = points > 3 ? (size_t)points - 3 : 0; !ok && (long)n < points; n++) { mdl::Outcome w = get(n); size_t p = w.out.find("Break\n"); if (p != std::string::npos) { w.out.erase(p, 6); ok = compare_model(base, r, w).empty(); } } // after the last statement, too late to be told of
    if (ok) { size_t p = r.out.find("Break\n", out0); if (p != std::string::npos && p > r.irq_outpos + 64) return strf("interrupt after block %ld: not stopped promptly", at); continue; }
    std::string want; if (points) { mdl::Outcome& w = get(std::min(last, (size_t)points - 1)); want = compare_model(base, r, w); }
    return strf("interrupt after block %ld: no break in the model does the same: \"", at) + esc(r.out.size() > out0 ? r.out.substr(out0, 400) : "") + "\" the nearest: " + want.substr(0, 300);
  }
  return "";
}
