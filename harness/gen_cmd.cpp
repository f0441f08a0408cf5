// The monitor's commands (C27) and the command line (C28).
#include "gen.h"
#include "model.h"
void outcome(const Result& r);
static int count_rt(const std::string& s) { int n = 0; for (size_t p = 0; (p = s.find("Runtime error", p)) != std::string::npos; p++) n++; return n; }
static std::string bad_end(const Result& r) { return r.kind == K_ABORT || r.kind == K_MEMERR ? std::string("the interpreter failed: ") + kind_name[r.kind] + ": " + r.why : ""; }
static size_t replace_all(std::string& s, const std::string& a, const std::string& b) { size_t p = 0, n = 0; while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); n++; } return n; }

// agreement with the model where HELP is used: its text is free, but always the same and names every command
std::string oracle_cmd(const Check& k) {
  Case h; h.argv = {"-q"}; h.in = {"HELP\n"}; Result r; impl_run(h, r); std::string e = bad_end(r); if (!e.empty()) return e;
  std::string t = r.out; if (t.size() < 4 || t.compare(0, 2, "> ") || t.compare(t.size() - 2, 2, "> ")) return "HELP does not return to the prompt: \"" + esc(t.substr(0, 200)) + "\"";
  t = t.substr(2, t.size() - 4);
  for (auto c : {"BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RUN", "SAVE"}) if (t.find(c) == std::string::npos) return std::string("HELP does not mention ") + c;
  if (r.sys.size() || r.files.size() || r.err.size() || r.status || r.reads > 2) return "HELP does something else";
  RunOpts o; o.horizon = 400000; Result a; impl_run(k.cases[0], a, o); outcome(a);
  mdl::Outcome m; mdl::run_case(k.cases[0], m, true, visit_state);
  replace_all(a.out, t, "<help>\n"); return compare_model(k.cases[0], a, m);
}

// what the arguments of the command line mean, from the documentation
std::string oracle_cli(const Check& k) {
  const Case& c = k.cases[0]; RunOpts o; o.horizon = 400000; Result r; impl_run(c, r, o); outcome(r); std::string e = bad_end(r); if (!e.empty()) return e;
  enum { OK, BAD, HELP, VERSION } what = OK; bool full = false, ver = false; std::string mode, file; bool have = false; std::set<std::string> flags;
  static const std::map<std::string, std::string> L = {{"--code", "-c"}, {"--help", "-h"}, {"--help-full", "-hh"}, {"--keywords-anywhere", "-k"}, {"--list", "-l"}, {"--list-names", "-n"}, {"--parse", "-p"}, {"--quiet", "-q"}, {"--randomize", "-z"}, {"--report-memory", "-m"}, {"--run", "-r"}, {"--trace-basic", "-t"}, {"--trace-for", "-f"}, {"--trace-log", "-g"}, {"--version", "-v"}};
  static const std::string modes = "clnpr", fl = "kqzmtfg";
  for (auto a : c.argv) { auto it = L.find(a); if (it != L.end()) a = it->second;
    if (a == "-h" || a == "-hh") { what = HELP; full = a == "-hh"; break; }
    if (a == "-v") ver = true; else if (a.size() == 2 && a[0] == '-' && modes.find(a[1]) != std::string::npos) mode = a; else if (a.size() == 2 && a[0] == '-' && fl.find(a[1]) != std::string::npos) flags.insert(a);
    else if (a[0] == '-' || have) { what = BAD; break; } else { file = a; have = true; } }
  if (what == OK && ver) what = VERSION; if (what == OK && !have && !mode.empty()) what = BAD;
  if (what != OK) {
    if (r.kind == K_HORIZON) return "does not end"; if (r.reads || r.sys.size() || r.files != c.files) return "something was executed"; if (count_rt(r.err)) return "something was executed: \"" + esc(r.err.substr(0, 200)) + "\"";
    if (r.out.find("=ran=") != std::string::npos) return "the program was executed: \"" + esc(r.out.substr(0, 200)) + "\"";
    if (what == BAD) { if (r.err.empty()) return "nothing is reported"; if (!r.status) return "exit status 0"; return ""; }
    if (!r.err.empty()) return "unexpected message: \"" + esc(r.err.substr(0, 200)) + "\"";
    if (what == VERSION) return r.out.find("Legacy Basic 3.2.0") == 0 && std::count(r.out.begin(), r.out.end(), '\n') <= 2 ? "" : "no version, or more: \"" + esc(r.out.substr(0, 200)) + "\"";
    size_t lines = std::count(r.out.begin(), r.out.end(), '\n'); for (auto& x : L) { size_t p = r.out.find(x.first + ", " + x.second + "\n"); if (p == std::string::npos) return "the help does not mention " + x.first; if (full) { size_t q = r.out.find('\n', p) + 1; if (r.out.compare(q, 2, "  ")) return "the full help does not explain " + x.first; } } if (!full && lines > 30) return "help is as long as full help";
    return ""; }
  // the same as the arguments in their short form, each once and in one order
  Case n = c; n.argv.clear(); for (auto& f : flags) n.argv.push_back(f); if (!mode.empty() && mode != "-r") n.argv.push_back(mode); if (have) n.argv.push_back(file);
  Result s; impl_run(n, s, o); e = bad_end(s); if (!e.empty()) return e;
  if (r.kind != s.kind || r.status != s.status) return strf("ends with %s status %d, with the arguments %s with %s status %d", kind_name[r.kind], r.status, join(n.argv, " ").c_str(), kind_name[s.kind], s.status);
  if (r.out != s.out || r.err != s.err || r.files != s.files || r.sys != s.sys) return "differs from the arguments " + join(n.argv, " ") + ": \"" + esc(r.out.substr(0, 200)) + "\" \"" + esc(s.out.substr(0, 200)) + "\"";
  if (r.kind == K_HORIZON) return "";
  // and what the model does without the flags that report
  if (mode == "-c") { // compiles what --parse does
    for (auto& a : n.argv) if (a == "-c") a = "-p"; Result t; impl_run(n, t, o); if (t.status != s.status || t.err != s.err || t.kind != s.kind) return strf("--code ends with status %d, --parse with %d, or the messages differ: \"%s\" \"%s\"", s.status, t.status, esc(s.err.substr(0, 200)).c_str(), esc(t.err.substr(0, 200)).c_str()); return ""; }
  bool q = flags.count("-q"), m = flags.count("-m"), g = flags.count("-g");
  if (!q) { size_t p = s.out.find("\n\n"); if (s.out.find("Legacy Basic 3.2.0") != 0 || p == std::string::npos) return "the banner is missing"; s.out.erase(0, p + 2); if (!have) { p = s.out.find("> "); std::string hint = s.out.substr(0, p); if (hint.find("HELP") == std::string::npos) return "HELP is not pointed to"; s.out.erase(0, p); } }
  if (m && (s.kind == K_RETURN || s.out.rfind("malloc:") != std::string::npos)) { size_t p = s.out.rfind("malloc:"); if (p == std::string::npos || p < 1) return "the memory report is missing"; s.out.erase(p - 1); }
  Case x = n; x.argv.clear(); for (auto& a : n.argv) if (a != "-q" && a != "-g" && a != "-m") x.argv.push_back(a);
  mdl::Outcome mo; mdl::run_case(x, mo, true, visit_state);
  if (g) { x.argv.push_back("-g"); mo.errs.clear(); } return compare_model(x, s, mo);
}

void more_C27(Ctx&) {} void more_C28(Ctx&) {}
static const VS CMD = {"BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RENUMBER", "RUN", "SAVE"};
static const VS STATES = {"", "V=7|V$=\"v\"", "10 PRINT \"ran\"|20 STOP|30 PRINT \"on\";V|40 END", "10 PRINT \"ran\"|20 STOP|30 PRINT \"on\";V|V=7|RUN", "10 PRINT (|20 GOTO 10", "10 FOR I=1 TO 2|20 GOSUB 50|30 NEXT|40 END|50 STOP|60 RETURN|RUN|NEW=1"};
static void cmd(Ctx& c, CVS v, bool end = false, int sysret = 0) { Case k; k.argv = {"-q"}; k.sysret = sysret; k.files["F"] = "5 PRINT \"loaded\"\n9 REM \"x\"\n"; for (auto& s : v) for (auto& x : split(s)) if (!x.empty() || s.empty()) k.in.push_back(x + "\n"); if (!end) for (auto x : {"PRINT V;V$", "CONT", "LIST", "RUN", "SAVE \"G\"", "BYE", "PRINT \"not reached\""}) k.in.push_back(std::string(x) + "\n"); c.run(Check{"cmd", {k}, ""}); }
void gen_C27(Ctx& c) {
  const VS TAIL = {"", " ", "\t", " \t ", "=1", "(1)=2", "$=\"x\"", " 5", "5", " \"F\"", "\"F\"", ":PRINT 1", " :", ";", ",", "-", "p", " P", "X", "_", "%", ".", "!", "\"", " ,", " -", "10-", " 'x", " REM"};
  c.sec("every command, nearly every command, each with what may follow");
  for (auto& w : CMD) { VS v; auto add = [&](const std::string& s) { if (!s.empty() && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }; add(w); std::string lo = w; for (auto& ch : lo) ch = tolower(ch); add(lo); for (size_t i = 0; i < w.size(); i++) { add(w.substr(0, i)); add(w.substr(i)); std::string s = w; s.erase(i, 1); add(s); s = w; s[i] = s[i] == 'A' ? 'B' : s[i] - 1; add(s); s = w; s.insert(i, 1, 'S'); add(s); s = w; s.insert(i, " "); add(s); s = w; s.insert(i, "1"); add(s); if (i) { s = w; std::swap(s[i], s[i - 1]); add(s); } s = w; s.insert(i, 1, w[i]); add(s); } for (auto& x : CMD) add(w + x); for (auto x : {"S", "D", "A", "1", "_"}) add(w + x);
    for (auto& s : v) for (size_t t = 0; t < TAIL.size(); t++) for (size_t st = 0; st < STATES.size(); st++) { if (!c.thorough && s != w && (t + st * 3 + s.size() + (unsigned char)s.back()) % (t ? 5 : 2)) continue; if (c.take()) cmd(c, {STATES[st], s + TAIL[t]}); } }
  c.sec("every case of every letter"); // and blanks before
  for (auto& w : CMD) for (int m = 0; m < 1 << w.size(); m++) { std::string s = w; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = tolower(s[i]); if (w == "LOAD" || w == "SAVE") s += "\"F\""; for (auto p : {"", " ", "\t", "  \t "}) { if (!c.thorough && *p && m % 5) continue; if (c.take()) cmd(c, {STATES[(m + w.size()) % STATES.size()], p + s}); } }
  c.sec("everything after a command");
  for (auto& w : CMD) strings({" ", "1", "20", "-", ",", "p", "\"", "\t", "F", ":", "0"}, c.thorough ? 6 : 4, [&](const std::string& s) { if (s.size() > (c.thorough ? 4u : 3u) && w != "LIST" && w != "RENUM") return; if (!isalpha((unsigned char)s[0]) && c.take()) cmd(c, {STATES[2 + s.size() % 2], w + s}); });
  c.sec("everything passed to the operating system");
  strings({" ", "a", "*", "\"", "\t", "1", ":", ";", "$", "-", "\\", "%", "'", ">", "|", "&"}, c.thorough ? 5 : 4, [&](const std::string& s) { if (!c.take()) return; Case k; k.argv = {"-q"}; k.in = {"10 PRINT \"ran\"\n", "V=7\n", "*" + s + "\n", "PRINT V\n", "LIST\n", " *" + s + "\n", "RUN\n", "\t * " + s + "\n"}; c.run(Check{"cmd", {k}, ""}); });
  for (int ch = 1; ch < 256; ch++) if (ch != '\n') for (int sr = 0; sr < 3; sr++) if (c.take()) { std::string x(1, (char)ch); Case k; k.argv = {"-q"}; k.sysret = sr == 2 ? -1 : sr * 256; k.in = {"*" + x + "\n", "*ls" + x + "\n", "*ls " + x + "b\n", "*" + x + x + "c\n", "PRINT 1\n", "CLS\n", "*echo\n"}; c.run(Check{"cmd", {k}, ""}); }
  for (int n = 0; n <= 125; n++) for (auto x : {"x", " ", "*", "\"", "1"}) if (c.take()) { Case k; k.argv = {"-q"}; k.in = {"*" + rep(x, n) + "\n", "PRINT 1\n", "*" + rep(x, n / 2) + "end\n", "PRINT 2\n"}; c.run(Check{"cmd", {k}, ""}); }
  for (auto s : {"10 *ls", "PRINT 1:*ls", "PRINT *ls", "IF 1 THEN *ls", "A=*2", "REM *ls", "DATA *ls", "'*ls", ":*ls", "PRINT \"*ls\"", "10*ls", "LIST *ls", "* *ls", "*", "* ", "**", "10 CLS|RUN|*x|RUN", "CLS", "CLS:CLS", "10 STOP:CLS|RUN|*y|CONT", "INPUT A$|*in|PRINT A$", "LINE INPUT A$|*in|PRINT A$", "LISTP|*in", "NEW|*z", "BYE *", "SAVE \"*\"|LOAD \"*\"", "*RUN", "*BYE|PRINT 1", "* LOAD \"F\"|LIST"}) for (auto& st : STATES) for (int sr : {0, 256, -1}) if (c.take()) cmd(c, {st, s}, false, sr);
  c.sec("blanks before every kind of line");
  strings({" ", "\t"}, c.thorough ? 8 : 5, [&](const std::string& b) { for (auto x : {"*ls", "*", "**x", "20 PRINT V", "20", "0 X", "V=3", "PRINT V", "LIST", "RUN", "BYE", "NEW", "", "REM", "?V", ":V=4", "'x", "CONT", "HELP", "\"x\"", "(", "-1", ".5", "+5 X", "%"}) for (auto y : {"", " ", "\t", " 1"}) for (int st = 0; st < 4; st++) if (c.take()) cmd(c, {STATES[st], b + x + y}); });
  c.sec("histories of commands");
  const VS E = {"BYE 1", "COMPILE", "CONT", "HELP", "LIST", "LIST 20-", "LOAD \"F\"", "LOAD \"N\"", "LOAD F", "NEW", "NEW 1", "RENUM", "RENUM 5,20", "RENUM X", "RUN", "SAVE \"F\"", "SAVE", "*cmd", "", " ", "20", "20 PRINT V", "V=V+1", "0 X", "LIST Q", "CLEAR", "STOP"};
  sequences(E, 1, c.thorough ? 4 : 3, [&](CVS v) { if (!c.take()) return; cmd(c, {STATES[v.size() + 1], join(v, "|")}); });
  c.sec("the input ends"); // after each line, at a reply, at a page
  for (auto& st : STATES) for (auto x : {"", "PRINT 1", "RUN", "INPUT A", "INPUT A,B|1", "LINE INPUT A$", "10 INPUT A|RUN", "FOR I=1 TO 9:INPUT A:NEXT", "LISTP", "LOAD \"N\"", "PRINT (", "PRINT LOG(0)", "*x", "CONT", "HELP", "SAVE \"G\"", "GOTO 10", "BYE"}) for (int cut = 0; cut < 2; cut++) if (c.take()) { VS v = {st, x}; cmd(c, v, true); if (cut) { std::string p; for (int i = 1; i < 60; i++) p += num(i) + " REM|"; cmd(c, {p + "7", x}, true); } }
}

void gen_C28(Ctx& c) {
  static const VS A = {"-q", "-k", "-m", "-t", "-f", "-g", "-z", "-l", "-n", "-p", "-c", "-r", "-v", "-h", "-hh", "P", "E", "N", "--quiet", "--keywords-anywhere", "--report-memory", "--trace-basic", "--trace-for", "--trace-log", "--randomize", "--list", "--list-names", "--parse", "--code", "--run", "--version", "--help", "--help-full", "-x", "--lists"};
  auto run = [&](CVS v) { if (!c.take()) return; Case k; k.argv = v; k.files["P"] = "10 PRINT \"=ran=\":FOR I=1 TO 2:PRINT I,TAB(20);\"x\":NEXT\n20 INPUT A:DIM B(3):B(A)=SIN(0):PRINT B(1)\n30 END\n"; k.files["E"] = "10 PRINT \"=ran=\"\n20 PRINT (\n30 GOTO 10\n"; k.in = {"1\n", "PRINT \"=ran=\";2\n", "10 PRINT 3\n", "RUN\n", "LIST\n", "BYE\n"}; c.run(Check{"cli", {k}, ""}); };
  c.sec("every list of arguments");
  run({}); sequences(A, 1, 2, run);
  { VS B(A.begin(), A.begin() + 18); B.push_back("-x"); sequences(B, 3, c.thorough ? 5 : 4, run); }
  c.sec("every subset of options"); const VS S = {"-q", "-k", "-m", "-t", "-f", "-g", "-z", "-l", "-n", "-p", "-c", "-r"};
  for (int m = 0; m < 1 << S.size(); m++) { VS v; for (size_t i = 0; i < S.size(); i++) if (m >> i & 1) v.push_back(S[i]); for (auto f : {"P", "E", ""}) { VS w = v; if (*f) w.insert(w.begin() + (w.size() + m) / 2 % (w.size() + 1), f); run(w); } }
  c.sec("nearly an option"); // every option changed by a character
  for (auto& a : A) if (a[0] == '-') { VS v; for (size_t i = 0; i <= a.size(); i++) { std::string s = a; s.insert(i, "x"); v.push_back(s); s = a; s.insert(i, "-"); v.push_back(s); s = a; s.insert(i, " "); v.push_back(s); s = a; s.insert(i, "="); v.push_back(s); if (i < a.size()) { s = a; s.erase(i, 1); v.push_back(s); s = a; s[i] = toupper(s[i]); v.push_back(s); s = a; s[i]++; v.push_back(s); v.push_back(a.substr(0, i)); } } for (auto& s : v) { bool un = s == "-?" || s == "-i" || s == "--time" || s == "/?" || s == "-unittest" || s == "--unit-tests"; if (un) continue; run({s}); run({s, "P"}); run({"P", s}); run({"-q", "P", s, "-l"}); } }
  c.sec("every character as an argument"); for (int ch = 1; ch < 256; ch++) { std::string x(1, (char)ch), d = "-" + x; if (d == "-?" || d == "-i" || x == "/" || x == ".") continue; run({"-q", x}); run({d}); run({d, "P"}); run({"P", d + "q"}); run({"-q", "-" + d, "P"}); run({"P", x}); }
  c.sec("options many times"); for (auto& a : S) for (auto& b : S) for (int n : {3, 4, 10, 50, 300}) { VS v; for (int i = 0; i < n; i++) v.push_back(i % 2 ? b : a); v.insert(v.begin() + n / 2, "P"); run(v); }
  c.sec("programs of every kind in every mode"); // the end status and what is reported
  const VS PR = {"10 PRINT \"=ran=\"", "", "10 PRINT (", "20 REM|10 REM", "x", "10 PRINT LOG(0)", "10 END", "10 STOP", "10 FOR I=1 TO 3", "10 GOTO 20", "10 DATA 1|20 READ A,B", "10 INPUT A,B:PRINT A;B", "10 RETURN", "10 DEF FNA(X)=X|20 PRINT FNA(1):A$=\"\"", "10 PRINT RND(1)", "10 CLS", "10 REM only", "0 PRINT 1", "10", "10 PRINT 1;", "10 IFATHENPRINTB", "10 LIST", "10 A=B(C,D$)", "65535 PRINT 1|65536 PRINT 2", "10 RANDOMIZE:X=RND(1)"};
  for (auto& p : PR) for (auto m : {"", "-r", "-l", "-n", "-p", "-c"}) for (int f = 0; f < 128; f++) { if (!c.take()) continue; Case k; const char* F[] = {"-q", "-k", "-m", "-t", "-f", "-g", "-z"}; for (int i = 0; i < 7; i++) if (f >> i & 1) k.argv.push_back(F[i]); if (*m) k.argv.push_back(m); k.argv.push_back("P"); std::string& s = k.files["P"]; for (auto& l : split(p)) if (!p.empty()) s += l + "\n"; k.in = {"3,4\n", "5\n"}; c.run(Check{"cli", {k}, ""}); }
}
