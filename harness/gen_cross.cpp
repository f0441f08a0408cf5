// A seventh group: what each property is about (its payloads) in every surrounding, and in every pair of surroundings.
// A payload is a small program whose output shows the feature, and lines typed after it. A surrounding puts it after
// other names, lines, statements, columns, operands, calls and loops, numbers its lines differently, types other things
// before and after it, edits it between runs, or runs it again and again. The model says what has to be seen.
#include "gen.h"
#define X(id) void cross_##id(Ctx& c)
struct Pay { VS prog; std::string tail; VS opts = {}; std::map<std::string, std::string> files = {}; };
struct Env {
  int names = 0, gap = 0, lines = 0, data = 0; long base = 100, step = 10; int col = 0; int pos = 0; std::string pad = "N9=N9:"; int depth = 0; std::string open = "0+(";
  int loops = 0, calls = 0, runs = 1; VS before, after; std::string edits; bool typed = false; int kind = 0;
};
// {k} {k+d}: number of payload line k; [e]: a numeric expression that can be wrapped
static std::string fill_in(const std::string& s, const Env& e, const std::vector<long>& at, size_t room) {
  std::string o; bool str = false; size_t marks = std::count(s.begin(), s.end(), '['); int d = e.depth; size_t close = 0; for (char ch : e.open) close += ch == '(';
  while (marks && d > 0 && s.size() + marks * d * (e.open.size() + close) > room) d--;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '"') str = !str;
    if (s[i] == '{') { size_t q = s.find('}', i), k = (size_t)atol(s.c_str() + i + 1); size_t sg = s.find_first_of("+-", i); long delta = sg < q ? atol(s.c_str() + sg) : 0; o += num((k < at.size() ? at[k] : 7) + delta); i = q; }
    else if (!str && s[i] == '[') o += rep(e.open, d); else if (!str && s[i] == ']') o += rep(")", d * close); else o += s[i];
  }
  return o;
}
static Case build(const Pay& p, const Env& e) {
  Case k; k.argv = p.opts.empty() ? VS{"-q"} : p.opts; k.files = p.files; VS lines; long n = e.base; // the lines before go below
  std::vector<long> at; size_t extra = 0;
  auto put = [&](const std::string& s) { lines.push_back(num(n) + " " + s); n += e.step; extra++; };
  if (e.lines) { long s = 1; for (int i = 0; i < e.lines; i++) lines.push_back(num(s + i) + (e.kind == 0 ? " REM" : e.kind == 1 ? " N9=N9" : " REM it is line " + num(i))); if (n <= e.lines) n = e.lines + 10; }
  for (int i = 0; i < e.data; i++) put("DATA " + num(i));
  if (e.data) put("FOR N9=1 TO " + num(e.data) + ":READ N8:NEXT");
  if (e.calls && e.loops) put("N7=0");
  for (int i = 0; i < e.calls; i++) { put("GOSUB " + num(n + e.step) + ":PRINT \"c" + num(i) + "\":" + (i ? "RETURN" : "END")); }
  for (int i = 0; i < e.loops; i++) put("FOR L" + num(i) + "=1 TO 1");
  if (e.col) put("PRINT SPC(" + num(e.col) + ");");
  long first = n; std::vector<std::string> body; size_t gap = p.prog.size() ? (size_t)e.gap % p.prog.size() : 0;
  std::vector<std::pair<size_t, std::string>> order; // payload index or filler
  for (size_t i = 0; i < p.prog.size(); i++) { if (e.names && i == gap) { std::string f; for (int j = 0; j < e.names; j++) { f += (f.empty() ? "" : ":") + std::string("W") + num(j) + "=1"; if (f.size() > 100 || j + 1 == e.names) { order.push_back({(size_t)-1, f}); f.clear(); } } } order.push_back({i, ""}); }
  long m = n; for (auto& x : order) { if (x.first != (size_t)-1) at.push_back(m); m += e.step; }
  for (auto& x : order) { if (x.first == (size_t)-1) { put(x.second); continue; } std::string s = fill_in(p.prog[x.first], e, at, 236); int pn = e.pos; while (pn > 0 && s.size() + pn * e.pad.size() > 240) pn--; put(rep(e.pad, pn) + s); }
  if (e.calls) put("RETURN");
  (void)first; (void)body;
  bool file = !e.typed || lines.size() > 60; for (auto& l : lines) if (l.size() > 120) file = true;
  auto in = [&](const std::string& s) { for (auto& l : split(s)) { std::string t = fill_in(l, e, at, 118); if (t.size() < 127) k.in.push_back(t + "\n"); } };
  if (file) { std::string& f = k.files["P"]; for (auto& l : lines) f += l + "\n"; k.in.push_back("LOAD \"P\"\n"); } else for (auto& l : lines) k.in.push_back(l + "\n");
  for (auto& b : e.before) in(b);
  VS tail = split(p.tail); size_t i = 0;
  // the first line of the tail runs the program (or does what matters); replies to INPUT follow it in the tail
  for (int r = 1; r < e.runs; r++) for (size_t j = 0; j < (tail.size() && tail[0] == "RUN" ? 1 : tail.size()); j++) in(tail[j]);
  if (!e.edits.empty()) { in(tail[0]); in(e.edits); }
  for (; i < tail.size(); i++) { in(tail[i]); if (i == 0) for (auto& a : e.after) in(a); }
  return k;
}
typedef std::function<void(const Case&, bool)> Judge;
static void each(Ctx& c, const std::vector<Pay>& ps, const Judge& j, int weight) { // weight: 2 everything, 1 less, 0 least
  auto go = [&](const Pay& p, const Env& e) { if (!c.take()) return; j(build(p, e), e.names > 80 || e.lines > 80 || e.runs > 3 || e.data > 60); };
  bool th = c.thorough; int every = th ? 1 : weight == 2 ? 1 : weight == 1 ? 3 : 7; long cnt = 0; auto skip = [&]() { return every > 1 && cnt++ % every; };
  auto wide = [&](int n) { return th || n < 20 || (n & (n - 1)) == 0 || ((n + 1) & n) == 0 || ((n - 1) & (n - 2)) == 0; };
  c.sec("payloads after other names");
  for (auto& p : ps) for (int g = 0; g < (int)p.prog.size(); g++) for (int n = 1; n <= 520; n++) { if (!(wide(n) || (n >= 236 && n <= 264) || n % 50 == 0)) continue; if (skip()) continue; Env e; e.names = n; e.gap = g; go(p, e); }
  c.sec("payloads after other lines");
  for (auto& p : ps) for (int n = 1; n <= 5000; n++) { if (!((n <= 1024 && wide(n)) || (n >= 118 && n <= 136) || (n >= 246 && n <= 262) || (n >= 390 && n <= 400) || n == 512 || n == 2048 || n == 4096 || n % 500 == 0)) continue; if (skip()) continue; for (int kd = 0; kd < 2; kd++) { Env e; e.lines = n; e.kind = kd; e.base = 5010; go(p, e); } }
  c.sec("payloads with lines of every range of numbers");
  for (auto& p : ps) for (long b : {1L, 2L, 9L, 10L, 99L, 100L, 127L, 128L, 255L, 256L, 397L, 500L, 511L, 512L, 794L, 999L, 1000L, 1023L, 1024L, 4095L, 4096L, 8191L, 8192L, 9999L, 10000L, 16383L, 16384L, 20000L, 32000L, 32760L, 32767L, 32768L, 39999L, 40000L, 50000L, 60000L, 65000L, 65500L, 65520L, 65525L, 65530L, 65534L, 65535L, 65536L, 70000L, 99999L, 100000L, 131071L, 131072L, 1000000L, 16777216L, 2147483640L, 2147483647L, 2147483648L, 4000000000L, 4294967200L}) for (long s : {1L, 2L, 7L, 10L, 100L, 255L, 256L, 397L, 1000L}) for (int t = 0; t < 2; t++) { if (b + s * 12 > 4294967294L) continue; if (s > 10 && b > 20000 && !th) continue; if (skip()) continue; Env e; e.base = b; e.step = s; e.typed = t; go(p, e); }
  c.sec("payloads at every column of the output");
  for (auto& p : ps) for (int n = 1; n <= 300; n++) { if (n > 20 && !th && weight < 2 && n % 8 > 1) continue; if (skip()) continue; Env e; e.col = n; go(p, e); }
  c.sec("payloads at every place in a line");
  for (auto& p : ps) for (auto pad : {":", " ", "N9=N9:", "N9$=\"\":", "N9=1+2*3:", "REM:", "\t", "LET N9=N9:", "PRINT ;:", "N9(1)=N9:", "READ N8:"}) for (int n = 1; n <= 240; n++) { if (n * strlen(pad) > 240) break; if (!strcmp(pad, "REM:") && n > 1) break; if (strlen(pad) == 1 && n > 16 && !th && weight < 2 && n % 8 > 1) continue; if (skip()) continue; Env e; e.pos = n; e.pad = pad; go(p, e); }
  c.sec("payloads with operands at every depth");
  for (auto& p : ps) { bool has = false; for (auto& l : p.prog) has = has || l.find('[') != std::string::npos; if (!has && p.tail.find('[') == std::string::npos) continue; for (auto op : {"(", "0+(", "1*(", "-(", "0-(0-", "1*1*(", "0+1*(", "0+0+0+("}) for (int d = 1; d <= 120; d++) { std::string o = op; if (o == "0-(0-") { if (d % 1) continue; } if (o != "(" && d > 40 && o != "-(") break; if (d > 18 && !th && d % 3) continue; if (skip()) continue; Env e; e.open = o; e.depth = d; go(p, e); } }
  c.sec("payloads within calls and loops, run again and again");
  for (auto& p : ps) for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (int r : {1, 2, 5}) { if (r > 1 && f && g && !th && (f + g) % 4) continue; if (skip()) continue; Env e; e.loops = f; e.calls = g; e.runs = r; go(p, e); }
  for (auto& p : ps) for (int r : {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257}) { if (r > 40 && !th && weight < 2) continue; Env e; e.runs = r; go(p, e); }
  c.sec("payloads after data");
  for (auto& p : ps) for (int n : {1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 300}) { if (skip()) continue; Env e; e.data = n; go(p, e); }
  c.sec("payloads after other things typed");
  VS H = { "PRINT LOG(0)", "PRINT (", "A$=\"im\"", "Z=5:I=9", "X=3", "CLEAR", "10", "5 REM", "5", "5 PRINT (|RUN|5", "LIST 1-2", "COMPILE", "SAVE \"G\"", "LOAD \"none\"", "RENUM 60000", "RENUM 100,1,1", "FOR Z=1 TO 3", "FOR I=1 TO 2:NEXT", "DIM A(20)", "DEF FNA(Q)=Q", "DEF FNZ(X)=X:PRINT FNZ(2)", "READ Q9$", "DATA 5:READ Q9", "RESTORE", "CONT", "RUN", "STOP", "END", "RETURN", "GOSUB 5", "5 RETURN|GOSUB 5", "5 STOP|RUN|CONT", "5 STOP|RUN", "5 GOSUB 6|6 STOP|RUN", "5 FOR J=1 TO 5:STOP|RUN", "1 READ N8|RUN", "NEW|LOAD \"P\"", "*x", "60000 PRINT \"sixty\"", "RANDOMIZE 3:N9=RND(1)", "PRINT \"abc\";", "PRINT SPC(30);", "CLS", "INPUT Q9|5", "LINE INPUT Q9$|text", "ON 9 GOTO 5", "PRINT FNZ(1)", "PRINT A(99)", "\"", "LET", "DIM A(1),A$(1)", "A(3)=4:B(2)=3", "N=1" };
  for (auto& p : ps) for (auto& h : H) { { Env e; e.before = {h}; e.typed = true; if (h.find("LOAD \"P") != std::string::npos) e.typed = false; go(p, e); } { Env e; e.after = {h}; go(p, e); } { Env e; e.before = {"RUN", h}; go(p, e); } }
  for (auto& p : ps) for (auto& h : H) for (auto& i : H) { if (skip()) continue; if (!th && (cnt + (long)h.size() + (long)i.size()) % (weight == 2 ? 2 : 4)) { cnt++; continue; } cnt++; { Env e; e.before = {h, i}; go(p, e); } { Env e; e.after = {h, i}; go(p, e); } { Env e; e.before = {h}; e.after = {i}; go(p, e); } }
  c.sec("payloads edited between runs");
  for (auto& p : ps) { VS ed; for (size_t i = 0; i < p.prog.size(); i++) { std::string k = num((long)i); if (p.prog[i].size() < 90) for (auto& form : {"{" + k + "} " + p.prog[i], "{" + k + "} N9=N9:N9=N9:" + p.prog[i], "{" + k + "}|{" + k + "} " + p.prog[i], "{" + k + "-1} " + p.prog[i] + "|{" + k + "-1}", "{" + k + "+1} " + p.prog[i] + "|{" + k + "} REM"}) ed.push_back(form); for (auto& form : {"{" + k + "-1} N9=1:N9=2", "{" + k + "+1} N9=1:N9=2", "{" + k + "}", "{" + k + "} REM", "{" + k + "} PRINT \"new\"", "{" + k + "-1} STOP", "{" + k + "+1} PRINT \"new\";", "RENUM 200,{" + k + "},5"}) ed.push_back(form); }
    for (auto x : {"RENUM", "RENUM 1,1,1", "RENUM 1000", "RENUM 95,1,1", "RENUM 100,1,5", "NEW|LOAD \"P\"", "LOAD \"P\"", "SAVE \"G\"|LOAD \"G\"", "1 N9=1|1", "CLEAR"}) ed.push_back(x);
    for (auto& e1 : ed) { for (int t = 0; t < 2; t++) { Env e; e.edits = e1; e.typed = t; go(p, e); } for (auto& e2 : ed) { if (skip()) continue; if (!th && (cnt += 1 + (long)e1.size() % 3) % 9) continue; Env e; e.edits = e1 + "|RUN|" + e2; go(p, e); } } }
  c.sec("payloads in pairs of surroundings");
  std::vector<std::vector<std::function<void(Env&)>>> F;
  F.push_back({[](Env& e) { e.names = 60; e.gap = 1; }, [](Env& e) { e.names = 250; e.gap = 2; }, [](Env& e) { e.names = 130; }});
  F.push_back({[](Env& e) { e.lines = 70; e.base = 5010; }, [](Env& e) { e.lines = 130; e.base = 5010; e.kind = 1; }, [](Env& e) { e.lines = 300; e.base = 60000; }});
  F.push_back({[](Env& e) { e.base = 1; e.step = 1; }, [](Env& e) { e.base = 32760; e.step = 3; }, [](Env& e) { e.base = 65480; e.step = 2; }, [](Env& e) { e.base = 70000; }, [](Env& e) { e.base = 256; e.step = 256; }});
  F.push_back({[](Env& e) { e.col = 9; }, [](Env& e) { e.col = 70; }, [](Env& e) { e.col = 130; }, [](Env& e) { e.col = 254; }});
  F.push_back({[](Env& e) { e.pos = 1; }, [](Env& e) { e.pos = 12; }, [](Env& e) { e.pos = 150; e.pad = ":"; }, [](Env& e) { e.pos = 9; e.pad = "N9$=N9$+\"a\":"; }});
  F.push_back({[](Env& e) { e.depth = 5; }, [](Env& e) { e.depth = 12; }, [](Env& e) { e.depth = 14; }, [](Env& e) { e.depth = 60; e.open = "("; }, [](Env& e) { e.depth = 3; e.open = "-(-"; }});
  F.push_back({[](Env& e) { e.loops = 1; }, [](Env& e) { e.loops = 6; }, [](Env& e) { e.loops = 8; }});
  F.push_back({[](Env& e) { e.calls = 1; }, [](Env& e) { e.calls = 6; }, [](Env& e) { e.calls = 8; }});
  F.push_back({[](Env& e) { e.runs = 2; }, [](Env& e) { e.runs = 9; }});
  F.push_back({[](Env& e) { e.data = 3; }, [](Env& e) { e.data = 40; }});
  { std::vector<std::function<void(Env&)>> f; for (auto& h : H) f.push_back([h](Env& e) { e.before = {h}; }); F.push_back(f); }
  { std::vector<std::function<void(Env&)>> f; for (auto& h : H) f.push_back([h](Env& e) { e.after = {h}; }); F.push_back(f); }
  F.push_back({[](Env& e) { e.edits = "{0-1} N9=1:N9=2"; }, [](Env& e) { e.edits = "{1+1} PRINT \"new\""; }, [](Env& e) { e.edits = "RENUM 1,1,3"; }, [](Env& e) { e.edits = "{1}"; }, [](Env& e) { e.edits = "SAVE \"G\"|NEW|LOAD \"G\""; }});
  F.push_back({[](Env& e) { e.typed = true; }});
  for (auto& p : ps) for (size_t a = 0; a < F.size(); a++) for (size_t b = a + 1; b < F.size(); b++) for (auto& x : F[a]) for (auto& y : F[b]) { if (skip()) continue; Env e; x(e); y(e); go(p, e); }
  if (th || weight == 2) for (auto& p : ps) for (size_t a = 0; a < F.size(); a++) for (size_t b = a + 1; b < F.size(); b++) for (size_t d = b + 1; d < F.size(); d++) for (auto& x : F[a]) for (auto& y : F[b]) for (auto& z : F[d]) { if (!th && (++cnt % 60)) continue; if (th && F[a].size() + F[b].size() + F[d].size() > 50 && ++cnt % 5) continue; Env e; x(e); y(e); z(e); go(p, e); }
}
static void judged_by_model(Ctx& c, const std::vector<Pay>& ps, int weight) { each(c, ps, [&](const Case& k, bool big) { c.run(Check{"model", {k}, big ? "long" : ""}); }, weight); }

static const std::vector<Pay> P01 = {
  {{"A=16777217:B=1/3:C=[A]-16777216", "PRINT [A]-16777216;[B]-1/3;[A-16777216];C", "PRINT [A>16777216];[A=16777217];[NOT A];[A AND 255];[A OR 1E6]", "PRINT [-B]*3;[B^2]*9;[2^[3]];[7/[2]];[1E300*[1E300]]"}, "RUN|PRINT [A]-16777216;[B]-1/3"},
  {{"PRINT [1<2]+[2<1];[1=1 AND 2=2];[NOT 0];[-2^2];[2*3+4];[2+3*4];[7-2-1];[2^3^2]", "A$=\"AB\":B$=\"AC\"", "PRINT [A$<B$];[A$=B$];[A$<>B$];[A$>=B$];[LEN(A$)];[ASC(B$)]", "IF [A$<B$] AND [1] THEN PRINT \"yes\" ELSE PRINT \"no\""}, "RUN|PRINT [A$<B$]"} };
static const std::vector<Pay> P02 = {
  {{"X=X+1:PRINT \"a\";X", "IF X<3 THEN {0}", "IF [X=3] THEN PRINT \"t\" ELSE PRINT \"e\"", "ON [X-1] GOTO {0},{4},{5}", "PRINT \"4\":GOTO {6}", "PRINT \"5\"", "IF X>3 THEN {7} ELSE {0}", "PRINT \"end\""}, "RUN|GOTO {2}|IF 1 THEN {7}|ON 2 GOTO {1},{5}"},
  {{"GOTO {2}", "PRINT \"1\":END", "PRINT \"2\":IF 1 THEN IF 0 THEN PRINT \"x\" ELSE GOTO {1}", "PRINT \"3\""}, "RUN|GOTO {3}"},
  {{"IF Y THEN {2}", "Y=1:GOTO {0}", "PRINT \"two\":IF Y=1 THEN Y=2:GOTO {0}", "REM", "PRINT \"end\""}, "RUN|PRINT Y"} };
static const std::vector<Pay> P03 = {
  {{"FOR I=[1] TO [3] STEP [1]", "FOR J=3 TO 1 STEP -1", "PRINT I;J;:NEXT J", "PRINT", "NEXT I", "PRINT I;J"}, "RUN|NEXT|NEXT I"},
  {{"FOR K=1 TO 2:FOR L=.5 TO 1.5 STEP .25", "PRINT K;L", "NEXT L,K", "FOR K=5 TO 1", "PRINT \"once\";K", "NEXT", "PRINT K"}, "RUN|NEXT K"},
  {{"FOR I=1 TO 3", "IF I=2 THEN FOR J=1 TO 2:PRINT \"j\";J:NEXT", "NEXT", "FOR I=1 TO 2", "FOR J=1 TO 2", "FOR I=7 TO 8", "PRINT I;J", "NEXT:PRINT I;J:NEXT"}, "RUN|NEXT J|NEXT"} };
static const std::vector<Pay> P04 = {
  {{"GOSUB {3}:PRINT \"back\";X", "ON [2] GOSUB {3},{5}:PRINT \"on\";X", "END", "X=X+1:GOSUB {5}", "PRINT \"r\":RETURN", "X=X+10", "RETURN"}, "RUN|GOSUB {3}|ON 1 GOSUB {5}:PRINT X|RETURN"},
  {{"N=N+1:IF N<4 THEN GOSUB {0}:PRINT \"b\";N:N=N-1:RETURN", "PRINT \"deep\"", "RETURN"}, "RUN|N=0|GOSUB {0}|PRINT N"} };
static const std::vector<Pay> P05 = {
  {{"DATA 1,two,\" q \"", "READ A,B$,C$", "PRINT A;B$;C$;\"|\"", "DATA ,3.5,5e1,x y ", "READ D$,A([1]),A([2]),E$(1,1)", "PRINT D$;A(1);A(2);E$(1,1);\"|\"", "RESTORE {3}", "READ E$(2,2),Q(1,1):PRINT E$(2,2);Q(1,1)", "RESTORE:READ A:PRINT A", "READ D:PRINT D"}, "RUN|READ Z$|PRINT Z$|RESTORE|READ Z|PRINT Z"},
  {{"READ A:PRINT A", "RESTORE {3}", "READ A$:PRINT A$", "DATA 4", "READ A$:PRINT A$;\"|\"", "DATA \"\",five : DATA 6", "READ A$,B:PRINT A$;B"}, "RUN|READ B"} };
static const std::vector<Pay> P06 = {
  {{"DIM A(5),B$(3,4),C(2,3)", "A([2])=7:B$(1,[2])=\"s\":C([2],3)=A(2)+1", "PRINT A([2]);B$(1,2);C(2,3);A(3);B$(2,1)", "D(10)=4:E$(3,10)=\"e\":PRINT D(10);E$(3,10);D(3)", "PRINT A([6])"}, "RUN|PRINT A(2);C(2,3)|A(5)=1:PRINT A(5)|DIM A(7):PRINT A(2)|A(7)=3:PRINT A(7)"},
  {{"FOR I=0 TO 3:FOR J=0 TO 2", "R(I,J)=I*10+J:R$(J,I)=STR$(R(I,J))", "NEXT J,I", "PRINT R(3,2);R(2,1);R(1,2);R$(2,3);R$(1,2);R$(0,0)", "DIM R(1,1):PRINT R(1,1):PRINT R(2,1)"}, "RUN|PRINT R(1,1);R$(2,3)|R(1,2)=3"} };
static const std::vector<Pay> P07 = {
  {{"A$=\"hello\":B$=A$+\" \"+A$", "PRINT LEFT$(B$,[3]);MID$(B$,[2],[4]);RIGHT$(B$,[2]);\"|\"", "PRINT B$=A$+\" hello\";A$<B$;LEN(B$);ASC(B$);CHR$([72]);STR$([1.5]);VAL(\"-2\")", "B$=B$+B$:C$(1)=B$:PRINT C$(1);LEN(C$(1))"}, "RUN|PRINT B$;LEN(C$(1));MID$(C$(1),[3],[2])|PRINT MID$(A$,[6],1)"},
  {{"A$=A$+\"a\":B$=A$+CHR$(64+LEN(A$))", "IF LEN(A$)<6 THEN {0}", "PRINT A$;B$;LEFT$(B$,1)+RIGHT$(B$,1)", "IF B$>A$ THEN PRINT \"more\"", "PRINT LEFT$(\"abc\",[0]);\"|\";RIGHT$(\"abc\",[9]);\"|\";MID$(\"abc\",[3],[9])"}, "RUN|PRINT A$"} };
static const std::vector<Pay> P08 = {
  {{"DEF FNA(X)=X*2+Y", "DEF FNB$(N)=LEFT$(\"abcdef\",N)+STR$(N)", "Y=[1]:X=5:N=9", "PRINT FNA([3]);X;FNB$([2]);N", "DEF FNA(Y)=Y-X", "PRINT FNA([10]);Y;FNA(FNA(1))"}, "RUN|PRINT FNA(2)|DEF FNC(Z)=Z+X:PRINT FNC(1)"},
  {{"DEF FNA(X)=[X+1]*[X]", "PRINT FNA(2);X", "X=4:PRINT FNA(FNA(1)+X);X", "DEF FNB(X)=LOG(X)", "PRINT FNB(1):PRINT FNB(0)"}, "RUN|PRINT X;FNA(1)|X=2|CONT"} };
static const std::vector<Pay> P09 = {
  {{"INPUT A,B$", "INPUT \"p\";C(1,2),D$", "LINE INPUT E$(2)", "PRINT A;B$;C(1,2);D$;E$(2)"}, "RUN|5,abc|x|1,2,3|a, b,c|PRINT A;B$|INPUT A|1|6"},
  {{"X=2:INPUT A(X),A(X+1)", "INPUT B$:PRINT A(2);A(3);B$", "IF A(2)<5 THEN {0}"}, "RUN|1,2|q|q,2|7,8|\"z\" |PRINT A(2)"} };
static const std::vector<Pay> P10 = {
  {{"PRINT \"ab\";TAB([10]);\"c\",1;2", "PRINT SPC([3]);\"x\",\"y\";", "PRINT 123456789,:PRINT TAB(5);\"z\"", "PRINT ,,TAB(40);-1.5;\"q\";1E10,"}, "RUN|PRINT TAB(3);\"i\"|PRINT 1,2"} };
static const std::vector<Pay> P11 = {
  {{"PRINT \"a\"", "PRINT \"b\"", "PRINT \"c\"", "REM the end"}, "LIST|{1} PRINT 9|LIST|{1}|LIST {0}-|{2} REM|{1+1} PRINT \"ins\"|LIST -{2}|{0}|LIST|{3}|LIST {1}-{3}|{3+5} END|LIST|RUN"},
  {{"A=1", "A=2"}, "{1}|{1+3} A=3|{0-1} A=0|LIST|{1+3}|LIST {0}|{0}|{0} A=4|LIST|{0-1}|{0}|LIST|{2} A=5|LIST"} };
static const std::vector<Pay> P12 = {
  {{"PRINT \"a\"", "DATA  1,\" x\"", " REM  two", "X=1:PRINT X"}, "SAVE \"F\"|NEW|LIST|LOAD \"F\"|LIST|RUN|{1}|SAVE \"F\"|LOAD \"none\"|LIST|LOAD \"P\"|LOAD \"F\"|LIST"} };
static const std::vector<Pay> P13 = {
  {{"GOTO {2}", "PRINT \"1\":END", "GOSUB {4}:ON 1 GOTO {3},{1}", "IF 0 THEN {0} ELSE {1}", "DATA 5,{1}", "RESTORE {4}:READ A,B:PRINT A:RETURN:REM GOTO {1}"}, "RENUM|LIST|RUN|RENUM 1000,{1},3|LIST|RUN|RENUM 5,1,1|LIST|RUN"},
  {{"ON X GOSUB {1},{2},{3}:PRINT \"{1}\";:IF X<4 THEN X=X+1:GOTO {0}", "PRINT \"s\":IF X<4 THEN RETURN", "IF X<3 THEN PRINT 1:RETURN ELSE RETURN", "RETURN"}, "RENUM {0-7},{1},9|LIST|RENUM 200,{2}|LIST|RUN"} };
static const std::vector<Pay> P14 = {
  {{"PRINT \"a\";:STOP:PRINT \"b\"", "FOR I=1 TO 2:GOSUB {4}:NEXT", "STOP", "PRINT \"end\":END", "PRINT I;:STOP:RETURN"}, "RUN|CONT|PRINT I|CONT|CONT|CONT|CONT"},
  {{"DEF FNA(X)=X+Y:DATA 1,2", "READ Y:STOP", "READ Z:PRINT FNA(Z);Y:STOP"}, "RUN|Y=5|CONT|CONT|PRINT FNA(1)|CONT"} };
static const std::vector<Pay> P15 = {
  {{"X=X+1:A$=A$+\"q\":Q(1)=Q(1)+1", "DEF FNA(Z)=Z+X", "PRINT X;A$;Q(1)"}, "RUN|X=X+5:PRINT X|PRINT FNA(1)|GOTO {0}|CLEAR|PRINT X;A$;Q(1)|RUN|NEW|PRINT X"},
  {{"IF X=0 THEN X=1:DIM B(3),B$(2,2):B(3)=1:B$(2,2)=\"b\"", "PRINT B(3);B$(2,2);C(9)", "C(9)=C(9)+1:D$(12)=\"d\""}, "RUN|GOTO {1}|PRINT D$(12);C(9)|CLEAR|B(20)=5:PRINT B(20)|D$(13)=\"e\"|RUN|PRINT B(4)"} };
static std::vector<Pay> failing() { std::vector<Pay> v; for (auto f : {"PRINT LOG([0])", "GOSUB 9", "NEXT Q", "PRINT Q([11])", "A$=CHR$([256])", "READ Z", "PRINT FNZ(1)", "ON [.5] GOTO 2", "A$=\"a\"+MID$(\"b\",[2],1)", "RETURN", "PRINT VAL(\"x\")", "DIM Q([-1])", "PRINT FNE(1)"}) v.push_back({{"X=X+1:PRINT \"a\";X:DEF FNE(Y)=LOG(Y-1)", f, "PRINT \"not here\""}, "RUN|PRINT X;Y|CONT|GOTO {0}|" + std::string(f) + "|RUN|PRINT \"still\""}); return v; }
static std::vector<Pay> wrong() { std::vector<Pay> v; for (auto f : {"PRINT [1+]", "PRINT (1", "A$=[1]", "X 1", "FOR I", "GOTO A", "PRINT \"open", "LEFT$=1", "DIM A", "NEXT 1", "READ 1", "IF 1 PRINT", "ELSE", "PRINT LEFT$(1,1)", "A=\"s\"+[1]", "GOTO 70000", "DEF FNA(A$)=1", "ON 1 PRINT"}) v.push_back({{"PRINT \"a\"", f, "PRINT \"b\""}, "RUN|PRINT 1|COMPILE|{1} PRINT \"ok\"|RUN|{1} " + std::string(f) + "|RUN|" + f + "|GOTO {0}"}); return v; }
static const std::vector<Pay> P19 = {
  {{"a=[1]:IF a=1 then print \"A\";A", "For I = 1 To 2 : Print i ; : nExt", "let a$ = \"x\" : pRINT A$", "rem PRINT", "data 1 , two ", "READ b , B$ : print B ; b$"}, "run|LiSt|print [a]"},
  {{"IFA=0THENPRINT\"z\"ELSEPRINT\"n\"", "FORI=1TO2:PRINTI:NEXTI", "GOTO{4}", "PRINT\"skip\"", "PRINTAORB;NOTA"}, "RUN|LIST|PRINT A", {"-q", "-k"}} };
static const std::vector<Pay> P21 = {
  {{"AB=1:AB$=\"s\":AB(1)=2:AB$(1)=\"t\":A=3:ABC=4", "BA=5:b$=\"u\":DEF FNA(AB)=AB+BA", "PRINT AB;AB$;AB(1);AB$(1);A;ABC;ab;BA;B$;FNA(1)", "FOR BA=1 TO 2:FOR BB=3 TO 4:NEXT BB,BA:PRINT BA;BB", "C=7:D=8:E$=\"e\":F$=\"f\"", "C(1)=C:D(1)=D:E$(1)=E$:F$(1)=F$", "PRINT C(1);D(1);E$(1);F$(1);C;D"}, "RUN|PRINT AB;AB$;C;D;F$(1)|c=1:PRINT C"} };
static const std::vector<Pay> P22 = {
  {{"DATA 1E5,.5,-7,123456789,1e-3", "READ A,B,C,D,E:PRINT A;B;C;D;E", "PRINT [1E5];[.5];-[7];[123456789]-123456788;VAL(\"1E5\");STR$([1E5]);[1234567.5]*2-2469134", "INPUT F:PRINT F=[A];F", "GOTO {5}", "IF A=VAL(STR$(A)) THEN PRINT \"same\""}, "RUN|1E5|PRINT [.1]+.2;[4294967297]-4294967296"} };
static const std::vector<Pay> P23 = {
  {{"RANDOMIZE [5]:A=RND(1):B=RND(1)", "RANDOMIZE 5:PRINT A=RND(1);B=RND(1);A<>B", "PRINT INT(RND(1)*1000);INT(RND*1000)", "RANDOMIZE [70000]:C=RND(1):RANDOMIZE 70000:PRINT C=RND(1)", "RANDOMIZE 70000:D=RND(0):PRINT C=D;A>=0;A<1"}, "RUN|RANDOMIZE 5:PRINT A=RND(1)|RANDOMIZE 5:PRINT A=RND(1)|RUN"} };
static const std::vector<Pay> P26 = {
  {{"A=1/3:PRINT ABS([-2.5]);SGN([-1]);INT([-1.5]);SQR([16]);SGN([0])", "PRINT EXP([1]);LOG([10]);SIN([1]);COS([1]);TAN([1]);ATN([1])", "PRINT (EXP([A])-1)*3;LOG([1+A])-A;SQR([A])^2-A;INT([A*30]);ABS([A])-A", "PRINT LOG([-1])"}, "RUN|PRINT ABS([-A])-A;SQR([2])"} };
static std::vector<Pay> every() { std::vector<Pay> v; for (auto* p : {&P01, &P02, &P03, &P04, &P05, &P06, &P07, &P08, &P09, &P10, &P11, &P12, &P13, &P14, &P15, &P19, &P21, &P22, &P23, &P26}) v.insert(v.end(), p->begin(), p->end()); auto f = failing(); v.insert(v.end(), f.begin(), f.begin() + 4); f = wrong(); v.insert(v.end(), f.begin(), f.begin() + 3); return v; }

X(C01) { judged_by_model(c, P01, 2); } X(C02) { judged_by_model(c, P02, 2); } X(C03) { judged_by_model(c, P03, 2); } X(C04) { judged_by_model(c, P04, 2); } X(C05) { judged_by_model(c, P05, 2); } X(C06) { judged_by_model(c, P06, 2); } X(C07) { judged_by_model(c, P07, 2); } X(C08) { judged_by_model(c, P08, 2); } X(C09) { judged_by_model(c, P09, 2); } X(C10) { judged_by_model(c, P10, 2); } X(C11) { judged_by_model(c, P11, 2); } X(C12) { judged_by_model(c, P12, 2); } X(C13) { judged_by_model(c, P13, 2); } X(C14) { judged_by_model(c, P14, 2); } X(C15) { judged_by_model(c, P15, 2); }
X(C16) { judged_by_model(c, failing(), 1); } X(C18) { judged_by_model(c, wrong(), 1); } X(C19) { judged_by_model(c, P19, 2); } X(C21) { judged_by_model(c, P21, 2); } X(C22) { judged_by_model(c, P22, 2); } X(C23) { judged_by_model(c, P23, 2); } X(C26) { judged_by_model(c, P26, 2); }
X(C25) { judged_by_model(c, every(), 0); }
X(C17) { each(c, every(), [&](const Case& k, bool big) { c.run(Check{"mem", {k}, big ? "long" : ""}); }, 0); }
X(C20) { std::vector<Pay> v = every(); static const VS os = {"-t", "-f", "-tf"}; int i = 0; for (auto& p : v) { VS a = {"-q"}; for (auto& x : p.opts) if (x == "-k") a.push_back(x); for (const char* x = os[i++ % 3].c_str() + 1; *x; x++) a.push_back(std::string("-") + *x); p.opts = a; } judged_by_model(c, v, 0); }
