// An eighth group: the same statement carried out, parsed, typed or failing thousands of times; arrays of every shape
// after arrays of every shape; what tracing and other options do at every column; endless programs at every depth.
#include "gen.h"
#define R(id) void reps_##id(Ctx& c)

// ---- thousands of times
struct Unit { std::string st; VS in = {}; }; // in: what each execution reads
static void thousands_of(Ctx& c, const std::vector<Unit>& us, CVS opts = {}) {
  const std::string sub = "890 END\n900 RETURN\n910 DATA 1,two,3,4\n"; VS argv = opts.empty() ? VS{"-q"} : opts;
  auto probe = [](Case& k) { for (auto l : {"PRINT \"still\";A;B$;X;LEN(A$)", "PRINT (1)+(2);FNA(1)", "FOR J=1 TO 3:PRINT J;:NEXT:PRINT", "GOSUB 900", "CONT", "5 PRINT \"new\":END", "RUN"}) k.in.push_back(std::string(l) + "\n"); };
  c.sec("statements carried out by the thousand");
  for (auto& u : us) for (long n : {257L, 1025L, 4100L, 10010L, 33000L, 66000L}) { bool t = c.thorough || n < 5000 || u.st.size() % 2 == (n > 40000); if (!t || (u.in.size() && n > 5000)) continue; if (!c.take()) continue; Case k; k.argv = argv; k.files["P"] = "10 R9=0:DEF FNA(X)=X+1\n20 R9=R9+1:" + u.st + "\n30 IF R9<" + num(n) + " THEN 20\n40 PRINT \"done\";A;A$\n" + sub; k.in = {"LOAD \"P\"\n", "RUN\n"}; for (long i = 0; i < n; i++) for (auto& x : u.in) k.in.push_back(x + "\n"); probe(k); c.run(Check{"model", {k}, "long"}); }
  c.sec("statements in a program by the thousand");
  for (auto& u : us) for (long n : {257L, 1025L, 4100L, 10010L, 33000L}) for (int per : {1, 8}) { if (u.in.size() && n > 5000) continue; if (per == 1 && n > 10000 && !c.thorough) continue; if (!c.take()) continue; Case k; k.argv = argv; std::string& f = k.files["P"]; f = "1 DEF FNA(X)=X+1\n2 ON L+1 GOTO 3,5,4000000001\n3 PRINT \"first\";\n"; long ln = 5, m = 0; while (m < n) { std::string l; for (int i = 0; i < per && m < n; i++, m++) { if (l.size() + u.st.size() > 230) break; l += (i ? ":" : "") + u.st; } if (ln == 890) ln = 920; f += num(ln++) + " " + l + "\n"; if (ln == 890) f += "890 GOTO 920\n900 RETURN\n910 DATA 1,two,3,4\n"; }
    if (ln < 890) f += sub; else f += num(ln) + " PRINT \"end\";A\n"; k.in = {"LOAD \"P\"\n", "RUN\n"}; for (long i = 0; i < n; i++) for (auto& x : u.in) k.in.push_back(x + "\n"); probe(k); c.run(Check{"model", {k}, "long"}); }
  c.sec("lines typed by the thousand");
  for (auto& u : us) for (long n : {257L, 1025L, 3100L, 5000L}) for (int how = 0; how < 3; how++) { if (n == 3100 && !c.thorough) continue; if (how == 2 && n > 2000 && !c.thorough) continue; if (!c.take()) continue; Case k; k.argv = argv; k.in = {"1 DEF FNA(X)=X+1\n"}; for (auto& l : split(sub, '\n')) if (l.size()) k.in.push_back(l + "\n"); k.in.push_back("RUN\n"); std::string line = (how == 0 ? "" : how == 1 ? "20 " : "20 ") + u.st; if (line.size() > 120) continue; for (long i = 0; i < n; i++) { k.in.push_back(line + "\n"); if (how == 0) for (auto& x : u.in) k.in.push_back(x + "\n"); if (how == 2) { k.in.push_back("RUN\n"); for (auto& x : u.in) k.in.push_back(x + "\n"); } } if (how == 1) { k.in.push_back("RUN\n"); for (auto& x : u.in) k.in.push_back(x + "\n"); } probe(k); c.run(Check{"model", {k}, "long"}); }
}
static std::vector<Unit> U(std::initializer_list<const char*> l) { std::vector<Unit> v; for (auto x : l) v.push_back({x}); return v; }
static void shapes_C15(Ctx& c); static void shapes_C06(Ctx& c); static void columns_C20(Ctx& c);
R(C01) { thousands_of(c, U({"A=(1)+(2)+(3)", "A=1<2", "A=-(1)^2+A*0", "A=NOT 1 AND 3 OR 8", "A=((((2))))", "A=1+2*3-4/2", "PRINT LOG(0)"})); }
R(C02) { thousands_of(c, U({"IF A THEN B=1 ELSE A=0", "IF A=0 THEN A=A+1", "ON 3 GOTO 3", "ON 1 GOSUB 900", "IF 1 THEN IF 0 THEN A=1 ELSE A=2", "IF 0 THEN 3"})); }
R(C03) { thousands_of(c, U({"FOR I=1 TO 2:NEXT", "FOR I=1 TO 1:FOR J=1 TO 1:NEXT J,I", "FOR I=1 TO 2", "FOR I=2 TO 1 STEP -1:A=I:NEXT I", "NEXT", "FOR I=5 TO 1:NEXT"})); }
R(C04) { thousands_of(c, U({"GOSUB 900", "ON 1 GOSUB 900", "IF 1 THEN GOSUB 900 ELSE GOSUB 900", "RETURN", "GOSUB 3333333"})); }
R(C05) { thousands_of(c, U({"RESTORE:READ A,B$", "DATA 5", "READ A", "DATA a b,\"c\",", "READ B$:DATA 1", "RESTORE 910:READ A"})); }
R(C06) { shapes_C06(c); thousands_of(c, U({"Q(1)=Q(1)+1:A=Q(1)", "A=Q(2)", "Q$(1)=\"s\"", "DIM Q(5):Q(5)=1", "DIM Q$(2,2):Q$(2,1)=\"q\"", "A=Q(11)", "Q(1,1)=2"})); }
R(C07) { thousands_of(c, U({"A$=\"ab\"+\"c\"", "A$=LEFT$(\"abc\",2)", "A=LEN(MID$(\"abcd\",2,2))", "A$=STR$(1)", "A$=CHR$(65)", "A=VAL(\"5\")", "IF A$<\"b\" THEN A=1", "A$=MID$(\"a\",3,1)", "A=ASC(\"a\"):A$=RIGHT$(A$,1)", "B$=A$:A$=B$"})); }
R(C08) { thousands_of(c, U({"DEF FNA(X)=X+2", "A=FNA(2)", "A=FNA(FNA(2))", "DEF FNB$(Z)=STR$(Z):A$=FNB$(1)", "A=FNC(1)", "A=FNA(LOG(0))"})); }
R(C09) { thousands_of(c, {{"INPUT A", {"5"}}, {"INPUT \"p\";A,B$", {"1,two"}}, {"LINE INPUT A$", {"text"}}, {"INPUT A", {"x", "6"}}, {"INPUT Q(1),A", {"1", "2,3"}}}); }
R(C10) { thousands_of(c, U({"PRINT 1;", "PRINT \"a\",", "PRINT", "PRINT TAB(3);", "PRINT SPC(2)", "PRINT A$,A;\"x\"", "CLS"})); }
R(C11) { thousands_of(c, U({"REM a", "", "LIST 900", "50 REM", "PRINT \"a\""})); }
R(C12) { thousands_of(c, U({"SAVE \"F\"", "LOAD \"none\"", "REM", "SAVE \"no/F\""})); }
R(C13) { thousands_of(c, U({"GOTO 900", "IF A THEN 900 ELSE 900", "ON 2 GOTO 900", "RENUM 900,900", "RESTORE 910"})); }
R(C14) { thousands_of(c, U({"A=A+1:STOP", "CONT", "END", "STOP"})); 
  c.sec("stopped and continued by the thousand"); for (int n : {100, 1000, 3000, 10000, 40000}) for (auto b : {"X=X+1:STOP:GOTO 10", "FOR I=1 TO 2:STOP:NEXT:GOTO 10", "GOSUB 20:GOTO 10", "A$=A$+\"a\":STOP:A$=LEFT$(A$,3):GOTO 10"}) { if (n > 10000 && !c.thorough && b[0] != 'X') continue; if (!c.take()) continue; Case k = session(std::string("10 ") + b + "|20 STOP:RETURN|RUN"); for (int i = 0; i < n; i++) k.in.push_back("CONT\n"); k.in.push_back("PRINT X;A$;I\n"); c.run(Check{"model", {k}, "long"}); } }
R(C15) { shapes_C15(c); thousands_of(c, U({"CLEAR", "A=A+1:A$=A$+\"a\":IF A>200 THEN A$=\"\":A=0", "RUN 900", "DIM Q(3):CLEAR"})); 
  c.sec("run by the thousand"); for (int n : {100, 1000, 3000, 10000, 40000}) for (auto e : {"RUN", "CLEAR", "NEW", "RUN 20", "GOTO 20", "X=X+1", "LOAD \"P\""}) { if (n > 10000 && !c.thorough && e[0] != 'R') continue; if (!c.take()) continue; Case k = session("10 X=X+1:A$=A$+\"a\":Q(1)=Q(1)+1|20 IF Q(1)>1 OR LEN(A$)>1 THEN PRINT \"kept\"|30 DATA 5|40 READ Y:IF Y<>5 THEN PRINT \"data\"|SAVE \"P\"|RUN"); for (int i = 0; i < n; i++) k.in.push_back(std::string(e) + "\n"); for (auto l : {"PRINT X;A$;Q(1)", "RUN", "RUN", "LIST"}) k.in.push_back(std::string(l) + "\n"); c.run(Check{"model", {k}, "long"}); } }
R(C16) { thousands_of(c, U({"PRINT LOG(0)", "GOSUB 9999999", "NEXT Q", "PRINT Q(11)", "A$=CHR$(256)", "READ Z", "PRINT FNZ(1)", "RETURN", "FOR I=1 TO 2:A=LOG(0)"})); }
R(C18) { thousands_of(c, U({"A=(1)+((2))", "A=LEN(\"a\")", "A$=LEFT$(\"a\",1)", "PRINT 1;2,", "PRINT \"a", "IF A THEN B=1 ELSE B=2", "FOR I=1 TO 2 STEP 3:NEXT I", "DIM Q(1),R$(2,3)", "ON A GOTO 3,4", "INPUT Q9,R9$", "DATA 1,\"a\",b", "READ A,B$", "DEF FND(X)=X", "GOTO 3:GOSUB 3", "LET A=1", "RESTORE 3", "A=-1", "A=NOT 1", "A=FNA(1)", "REM a", "?1", "A=1E5+.5", "PRINT (", "X 1", "A=\"a\"", "LINE INPUT B$", "PRINT TAB(1);SPC(2);", "RANDOMIZE 1", "A=RND(1)", "CLEAR", "A$=A$+\"\"", "A=1 AND 2 OR 3", "A=1<>2"})); }
R(C19) { thousands_of(c, U({"print 1;", "LET A=1", "let a=a:rem x", "If a Then b=1 Else a=0", "for i=1 to 2:next", "IFATHENB=1"}), {"-q", "-k"}); }
R(C20) { columns_C20(c); for (auto& o : std::vector<VS>{{"-q", "-t"}, {"-q", "-f"}}) thousands_of(c, U({"A=1", "FOR I=1 TO 2:NEXT", "PRINT 1;", "GOSUB 900"}), o); }
R(C21) { thousands_of(c, U({"ABC=1:ABD=2:A=ABC", "A$=B$:A=B", "ab=AB+1", "A(1)=A+1:B(1)=A(1)", "FOR AB=1 TO 2:NEXT AB"})); }
R(C22) { thousands_of(c, U({"A=1.5:A$=STR$(A)", "A=VAL(\"1E5\")", "PRINT 1.5;", "A=.25E1"})); }
R(C23) { thousands_of(c, U({"RANDOMIZE 5:A=INT(RND(1)*100)", "A=RND(1)<1", "A=INT(RND*6)+1<7"}));
  c.sec("the sequence by the thousand"); for (int seed : {1, 5, 77, 32768, 99999}) for (int n : {100, 1000, 5000, 30000}) for (int how = 0; how < 3; how++) { if (!c.take()) continue; auto make = [&](int rest) { return program("10 RANDOMIZE " + num(seed) + "\n20 S=0:FOR I=1 TO " + num(n) + "\n30 X=RND(1)" + (rest == 1 ? ":A=A+X:A$=STR$(X)" : rest == 2 ? ":RESTORE:READ Q:GOSUB 900" : "") + ":S=S+X\n40 NEXT\n50 PRINT \"=\"\n60 PRINT S,X,RND(1),RND(0)\n70 END\n800 DATA 5\n900 RETURN"); }; Case a = make(0), b = make(how); for (auto* k : {&a, &b}) { k->argv = {"-q", "P"}; std::string p; (void)p; } c.run(Check{"tail", {a, b}, "=\n"}); } }
R(C26) { thousands_of(c, U({"A=ABS(-1)+SGN(-2)+INT(2.5)", "A=SQR(4)+EXP(0)", "A=LOG(1)+SIN(0)+COS(0)", "A=TAN(0)+ATN(0)", "A=SQR(-1)", "A=LOG(0)"})); }
R(C25) { thousands_of(c, U({"A=(1)", "A$=\"a\"", "PRINT 1;", "GOSUB 900", "FOR I=1 TO 2:NEXT", "Q(1)=1", "A=FNA(1)"})); }

// ---- arrays of every shape after arrays of every shape
static void shapes(Ctx& c, CVS between) {
  std::vector<std::string> sh = {""}; const int B[] = {0, 1, 2, 3, 5, 9, 10, 11, 12, 20}; for (int a : B) sh.push_back(num(a)); for (int a : {0, 1, 2, 3, 9, 10, 11, 20}) for (int b : {0, 1, 3, 9, 10, 11, 20}) sh.push_back(num(a) + "," + num(b)); for (auto s : {"1,2,3", "10,10,10", "3,2,1", "1,1,1,1", "10,1,2"}) sh.push_back(s);
  auto at = [](const std::string& s, int delta, int which) { if (s.empty()) return num(10 + delta); VS v = split(s, ','); std::string o; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + num(atol(v[i].c_str()) + ((int)i == which || which < 0 ? delta : 0)); return o; };
  for (size_t t = 0; t < 2; t++) for (auto& x : sh) for (auto& y : sh) for (auto& w : between) { std::string n = t ? "Q$" : "Q", val = t ? "=\"v\"" : "=7", val2 = t ? "=\"w\"" : "=8"; if (!c.thorough && t && (x.size() + y.size()) % 2) continue; if (!c.take()) continue;
    VS v; auto dim = [&](const std::string& s) { if (!s.empty()) v.push_back("DIM " + n + "(" + s + ")"); else v.push_back(n + "(3)" + val); };
    dim(x); v.push_back(n + "(" + at(x, 0, -1) + ")" + val + ":PRINT " + n + "(" + at(x, 0, -1) + ")"); for (auto& l : split(w)) v.push_back(l); dim(y); v.push_back("PRINT " + n + "(" + at(y, 0, -1) + ");\"|\""); if (!y.empty()) v.push_back(n + "(" + at(y, 0, -1) + ")" + val2); for (size_t d = 0; d < split(y, ',').size(); d++) v.push_back("PRINT " + n + "(" + at(y, 1, (int)d) + ")"); v.push_back("PRINT " + n + "(" + at(x, 0, -1) + ");\"|\""); v.push_back("PRINT " + n + "(" + at(y, 0, -1) + ")");
    Case k; k.argv = {"-q"}; k.in = {"10 PRINT 1\n"}; for (auto& l : v) k.in.push_back(l + "\n"); c.model(k); }
}
static void shapes_C15(Ctx& c) { c.sec("arrays of every shape, forgotten, and of every shape again"); shapes(c, {"RUN", "CLEAR", "NEW"}); }
static void shapes_C06(Ctx& c) { c.sec("arrays of every shape, and of every shape again"); shapes(c, {"REM", "CLEAR"}); }

// ---- options at every column
static void columns_C20(Ctx& c) {
  c.sec("options at every column");
  const VS os = {"-g", "-t", "-f", "-tf", "-tg", "-fg", "-k", "-m", "-gm", "-gk"};
  for (int n = 0; n <= 300; n++) for (auto body : {"20 PRINT TAB(10);\"b\",\"c\"", "20 A=1|30 PRINT ,\"d\"", "20 FOR I=1 TO 2|30 PRINT \"e\",;|40 NEXT|50 PRINT", "20 GOSUB 90|30 PRINT TAB(70);\"f\":END|90 RETURN", "20 IF 1 THEN 40|40 PRINT SPC(3);\"g\",\"h\"", "20 INPUT A|30 PRINT TAB(5);A,"}) for (auto& o : os) { if (n > 100 && !c.thorough && n % 10 > 1) continue; if (!c.take()) continue; Case plain = program("10 PRINT SPC(" + num(n) + ");|" + std::string(body)); plain.in = {"5\n"}; Case k = plain; k.argv.clear(); for (const char* x = o.c_str() + 1; *x; x++) k.argv.push_back(std::string("-") + *x); k.argv.push_back("-q"); k.argv.push_back("P"); c.run(Check{"opts", {plain, k}, ""}); }
  c.sec("options for programs of every size");
  for (int n = 1; n <= 400; n += n < 140 ? 1 : 9) for (auto& o : os) { if (!c.take()) continue; std::string p; for (int i = 1; i <= n; i++) p += (i > 1 ? "|" : "") + num(i * 5) + (i % 7 == 3 ? " PRINT \"p\",;" : i % 5 == 2 ? " FOR I=1 TO 2:NEXT" : i % 11 == 6 ? " GOSUB 64990" : " A=A+1:B$=STR$(A)"); p += "|64980 PRINT A;B$:END|64990 RETURN"; Case plain = program(p), k = plain; k.argv.clear(); for (const char* x = o.c_str() + 1; *x; x++) k.argv.push_back(std::string("-") + *x); k.argv.push_back("-q"); k.argv.push_back("P"); c.run(Check{"opts", {plain, k}, ""}); }
  c.sec("options at every depth of calls and loops");
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (auto& o : os) for (auto b : {"PRINT \"x\",X;", "X=X+1:PRINT LOG(X-1)", "STOP", "RETURN", "NEXT"}) { if (!c.take()) continue; std::string p = "1 GOTO 10"; long ln = 10; for (int i = 0; i < f; i++, ln += 10) p += "|" + num(ln) + " FOR L" + num(i) + "=1 TO 1"; for (int i = 0; i < g; i++, ln += 10) p += "|" + num(ln) + " GOSUB " + num(ln + 10) + ":PRINT \"r\";" + (i ? ":RETURN" : ":END"); p += "|" + num(ln) + " " + b + "|" + num(ln + 10) + " " + (g ? "RETURN" : "END"); Case plain = program(p), k = plain; k.argv.clear(); for (const char* x = o.c_str() + 1; *x; x++) k.argv.push_back(std::string("-") + *x); k.argv.push_back("-q"); k.argv.push_back("P"); c.run(Check{"opts", {plain, k}, ""}); }
}

// ---- C24 at every depth
R(C24) {
  c.sec("an endless program is stopped at every depth");
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (auto body : {"GOTO @", "X=X+1:GOTO @", "FOR Z=1 TO 2 STEP 0:NEXT", "A$=STR$(X):IF A$<>\"\" THEN @", "ON 1 GOTO @", "GOSUB 5:GOTO @", "PRINT \"y\";:GOTO @", "RESTORE:READ A:GOTO @", "Q(1)=FNA(Q(1)):GOTO @"}) {
    if (!strncmp(body, "FOR", 3) && f == 8) continue; if (!strncmp(body, "GOSUB", 5) && g == 8) continue; if (f && g && f < 8 && g < 8 && !c.thorough && (f + g) % 3) continue;
    for (int from : {0, 4000}) { if (!c.take()) continue; Case a, e; a.argv = {"-q"}; VS p = {"1 DEF FNA(X)=X+1:GOTO 10", "5 RETURN", "6 DATA 4"}; long ln = 10; for (int i = 0; i < g; i++, ln += 10) p.push_back(num(ln) + " GOSUB " + num(ln + 10)); for (int i = 0; i < f; i++, ln += 10) p.push_back(num(ln) + " FOR L" + num(i) + "=1 TO 2"); std::string b; for (const char* x = body; *x; x++) if (*x == '@') b += num(ln); else b += *x; p.push_back(num(ln) + " " + b); p.push_back("PRINT \"@@\""); p.push_back("RUN"); for (auto& l : p) a.in.push_back(l + "\n"); c.run(Check{"irq", {a, e}, "endless;" + num(from) + ";" + num(c.thorough ? 200 : 40)}); } }
  c.sec("a break at every depth, judged by the model");
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (auto body : {"X=X+1:PRINT X;", "A$=STR$(X)+\"q\":PRINT FNA(2)", "READ A:PRINT A;"}) for (auto& ev : std::vector<VS>{{"CONT", "PRINT X;L0;L7", "CONT|RETURN"}, {"RUN", "CONT|RETURN|NEXT"}, {"PRINT 1", "CONT", "RUN"}}) { if (f && g && !c.thorough && (f + 2 * g) % 4) continue; if (!c.take()) continue;
    Case k; k.argv = {"-q"}; VS p = {"1 DEF FNA(X)=X+1:GOTO 10", "5 RETURN", "6 DATA 4"}; long ln = 10; for (int i = 0; i < g; i++, ln += 10) p.push_back(num(ln) + " GOSUB " + num(ln + 10) + ":PRINT \"r\";:" + (i ? "RETURN" : "END")); for (int i = 0; i < f; i++, ln += 10) p.push_back(num(ln) + " FOR L" + num(i) + "=1 TO 1"); p.push_back(num(ln) + " " + body); ln += 10; for (int i = 0; i < f; i++, ln += 10) p.push_back(num(ln) + " NEXT"); p.push_back(num(ln) + (g ? " RETURN" : " END"));
    for (auto& l : p) k.in.push_back(l + "\n"); size_t cmd = k.in.size(); k.in.push_back("RUN\n"); for (auto& x : ev) for (auto& l : lines_of(x)) k.in.push_back(l); c.run(Check{"irqm", {k}, num((long)cmd) + ";" + num(c.index % 11) + (c.thorough ? ";3" : ";11")}); }
}
R(C17) { // the same in memory: fewer, since every run is made twice
  c.sec("by the thousand, memory");
  for (auto st : {"A=(1)+(2)", "A$=\"ab\"+STR$(1)", "GOSUB 900", "FOR I=1 TO 2:NEXT", "FOR I=1 TO 2", "RESTORE:READ A,B$", "Q(1)=Q(2)", "Q$(1,1)=\"s\"+A$", "A=FNA(2)", "DEF FNA(X)=X+2", "PRINT LOG(0)", "PRINT (", "IF A THEN B=1 ELSE A=0", "A$=MID$(\"abc\",2,9)", "DIM Q(20)", "PRINT 1,\"x\";"}) for (int n : {300, 1100, 4100}) for (int how = 0; how < 3; how++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; f = "5 DEF FNA(X)=X+1\n"; if (how == 0) f += std::string("10 R9=R9+1:") + st + "\n20 IF R9<" + num(n) + " THEN 10\n"; else if (how == 1) for (int i = 0; i < n / 4; i++) f += num(1000 + i) + " " + st + ":" + st + ":" + st + ":" + st + "\n"; f += "890 " + std::string(how == 1 ? "GOTO 1000" : "END") + "\n900 RETURN\n910 DATA 1,two\n"; k.in = {"LOAD \"P\"\n", "RUN\n"}; if (how == 2) for (int i = 0; i < n / 2; i++) k.in.push_back(std::string(st) + "\n"); for (auto l : {"RUN", "CLEAR", "LIST 900", "NEW"}) k.in.push_back(std::string(l) + "\n"); c.run(Check{"mem", {k}, "long"}); }
}
