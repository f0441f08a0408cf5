// C20 options, C23 random numbers, C24 interrupts, C25 sizes
#include "gen.h"
static Case with_input(Case k, const VS& in) { for (auto& l : in) k.in.push_back(l + "\n"); return k; }
static const VS PROGS = {
  "10 FOR I=1 TO 3:PRINT I;:NEXT:PRINT|20 GOSUB 50|30 PRINT \"end\":END|50 PRINT \"sub\":RETURN",
  "10 FOR I=1 TO 2:FOR J=3 TO 1 STEP -1|20 X=X+I*J:PRINT X,|30 NEXT J,I|40 IF X>10 THEN PRINT \"big\" ELSE PRINT \"small\"",
  "10 INPUT \"n\";A:LINE INPUT B$|20 PRINT A;B$:IF A<3 THEN 10|30 ON A GOTO 10,20,40|40 PRINT \"forty\"",
  "10 DIM Q(4),R$(2):DEF FNA(X)=X*2|20 FOR I=0 TO 4:Q(I)=FNA(I):NEXT|30 READ A$,B:PRINT A$;B;Q(4)|40 RESTORE:READ R$(1):PRINT R$(1)|50 DATA x,5",
  "10 PRINT \"a\":STOP|20 PRINT \"b\"", "10 PRINT \"a\";LOG(0)|20 PRINT \"b\"", "10 GOTO 30|20 PRINT 20:END|30 PRINT 30:GOTO 20", "10 N=N+1:IF N<4 THEN 10|20 PRINT N|30 REM|40|50 DATA 1|60 PRINT \"e\";",
  "10 PRINT RND(1)=RND(1)|20 RANDOMIZE 4:PRINT RND(1)>=0|30 CLEAR:PRINT A", "10 PRINT (", "10 FOR K=1 TO 1:NEXT K:NEXT K", "10 FOR A=5 TO 1:PRINT A:NEXT|20 FOR A=1 TO 2:FOR A=3 TO 4:PRINT A:NEXT:PRINT \"o\"", "10 GOSUB 20|20 D=D+1:IF D<12 THEN GOSUB 20|30 PRINT D", "10 PRINT \"tab\";TAB(20);1,2;|20 PRINT SPC(3);\"x\"" };
G(C20) {
  VS opts = {"-t", "-f", "-g", "-k", "-m", "-r", "-z"};
  VS full = {"--trace-basic", "--trace-for", "--trace-log", "--keywords-anywhere", "--report-memory", "--run", "--randomize"};
  VS in = {"2", "line one", "3", "line, two", "9", "z"};
  auto each = [&](const std::string& p) {
    Case plain = with_input(program(p), in);
    for (int m = 0; m < 128; m++) for (int q = 0; q < 2; q++) {
      if (m >> 6 & 1 && p.find("RND") != std::string::npos && p.find("PRINT RND") == std::string::npos) continue;
      if (!c.take()) continue;
      Case k = plain; k.argv.clear(); for (int i = 0; i < 7; i++) if (m >> i & 1) k.argv.push_back((m + q) % 3 ? opts[i] : full[i]); 
      if (q) k.argv.push_back(m % 2 ? "-q" : "--quiet"); k.argv.push_back("P"); if (m % 3 == 0) std::rotate(k.argv.begin(), k.argv.end() - 1, k.argv.end());
      c.run(Check{"opts", {plain, k}, ""});
    }
  };
  c.sec("every set of options for every program");
  for (auto& p : PROGS) each(p);
  c.sec("all short programs under every tracing option");
  { VS L = {"PRINT I;", "FOR I=1 TO 2", "NEXT", "GOSUB 90", "RETURN", "IF I THEN 30 ELSE PRINT \"e\"", "GOTO 30", "ON I GOTO 20,30", "X=X+1:IF X>6 THEN END", "FOR J=3 TO 1 STEP -1:PRINT J;:NEXT J", "REM", "", "STOP", "INPUT I", "READ I", "DATA 1,2", "PRINT LOG(0)", "DEF FNA(X)=X+1:PRINT FNA(1)", "NEXT I", "CLEAR", "FOR J=1 TO 2:NEXT I"};
    sequences(L, 1, c.thorough ? 3 : 2, [&](CVS v) { std::string p; for (size_t i = 0; i < v.size(); i++) p += num(10 + 10 * (long)i) + " " + v[i] + "|"; p += "60 N=N+1:IF N<3 THEN 10|65 END|90 PRINT \"sub\":RETURN"; Case plain = with_input(program(p), {"1", "0", "2", "1"});
      for (auto o : {"-t", "-f", "-g", "-tf", "-tg", "-tfg", "-m", "-k"}) { if (!c.take()) continue; Case k = plain; k.argv.clear(); for (const char* x = o + 1; *x; x++) k.argv.push_back(std::string("-") + *x); k.argv.push_back("-q"); k.argv.push_back("P"); c.run(Check{"opts", {plain, k}, ""}); } }); }
  c.sec("listing, parsing and code never execute");
  { VS L; for (auto& p : PROGS) L.push_back(p); for (auto x : {"PRINT \"ran\"", "INPUT A", "DATA 1,\"x y\", z", "REM  text", "  PRINT  1", "A$=\"GOTO\":?A$", "DEF FNA(X)=X", "PRINT TAB(3);SPC(2);LEN(\"x\")", "foo bar", "\"", ""}) { L.push_back(std::string("10 ") + x); L.push_back(std::string("5 PRINT 1|65535 ") + x); }
    for (auto& p : L) for (auto mode : {"-l", "--list", "-n", "--list-names", "-p", "--parse"}) for (auto extra : {"", "-k", "-t", "-f", "-g"}) { if (!c.take()) continue; Case k = with_input(program(p), in); k.argv = {"-q", mode}; if (*extra) k.argv.push_back(extra); k.argv.push_back("P"); c.model(k); c.run(Check{"idle", {k}, ""}); std::swap(k.argv[0], k.argv[1]); c.model(k); k.argv.erase(std::find(k.argv.begin(), k.argv.end(), "-q")); Case q = k; q.argv.insert(q.argv.begin(), "-q"); c.run(Check{"banner", {q, k}, ""}); }
    for (auto& p : L) for (auto mode : {"-c", "--code"}) { if (!c.take()) continue; Case k = with_input(program(p), in); k.argv = {"-q", mode, "P"}; c.run(Check{"idle", {k}, ""}); Case q = k; q.argv = {"-q", "-p", "P"}; c.run(Check{"status", {k, q}, ""}); }
    VS words = {"A", "B$", "LEN", "abs", "TAB", "1", "\"GOTO X\"", "PRINT", "REM Z", "DATA W", "f(1)", "a", "Spc", ":", "CHR$", "ZZ9"};
    sequences(words, 1, 3, [&](CVS v) { if (!c.take()) return; Case k; k.argv = {"-q", "-n", "P"}; k.files["P"] = "10 " + join(v, " ") + "\n20 " + v[0] + "\n"; c.model(k); });
    for (auto n : {1, 2, 62, 63, 64, 65, 100, 128, 129, 200, 300, 500}) for (int ord = 0; ord < 3; ord++) { if (!c.take()) continue; Case k; k.argv = {"-q", "-n", "P"}; for (int i = 0; i < n; i++) k.files["P"] += num(i + 1) + " NM" + num(ord == 0 ? i : ord == 1 ? n - i : i * 7 % n) + "=XY" + num(i / 2) + "\n"; c.run(Check{"model", {k}, "long"}); k.argv[1] = "-l"; c.run(Check{"model", {k}, "long"}); } }
  c.sec("tracing in a session");
  { VS ev = {"RUN", "CONT", "GOTO 30", "PRINT 1", "FOR I=1 TO 2:GOSUB 90:NEXT", "20 NEXT", "LIST", "NEXT", "GOSUB 90", "30 STOP:PRINT \"t\"", "PRINT LOG(0)"};
    for (auto& o : std::vector<VS>{{"-q", "-t"}, {"-q", "-f"}, {"-q", "-t", "-f"}, {"-f", "-q"}}) c.histories(o, {"10 FOR I=1 TO 2:PRINT \"x\";I", "20 NEXT", "30 PRINT \"thirty\"", "40 END", "90 PRINT \"sub\":RETURN"}, ev, {"RUN"}, c.thorough ? 4 : 3);
    sequences(ev, 1, 2, [&](CVS v) { if (!c.take()) return; std::string s = "10 FOR I=1 TO 2:PRINT \"x\";I|20 NEXT|30 STOP|90 PRINT \"sub\":RETURN"; for (auto& x : v) s += "|" + x; Case a = session(s), b = a; b.argv = {}; c.run(Check{"banner", {a, b}, "session"}); b.argv = {"-g"}; c.run(Check{"banner", {a, b}, "session"}); b.argv = {"-z"}; c.run(Check{"banner", {a, b}, "session"}); }); }
}

G(C23) {
  c.sec("extreme results of the generator");
  { std::vector<int> ex = {0, 1, 2147483647, 2147483646, 2147483645, 1073741824, 1073741823, 65535, 32767, 2147418112, 2147483392};
    for (auto a : ex) for (auto b : ex) for (auto d : ex) for (auto arg : {"1", "0", "-1"}) { if (!c.take()) continue; Case k = program(std::string("10 FOR I=1 TO 3:X=RND(") + arg + "):PRINT X<1;X>=0;INT(X);INT(X*6)+1<=6:NEXT"); k.rnd = {a, b, d}; c.run(Check{"lines", {k}, "-1 -1 0 -1"}); } }
  c.sec("range of the values");
  for (int s = 0; s < (c.thorough ? 4000 : 400); s++) if (c.take()) { Case k = program("10 RANDOMIZE " + num(s) + ":FOR I=1 TO 100:X=RND(1):IF X<0 OR X>=1 THEN PRINT \"bad\";X|20 NEXT:PRINT \"done\""); c.run(Check{"lines", {k}, "done"}); }
  VS noise = {"PRINT 1", "A=5", "A$=\"x\"+STR$(3)", "DIM Q(3)", "FOR J=1 TO 3:NEXT", "GOSUB 900", "DEF FNA(X)=X:PRINT FNA(2)", "READ D", "RESTORE", "PRINT SIN(1);LOG(2);SQR(3);VAL(\"4\")", "CLEAR", "CLS", "IF 1 THEN PRINT 2", "ON 1 GOSUB 900", "PRINT LEFT$(\"abc\",2);MID$(\"abc\",2,1)", "Q(2)=3", "INPUT D", "LINE INPUT D$", "REM", "PRINT TAB(5);SPC(3)"};
  c.sec("only RND consumes values");
  { int L = c.thorough ? 3 : 2; sequences(noise, 1, L, [&](CVS v) { if (!c.take()) return; auto make = [&](bool with, const std::string& first) { std::string p = "10 " + first + "|20 PRINT RND(1)"; for (size_t i = 0; i < v.size(); i++) p += "|" + num(30 + (long)i) + " " + (with ? v[i] : "REM"); Case k = program(p + "|100 PRINT \"=\"|110 PRINT RND(1),RND(0),RND(-1),RND(5)|120 END|800 DATA 1,2,3|900 RETURN"); k.in = {"1\n", "2\n", "3\n"}; return k; };
      for (auto f : {"", "RANDOMIZE 7"}) c.run(Check{"tail", {make(false, f), make(true, f)}, "=\n"}); }); }
  c.sec("reproducible");
  for (auto n : {"0", "1", "2", "5", "100", "32767", "65535", "65536", "4294967295", "2147483648"}) for (auto h : {"", "PRINT RND(1)", "RANDOMIZE", "RANDOMIZE 3:PRINT RND(1)", "FOR I=1 TO 50:X=RND(1):NEXT", "CLEAR", "10 REM|RUN", "PRINT LOG(0)", "RANDOMIZE LOG(0)", "NEW"}) for (long now : {0L, 12345L, 1700000000L}) for (auto z : {"", "-z"}) { if (!c.take()) continue;
    Case a = session(std::string("RANDOMIZE ") + n + "|PRINT \"=\"|PRINT RND(1),RND(1)|FOR I=1 TO 20:PRINT RND(I);:NEXT|20 PRINT RND(1)|RUN"), b = session((*h ? std::string(h) + "|" : std::string()) + "RANDOMIZE " + n + "|PRINT \"=\"|PRINT RND(1),RND(1)|FOR I=1 TO 20:PRINT RND(I);:NEXT|20 PRINT RND(1)|RUN"); b.now = now; if (*z) b.argv.push_back(z); c.run(Check{"tail", {a, b}, "=\n"}); }
  c.sec("without RANDOMIZE every run is the same");
  for (auto p : {"10 PRINT \"=\"|20 FOR I=1 TO 30:PRINT RND(1):NEXT", "10 X=RND(1)|15 PRINT \"=\"|20 PRINT X;RND(1)*100"}) for (long now : {0L, 1L, 99999L, 1700000000L}) for (auto o : {"-q", "-k", "-t", "-g", "-m", "-r"}) { if (!c.take()) continue; Case a = program(p), b = a; b.now = now; b.argv = {"-q", "P"}; c.run(Check{"tail", {a, b}, "=\n"}); if (o[1] == 'k' || o[1] == 'g' || o[1] == 'r') { b.argv = {"-q", o, "P"}; c.run(Check{"tail", {a, b}, "=\n"}); } }
  c.sec("seeds and the clock give different sequences");
  { VS seeds = {"0", "2", "3", "4", "5", "6", "7", "100", "1000", "65535"}; for (auto& a : seeds) for (auto& b : seeds) if (a < b && c.take()) { Case x = program("10 RANDOMIZE " + a + "|20 PRINT \"=\"|30 PRINT RND(1),RND(1),RND(1)"), y = program("10 RANDOMIZE " + b + "|20 PRINT \"=\"|30 PRINT RND(1),RND(1),RND(1)"); c.run(Check{"tail", {x, y}, "!=\n"}); }
    for (long s : {10L, 500L, 1700000000L}) for (long t : {20L, 999L, 1700000100L}) for (auto how : {"R", "z", "l"}) { if (!c.take()) continue; Case x = program(std::string(*how == 'R' ? "10 RANDOMIZE" : "10 REM") + "|20 PRINT \"=\"|30 PRINT RND(1),RND(1),RND(1)"), y; if (*how == 'z') x.argv.insert(x.argv.begin(), "-z"); if (*how == 'l') x.argv.insert(x.argv.begin(), "--randomize"); x.now = s; y = x; c.run(Check{"tail", {x, y}, "=\n"}); y.now = t; c.run(Check{"tail", {x, y}, "!=\n"}); } }
  c.sec("everything about RANDOMIZE and RND that the model says");
  { VS ev = {"RANDOMIZE 5", "RANDOMIZE", "PRINT RND(1)*0", "X=RND(1):PRINT X>=0", "RANDOMIZE 1.5", "RANDOMIZE -1", "RANDOMIZE \"a\"", "RANDOMIZE A$", "PRINT RND", "PRINT RND()", "PRINT RND(\"a\")<1", "PRINT RND(1,2)", "RANDOMIZE LOG(0)", "RANDOMIZE 1E10", "PRINT RND(1)<RND(LOG(0))", "PRINT RND(A$)<1", "PRINT RND(UNDEF)<1"}; c.histories({"-q"}, {}, ev, {"PRINT RND(1)<1"}, 2); }
}

// ---- C24: the interpreter is interrupted after every basic block it executes
G(C24) {
  VS progs = {
    "10 FOR I=1 TO 3:PRINT \"i\";I;:NEXT:PRINT \"e\"|20 PRINT I",
    "10 A=1:B$=\"x\"|20 A=A+2*(3+A):B$=B$+STR$(A)+\"q\"|30 PRINT A;B$;LEN(B$+\"zz\")|40 PRINT MID$(B$,2,2);VAL(\"3\")+A",
    "10 DEF FNA(X)=X*2+Y|20 X=5:Y=1|30 PRINT FNA(X+FNA0(1));X|40 PRINT FNA(3);X;Y",
    "10 DEF FNA(X)=X*2+Y:X=5:Y=1|20 PRINT \"a\";FNA(X+1);\"b\";FNA(2);X|30 Z=FNA(FNB(1))|40 PRINT X;Z",
    "10 DEF FNA(X)=X*2+Y:X=5:Y=1|20 PRINT \"a\";FNA(X+1);\"b\";FNA(2);X|30 DEF FNS(X)=LEN(S$+STR$(X))|40 S$=\"s\":PRINT FNS(12);X;S$",
    "10 GOSUB 50:PRINT \"back\";N|20 GOSUB 50:PRINT \"again\";N|30 END|50 N=N+1:PRINT \"sub\";N|60 RETURN",
    "10 READ A,B$:PRINT A;B$|20 READ C:PRINT C:RESTORE|30 READ A:PRINT A;C|40 DATA 1,two,3",
    "10 DIM Q(3),R$(2)|20 Q(1)=5:Q(2)=Q(1)+1:R$(1)=\"r\"+STR$(Q(2))|30 PRINT Q(1);Q(2);R$(1);Q(0)|40 T(4)=2:PRINT T(4);T(10)",
    "10 IF A=0 THEN PRINT \"t\":A=1 ELSE PRINT \"e\":A=2|20 IF A=1 THEN IF B=0 THEN B=1:GOTO 10 ELSE PRINT \"in\"|30 PRINT A;B",
    "10 ON 2 GOTO 20,30|20 PRINT \"no\"|30 PRINT \"thirty\":ON 1 GOSUB 60:PRINT \"r\"|40 ON 5 GOTO 10|50 END|60 PRINT \"s\":RETURN",
    "10 FOR I=1 TO 2:FOR J=2 TO 1 STEP -1:PRINT I*J;:NEXT J,I|20 PRINT|30 PRINT I;J,TAB(20);\"x\";SPC(2);\"y\"",
    "10 PRINT \"ab\";|20 PRINT TAB(5);\"c\",|30 PRINT \"d\":PRINT ,\"e\"|40 CLS:LET A$=\"z\":PRINT A$;A$=\"z\"",
    "10 A$=\"p\":CLEAR:PRINT A$;A|20 RANDOMIZE 3:X=RND(1):RANDOMIZE 3:PRINT X=RND(1)|30 REM|40 PRINT ABS(-1)+SQR(4)+INT(2.5)+SGN(-3);NOT 0;1 AND 3",
    "10 X=X+1:IF X<4 THEN 10|20 PRINT X|30 GOTO 50|40 PRINT \"no\"|50 PRINT CHR$(65);ASC(\"b\");LEFT$(\"hello\",2);RIGHT$(\"abc\",1)",
    "10 PRINT \"a\":PRINT LOG(0)|20 PRINT \"b\"", "10 FOR I=1 TO 2:PRINT \"a\";I:NEXT:A(99)=1|20 PRINT \"b\"", "10 A$=\"x\"+\"y\":PRINT A$+CHR$(999)", "10 DEF FNE(X)=LOG(X):X=3:PRINT X|20 PRINT FNE(0);X" };
  auto chunk = [&](const VS& pre, const VS& in, const std::string& after, const std::string& kind, long step) {
    // cases[0].in: the lines before and including the one that starts the run; cases[1].in: input for the program
    for (long from = 0; from < step; from++) { if (!c.take()) continue; Case a, b; a.argv = {"-q"}; for (auto& l : pre) a.in.push_back(l + "\n"); for (auto& l : in) b.in.push_back(l + "\n"); c.run(Check{"irq", {a, b}, kind + ";" + num(from) + ";" + num(step) + ";" + after}); }
  };
  auto lines = [](const std::string& p) { VS v = split(p); v.push_back("PRINT \"@@\""); return v; };
  c.sec("a break at every point of every program, then CONT");
  for (auto& p : progs) { VS v = lines(p); v.push_back("RUN"); chunk(v, {}, "CONT", "cont", 16); }
  c.sec("then other things, then CONT");
  for (auto& p : progs) for (auto a : {"PRINT LOG(0)|CONT", "PRINT Z9;Z9$|CONT", "Z9=1:Z9$=\"a\"+\"b\"|CONT", "PRINT 1+(2+(3+(4+(5+(6+(7+8))))))|CONT", "LIST|CONT", "GOSUB 9999|CONT", "COMPILE|CONT", "SAVE \"F\"|CONT", "REM|foo(|CONT"}) { if (p.find("TAB(") != std::string::npos) continue; /* the column at CONT is the one after the other things */ VS v = lines(p); v.push_back("RUN"); chunk(v, {}, a, "cont", c.thorough ? 16 : 16); }
  c.sec("then RUN");
  for (auto& p : progs) for (auto a : {"RUN", "REM|RUN", "PRINT LOG(0)|RUN", "CLEAR|RUN"}) { VS v = lines(p); v.push_back("RUN"); chunk(v, {}, a, "run", 16); }
  c.sec("a break at every point of an immediate line");
  for (auto im : {"FOR I=1 TO 3:PRINT I;:NEXT:PRINT \"e\"", "A=1:PRINT A+2*(3+A);\"x\"+STR$(A)", "GOSUB 50:PRINT \"back\"", "GOTO 10", "PRINT FNA(2);X", "FOR I=1 TO 2:GOSUB 50:NEXT:PRINT \"done\"", "READ A:PRINT A", "PRINT LOG(0)", "DIM Q(5):Q(1)=2:PRINT Q(1)"}) { VS v = lines("10 PRINT \"ten\":N=N+1:PRINT N|20 END|50 PRINT \"sub\":RETURN|60 DATA 4|DEF FNA(X)=X+LEN(STR$(X))"); v.push_back(im); for (auto a : {"CONT", "PRINT 1+(2+3)|CONT", "NEXT|CONT"}) chunk(v, {}, a, "any", 16); for (auto a : {"RUN", "NEW|PRINT 5"}) chunk(v, {}, a, "any", 16); }
  c.sec("break while a program waits for input");
  { VS ip = {"10 INPUT A:PRINT A|20 INPUT B$:PRINT B$;A", "10 PRINT \"start\"|20 INPUT \"p\";A$,B$|30 PRINT A$;B$|40 LINE INPUT C$:PRINT C$", "10 FOR I=1 TO 2:INPUT X:PRINT X+I;:NEXT:PRINT \"e\"|20 DIM Q(3):INPUT I,Q(I):PRINT I;Q(2)", "10 INPUT A:PRINT \"got\";A", "10 LINE INPUT A$|20 PRINT \"[\";A$;\"]\""};
    std::vector<VS> ins = {{"5", "word"}, {"a,b", "line, three"}, {"1", "2", "2,9"}, {"x", "4"}, {"REM hello"}};
    for (size_t i = 0; i < ip.size(); i++) { VS v = lines(ip[i]); v.push_back("RUN"); chunk(v, ins[i], "CONT", "cont", 16); for (auto a : {"PRINT LOG(0)|CONT", "LIST|CONT"}) chunk(v, ins[i], a, "cont", 16); } }
  c.sec("an endless program is stopped at once");
  for (auto p : {"10 GOTO 10", "10 FOR I=1 TO 2 STEP 0:NEXT", "10 GOSUB 20:GOTO 10|20 RETURN", "10 PRINT \"x\":GOTO 10", "10 A=A+1:A$=STR$(A):IF A>0 THEN 10", "10 ON 1 GOTO 10", "10 DEF FNB(X)=X+LEN(STR$(X)):X=FNB(1):GOTO 10", "10 RESTORE:READ A:GOTO 10|20 DATA 1", "10 IF 1 THEN 10 ELSE 20|20 END", "10 PRINT \"y\";:GOTO 10", "10 GOSUB 30|20 GOTO 10|30 RETURN"})
    for (auto how : {"RUN", "GOTO 10", "FOR I=1 TO 2 STEP 0:NEXT"}) { VS v = lines(p); v.insert(v.end() - 1, "DEF FNA(X)=X+LEN(STR$(X))"); v.push_back(how); for (long b = 0; b < (c.thorough ? 4000 : 1000); b += 250) { if (!c.take()) continue; Case a, e; a.argv = {"-q"}; for (auto& l : v) a.in.push_back(l + "\n"); c.run(Check{"irq", {a, e}, "endless;" + num(b) + ";" + num(250)}); } }
  c.sec("a break while listing");
  for (auto l : {"LIST", "LIST 20-", "LIST P", "LIST 10-40P", "RENUM", "SAVE \"F\"", "LOAD \"F\"", "COMPILE", "10 REM new", "CONT", "NEW"}) for (auto a : {"PRINT \"next\"", "RUN", "GOSUB 30:PRINT \"r\"", "FOR I=1 TO 2:PRINT I:NEXT"}) { VS v = lines("10 PRINT 1|20 REM two|30 PRINT 3:RETURN|40 PRINT \"four\":END"); v.push_back(l); chunk(v, {}, a, "list", 4); }
  c.sec("a break stops a long listing");
  for (auto l : {"LIST", "LIST 5-", "LIST P", "LIST 4-55P"}) for (auto a : {"PRINT \"next\"", "LIST 9"}) { std::string p; for (int i = 1; i <= 60; i++) p += (i > 1 ? "|" : "") + num(i) + " REM " + num(i % 10); VS v = lines(p); v.push_back(l); chunk(v, strchr(l, 'P') ? VS{"", ""} : VS{}, a, "list", 8); }
}

G(C25) {
  auto run = [&](const Case& k) { if (c.take()) c.run(Check{"model", {k}, "long"}); };
  auto file = [&](const VS& l) { Case k; k.argv = {"-q", "P"}; for (auto& x : l) k.files["P"] += x + "\n"; return k; };
  auto sess = [&](const VS& l) { Case k; k.argv = {"-q"}; for (auto& x : l) k.in.push_back(x + "\n"); return k; };
  std::vector<int> sizes; for (int b : {1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 100, 126, 127, 128, 129, 130, 160, 191, 192, 193, 200, 254, 255, 256, 257, 258, 300, 320, 383, 384, 385, 400, 448, 510, 511, 512, 513, 514, 600, 640, 700, 768, 800, 900, 1000, 1022, 1023, 1024, 1025, 1026, 1200, 1500, 2000, 2047, 2048, 2049, 2500}) if (c.thorough || b <= 1100) sizes.push_back(b);
  if (c.thorough) { sizes.clear(); for (int i = 1; i <= 1100; i++) sizes.push_back(i); for (int i : {1535, 1536, 1537, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000}) sizes.push_back(i); }
  c.sec("many lines");
  for (int n : sizes) { VS p; for (int i = 0; i < n; i++) p.push_back(num(i + 1) + " A=A+" + num(i) + (i % 50 == 49 ? ":PRINT A;" : "")); p.push_back(num(n + 1) + " PRINT A:IF N=0 THEN N=1:GOTO " + num(n / 2 + 1)); run(file(p));
    p.clear(); for (int i = 0; i < n; i++) p.push_back(num(10 * ((i * 7) % n + 1)) + " IF X=" + num(i) + " THEN X=X+1:GOTO " + num(10 * (((i + 1) * 7) % n + 1)));
    std::sort(p.begin(), p.end(), [](const std::string& a, const std::string& b) { return atol(a.c_str()) < atol(b.c_str()); }); p.erase(std::unique(p.begin(), p.end(), [](const std::string& a, const std::string& b) { return atol(a.c_str()) == atol(b.c_str()); }), p.end()); p.push_back(num(10 * (n + 1)) + " PRINT X"); run(file(p)); }
  c.sec("edits of long programs");
  for (int n : sizes) for (int kind = 0; kind < 6; kind++) { if (n > 1100) continue;
    VS in; std::string load; for (int i = 1; i <= n; i++) load += num(10 * i) + " REM l" + num(i) + "\n";
    auto probe = [&]() { in.push_back("LIST -35"); in.push_back("LIST " + num(10 * (n / 2) - 15) + "-" + num(10 * (n / 2) + 25)); in.push_back("LIST " + num(10 * n - 25) + "-"); };
    int at = kind % 3 == 0 ? 5 : kind % 3 == 1 ? 10 * (n / 2) + 5 : 10 * n + 5;
    if (kind < 3) { for (int j = 0; j < 3; j++) in.push_back(num(at + j) + " REM new" + num(j)); probe(); in.push_back(num(at + 1)); probe(); in.push_back("SAVE \"Q\""); }
    else { int d = kind == 3 ? 10 : kind == 4 ? 10 * (n / 2 + 1) : 10 * n; in.push_back(num(d)); probe(); in.push_back(num(d) + " REM again"); in.push_back(num(d + 1) + " REM more"); probe(); in.push_back("RENUM"); probe(); in.push_back("SAVE \"Q\""); in.push_back("NEW"); in.push_back("LIST"); in.push_back("10 REM z"); in.push_back("LIST"); in.push_back("LOAD \"Q\""); probe(); }
    Case k = sess(in); k.files["P"] = load; k.in.insert(k.in.begin(), "LOAD \"P\"\n"); run(k);
    if (n > 300 && !c.thorough && n % 64 > 1) continue;
    Case t = sess(in); VS typed; for (auto& l : split(load, '\n')) if (!l.empty()) typed.push_back(l + "\n"); if (kind % 2) std::reverse(typed.begin(), typed.end()); t.in.insert(t.in.begin(), typed.begin(), typed.end()); run(t); }
  c.sec("many statements, constants and strings");
  for (int n : sizes) { VS p; p.push_back("1 REM"); std::string l; int ln = 2; for (int i = 0; i < n; i++) { l += (l.empty() ? "" : ":") + std::string(i % 3 ? "A=A+" : "B=B+") + num(i) + "." + num(i % 7); if (l.size() > 200) { p.push_back(num(ln++) + " " + l); l.clear(); } } if (!l.empty()) p.push_back(num(ln++) + " " + l); p.push_back(num(ln++) + " PRINT A;B"); run(file(p));
    p.clear(); ln = 1; for (int i = 0; i < n; i++) p.push_back(num(ln++) + " S$=\"const" + num(i * 31) + "\":L=L+LEN(S$)" + (i % 40 == 39 || i == n - 1 ? ":PRINT S$;L" : "")); run(file(p)); }
  c.sec("many data items");
  for (int n : sizes) for (int per : {1, 3, 20}) { if (per == 3 && n > 600) continue; VS p; int ln = 1; p.push_back(num(ln++) + " FOR I=1 TO " + num(n) + ":READ A$:L=L+LEN(A$):V=V+VAL(A$):IF I>" + num(n - 3) + " OR I=2 THEN PRINT A$;L;V"); p.push_back(num(ln++) + " NEXT:PRINT L;V"); p.push_back(num(ln) + " RESTORE " + num(ln + 1 + n / per / 2) + ":READ A$:PRINT A$"); for (int i = 0; i < n; i += per) { ln++; std::string l = num(ln) + " DATA "; for (int j = i; j < i + per && j < n; j++) l += (j > i ? "," : "") + (j % 4 == 1 ? "\"" + num(j) + "\"" : num(j)); p.push_back(l); } p.push_back(num(ln + 1) + " READ Z:PRINT Z"); run(file(p)); }
  c.sec("many names");
  for (int n : sizes) for (int form = 0; form < 4; form++) { if (form && n > 700) continue; VS p; int ln = 1; auto nm = [&](int i) { return form == 0 ? "V" + num(i) : form == 1 ? "S" + num(i) + "$" : form == 2 ? "R" + num(i) + "(2)" : "T" + num(i) + "$(1)"; }; for (int i = 0; i < n; i++) p.push_back(num(ln++) + " " + nm(i) + "=" + (form % 2 ? "\"" + num(i) + "\"" : num(i))); for (int i = 0; i < n; i += n > 100 ? 17 : 1) p.push_back(num(ln++) + " PRINT " + nm(i) + ";" + nm(n - 1 - i)); run(file(p)); }
  for (int n : sizes) { if (n > 700) continue; VS p; int ln = 1; for (int i = 0; i < n; i++) p.push_back(num(ln++) + " DEF FN" + num(i) + "(X)=X+" + num(i)); for (int i = 0; i < n; i += n > 100 ? 13 : 1) p.push_back(num(ln++) + " PRINT FN" + num(n - 1 - i) + "(" + num(i) + ")"); run(file(p)); }
  c.sec("many array elements");
  for (long n : {1L, 9L, 10L, 11L, 100L, 255L, 256L, 1000L, 4095L, 4096L, 30000L, 65533L, 65534L, 65535L, 65536L, 65537L, 100000L, 1000000L}) for (auto t : {"", "$"}) { std::string q = std::string("Q") + t, v = *t ? "\"a\"" : "7"; run(file({"10 DIM " + q + "(" + num(n) + ")", "20 " + q + "(" + num(n) + ")=" + v, "30 " + q + "(0)=" + (*t ? "\"z\"" : "1"), "40 PRINT " + q + "(0);" + q + "(" + num(n) + ");" + q + "(" + num(n - 1) + ")", "50 PRINT " + q + "(" + num(n + 1) + ")"})); run(sess({"DIM " + q + "(" + num(n) + ")", q + "(" + num(n) + ")=" + v, "PRINT " + q + "(" + num(n) + ")", q + "(" + num(n) + "+1)=" + v, "PRINT 1", q + "2(" + num(n) + ")=" + v, "PRINT " + q + "2(" + num(n) + ");" + q + "2(0)"})); }
  for (long a : {1L, 10L, 15L, 16L, 100L, 254L, 255L, 256L, 257L, 1000L, 32767L, 65535L}) for (long b : {0L, 1L, 10L, 15L, 16L, 100L, 254L, 255L, 256L, 257L, 1000L, 32767L, 65535L}) { run(sess({"DIM Q(" + num(a) + "," + num(b) + ")", "Q(" + num(a) + "," + num(b) + ")=5", "Q(0," + num(b) + ")=6", "Q(" + num(a) + ",0)=7", "PRINT Q(" + num(a) + "," + num(b) + ");Q(0," + num(b) + ");Q(" + num(a) + ",0);Q(0,0)", "PRINT Q(" + num(a + 1) + ",0)", "PRINT Q(0," + num(b + 1) + ")", "PRINT 1"})); }
  c.sec("long strings");
  for (int n = 1; n <= 300; n++) { std::string s = "A$=\"" + rep("x", n < 100 ? n : 100) + "\""; VS v = {s}; if (n > 100) v.push_back("A$=A$+\"" + rep("y", n - 100 < 100 ? n - 100 : 100) + "\""); if (n > 200) v.push_back("A$=A$+\"" + rep("z", n - 200) + "\""); for (auto t : {"PRINT LEN(A$);RIGHT$(A$,3);LEFT$(A$,2)", "B$=A$:PRINT LEN(B$);B$=A$", "PRINT LEN(A$+\"q\")", "PRINT LEN(MID$(A$,2,300))", "Q$(1)=A$:PRINT LEN(Q$(1))", "PRINT LEN(A$+A$)", "B$=A$+LEFT$(A$,1):PRINT LEN(B$)", "PRINT A$", "PRINT VAL(A$);ASC(A$)", "DEF FNA$(X)=A$+\"\":PRINT LEN(FNA$(1))", "PRINT LEN(A$)"}) v.push_back(t); run(sess(v)); }
  c.sec("long lines and words");
  for (int n = 200; n <= 262; n++) { for (int f = 0; f < 6; f++) { std::string l = f == 0 ? "10 REM" : f == 1 ? "10 A=1" : f == 2 ? "10 PRINT \"" + rep("s", 90) + "\";\"" + rep("t", 90) : f == 3 ? "10 DATA " : f == 4 ? "10 IF 1 THEN " : "10 PRINT 1"; while ((int)l.size() < n) l += f == 0 ? "r" : f == 1 ? "+" : f == 2 ? "u" : f == 3 ? "," : f == 4 ? ":" : "+"; if (f == 1 || f == 5) { for (size_t i = 8; i < l.size(); i += 2) l[i] = '1'; if (l.back() == '+') l.back() = ' '; } if (f == 2) l.back() = '"'; run(file({l, "20 READ A$,B$:PRINT \"x\";A$;A"})); } }
  for (int n = 1; n <= 140; n++) { run(sess({rep("N", n) + "=5", "PRINT " + rep("N", n / 2 + 1) + ";N", "10 PRINT " + rep("M", n < 110 ? n : 110), "RUN", "PRINT " + rep("1", n), "PRINT " + rep("0", n) + "1", "PRINT ." + rep("0", n) + "1", "A$=\"" + rep("s", n) + "\":PRINT LEN(A$)", "PRINT 1"})); run(file({"10 " + rep("N", n) + "=5", "20 PRINT " + rep("n", n) + ";N", "30 PRINT \"" + rep("s", n) + "\"", "40 READ A$:PRINT LEN(A$)", "50 DATA " + rep("d", n), "60 " + rep("P", n) + "$=\"q\":PRINT " + rep("P", n) + "$"})); run(file({"10 PRINT " + rep("9", n)})); run(file({"10 DATA \"" + rep("d", n) + "\"," + rep("e", n), "20 READ A$,B$:PRINT LEN(A$);LEN(B$)"})); }
  c.sec("deep nesting");
  for (int n = 1; n <= 40; n++) { std::string o = rep("(", n) + "1" + rep(")", n), r = rep("1+(", n) + "1" + rep(")", n), s = rep("\"a\"+(", n < 30 ? n : 30) + "\"b\"" + rep(")", n < 30 ? n : 30), f, g, h; for (int i = 0; i < n; i++) { f += "FOR I" + num(i) + "=1 TO 1:"; g += "NEXT:"; }
    run(sess({"PRINT " + o, "PRINT " + r, "PRINT " + s, "PRINT " + rep("ABS(", n < 25 ? n : 25) + "-1" + rep(")", n < 25 ? n : 25), "PRINT " + rep("-", n) + "1", "PRINT " + rep("NOT ", n < 25 ? n : 25) + "0", "PRINT 2" + rep("^1", n), "A(1)=1:PRINT " + rep("A(", n) + "1" + rep(")", n), "PRINT 1"}));
    VS p; for (int i = 0; i < n; i++) p.push_back(num(10 + i) + " FOR I" + num(i) + "=1 TO 2"); p.push_back("100 C=C+1:IF C>40 THEN PRINT \"enough\":END"); for (int i = n - 1; i >= 0; i--) p.push_back(num(200 + n - i) + " NEXT I" + num(i)); p.push_back("400 PRINT C"); run(file(p));
    run(file({"10 D=D+1:IF D<=" + num(n) + " THEN GOSUB 10:PRINT D;:RETURN", "20 PRINT \"deep\";D", "30 IF D>" + num(n) + " THEN RETURN"}));
    run(file({"5 GOSUB 10:PRINT \"end\":END", "10 D=D+1:IF D<" + num(n) + " THEN GOSUB 10", "20 PRINT D;:RETURN"}));
    p.clear(); std::string iff; for (int i = 0; i < n && i < 16; i++) iff += "IF X<" + num(i + 5) + " THEN "; p.push_back("10 X=" + num(n % 7) + ":" + iff + "PRINT \"t\"" + rep(" ELSE PRINT \"e\";", n < 8 ? n : 8)); p.push_back("20 PRINT \"n\""); run(file(p));
    VS q; for (int i = 0; i < n; i++) q.push_back(num(10 * i + 10) + " DEF FN" + num(i) + "(X)=X+" + num(i)); q.push_back("900 PRINT FN0(1)"); run(file(q)); }
  for (int n = 1; n <= 60; n++) { std::string e = "1", t = "1"; for (int i = 0; i < n; i++) { e += "+1"; t = "1+" + t; } run(sess({"PRINT " + e, "PRINT " + rep("(1+", n < 30 ? n : 30) + "1" + rep(")", n < 30 ? n : 30), "PRINT " + rep("2*(", n < 30 ? n : 30) + "1" + rep(")", n < 30 ? n : 30)})); std::string l = "PRINT "; for (int i = 0; i < n; i++) l += num(i % 10) + ";"; run(sess({l})); VS in; std::string v = "INPUT ", vals; for (int i = 0; i < n && i < 30; i++) { v += (i ? ",A" : "A") + num(i); vals += (i ? "," : "") + num(i); } run(sess({v, vals, "PRINT A0;A" + num((n < 30 ? n : 30) - 1)})); std::string rd = "READ ", dt = "DATA "; for (int i = 0; i < n && i < 40; i++) { rd += (i ? ",B" : "B") + num(i); dt += (i ? "," : "") + num(i); } run(file({"10 " + rd, "20 PRINT B0;B" + num((n < 40 ? n : 40) - 1), "30 " + dt})); }
  c.sec("long sessions");
  for (int n : {10, 100, 127, 128, 129, 500, 1000, 3000}) for (auto l : {"A=A+1", "A$=\"x\":A=A+LEN(A$)", "FOR I=1 TO 2:A=A+1:NEXT", "PRINT LOG(0)", "DIM Q(5):Q(3)=A:A=A+1", "DEF FNA(X)=X+1:A=FNA(A)", "GOSUB 100", "10 A=A+1", "NEXT", "foo(", "LIST 10", "RUN", "RESTORE:READ Z:A=A+Z", "A$=A$+\"y\":IF LEN(A$)>200 THEN A$=\"\"", "Q$(A-A)=STR$(A)+\"str\":A=A+1"}) { VS v = {"100 A=A+1:RETURN", "110 DATA 4"}; for (int i = 0; i < n; i++) v.push_back(l); v.push_back("PRINT A;A$"); run(sess(v)); }
}
