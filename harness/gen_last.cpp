// A fifth group of axes: interrupts judged by the model at every block of every program and typed line, whatever follows;
// lists of every length; every set of options with every way of writing output; the clock; ends of programs.
#include "gen.h"
#define L(id) void last_##id(Ctx& c)

// ---- C24
static void broken(Ctx& c, CVS program, CVS before, const std::string& line, CVS after) {
  if (!c.take()) return; Case k; k.argv = {"-q"}; for (const VS* v : {&program, &before}) for (auto& l : *v) k.in.push_back(l + "\n");
  size_t cmd = k.in.size(); k.in.push_back(line + "\n"); for (auto& a : after) for (auto& l : lines_of(a)) k.in.push_back(l);
  bool all = c.thorough || (after[0] == "CONT" && after.size() < 3); c.run(Check{"irqm", {k}, num((long)cmd) + (all ? "" : ";" + num(c.index % 12) + ";12")}); // every block, or every twelfth
}
L(C24) {
  const VS P = {
    "10 FOR I=1 TO 3:PRINT \"i\";I;:NEXT:PRINT \"e\"|20 PRINT I",
    "10 A=1:B$=\"x\"|20 A=A+2*(3+A):B$=B$+STR$(A)+\"q\"|30 PRINT A;B$;LEN(B$+\"zz\")|50 RETURN",
    "10 DEF FNA(X)=X*2+Y|20 X=5:Y=1|30 PRINT FNA(X+FNA(1));X|40 PRINT FNA(3);X;Y:END|50 PRINT FNA(7):RETURN",
    "10 GOSUB 50:PRINT \"back\";N|20 GOSUB 50:PRINT \"again\";N|30 END|50 N=N+1:PRINT \"sub\";N|60 RETURN",
    "10 READ A,B$:PRINT A;B$|20 READ C:PRINT C:RESTORE|30 READ A:PRINT A;C|40 DATA 1,two,3",
    "10 DIM Q(3),R$(2)|20 Q(1)=5:Q(2)=Q(1)+1:R$(1)=\"r\"+STR$(Q(2))|30 PRINT Q(1);Q(2);R$(1);Q(0)",
    "10 IF A=0 THEN PRINT \"t\":A=1 ELSE PRINT \"e\":A=2|20 IF A=1 THEN IF B=0 THEN B=1:GOTO 10 ELSE PRINT \"in\"|50 PRINT A;B",
    "10 ON 2 GOTO 20,30|20 PRINT \"no\"|30 PRINT \"thirty\":ON 1 GOSUB 60:PRINT \"r\"|40 ON 5 GOTO 10|50 END|60 PRINT \"s\":RETURN",
    "10 FOR I=1 TO 2:FOR J=2 TO 1 STEP -1:PRINT I*J;:NEXT J,I|20 PRINT|30 PRINT I;J,TAB(20);\"x\";SPC(2);\"y\"",
    "10 PRINT \"ab\";|20 PRINT TAB(5);\"c\",|30 PRINT \"d\":PRINT ,\"e\"|40 CLS:LET A$=\"z\":PRINT A$;A$=\"z\"",
    "10 A$=\"p\":CLEAR:PRINT A$;A|20 RANDOMIZE 3:X=RND(1):RANDOMIZE 3:PRINT X=RND(1)|50 REM|60 PRINT ABS(-1)+SQR(4);NOT 0;1 AND 3",
    "10 X=X+1:IF X<4 THEN 10|20 PRINT X|30 GOTO 50|40 PRINT \"no\"|50 PRINT CHR$(65);ASC(\"b\");LEFT$(\"hello\",2)",
    "10 PRINT \"a\":STOP:PRINT \"b\"|20 FOR I=1 TO 2:GOSUB 50:NEXT|30 STOP|50 PRINT I:RETURN",
    "10 FOR I=1 TO 2:GOSUB 20:NEXT:END|20 FOR J=1 TO 2:GOSUB 50:NEXT:RETURN|50 PRINT I;J;:RETURN",
    "10 PRINT \"only\"", "10", "10 STOP", "10 FOR I=1 TO 2|50 X=X+1", "10 GOSUB 20|20 Y=Y+1:IF Y<3 THEN GOSUB 20|50 RETURN:END" };
  const VS EV = {"CONT", "RUN", "PRINT I;J;A;B;X", "RETURN", "NEXT", "GOSUB 50", "20 REM x", "READ Z:PRINT Z", "CLEAR", "PRINT LOG(0)", "GOTO 20", "FOR Q=1 TO 2:PRINT Q;:NEXT", "A$=A$+\"s\":A=A+1:X=9", "NEW", "STOP", "PRINT (", "FOR I=5 TO 6", "LIST", "RENUM", "PRINT \"c\";", "RESTORE", "DEF FNA(X)=X+100", "DIM Q(2)", "ON 1 GOSUB 50"};
  c.sec("a break at every block of a program, judged by the model, and what is typed then");
  for (auto& p : P) { VS v = split(p); for (auto& e : EV) { broken(c, v, {}, "RUN", {e, "CONT|CONT|PRINT I;A;X;A$"}); broken(c, v, {}, "GOTO 50", {e, "CONT|CONT|PRINT I;A;X"}); if (e != "CONT") broken(c, v, {}, "RUN", {"CONT", e, "CONT"}); }
    if (c.thorough) for (auto& e : EV) for (auto& f : EV) broken(c, v, {}, "RUN", {e, f, "CONT|RETURN|NEXT"}); }
  c.sec("a break at every block of a typed line, judged by the model");
  const VS IM = {"A=1:B=2:PRINT A;B", "PRINT 1", "PRINT \"a\";\"b\";A;", "X=1", "REM", "GOSUB 50:PRINT \"back\"", "GOTO 10", "GOSUB 10", "FOR I=1 TO 3:PRINT I;:NEXT:PRINT \"e\"", "FOR I=1 TO 2:GOSUB 50:NEXT", "FOR I=1 TO 3", "FOR I=1 TO 2:PRINT I", "READ A:PRINT A:DATA 5", "READ A,B:PRINT A;B", "RESTORE", "DIM Q(5):Q(1)=2:PRINT Q(1)", "A$=\"x\"+STR$(1):PRINT A$;LEN(A$)", "PRINT FNA(2);X", "IF 1 THEN PRINT \"t\" ELSE PRINT \"e\"", "IF 0 THEN PRINT \"t\" ELSE PRINT \"e\"", "IF 1 THEN 50", "ON 1 GOSUB 50:PRINT \"on\"", "STOP", "END", "CLEAR:PRINT A", "DEF FNA(X)=X+1:PRINT FNA(2)", "RUN 50", "NEXT", "RETURN", "CONT", "CLS:PRINT TAB(5);1", "RANDOMIZE 4:X=RND(1)", "PRINT RND(1)<1;SPC(2);1,2"};
  const std::vector<VS> PR = {{}, {"10 PRINT \"ten\":N=N+1:PRINT N", "20 END", "50 PRINT \"sub\":RETURN", "60 DATA 4,7,8"}, {"10 DEF FNA(X)=X+LEN(STR$(X))", "20 GOSUB 50:PRINT \"after\"", "30 END", "50 FOR J=1 TO 2:STOP:PRINT J:NEXT:RETURN", "60 DATA 4,7,8"}};
  for (size_t p = 0; p < PR.size(); p++) for (auto& b : std::vector<VS>{{}, {"RUN"}, {"RUN", "FOR K=1 TO 2"}, {"RUN", "CONT"}}) { if (!p && b.size()) continue; for (auto& l : IM) for (auto& e : {"CONT", "RUN", "NEXT", "RETURN", "PRINT A;B;I;X;A$", "READ Z:PRINT Z", "GOSUB 50", "10 REM", "PRINT LOG(0)", "CLEAR", "NEW", "FOR K=1 TO 2:PRINT K;:NEXT", "A=9:B$=\"q\"", "STOP"}) { if (!c.thorough && b.size() > 1 && std::string(e) != "CONT" && (c.index & 1)) { c.index++; continue; } broken(c, PR[p], b, l, {e, "CONT|NEXT|CONT|RETURN|PRINT A;I;X"}); } }
  c.sec("a break at every block of CONT, judged by the model");
  for (auto p : {"10 STOP|20 FOR I=1 TO 2:PRINT I;:NEXT|30 GOSUB 50:PRINT \"e\":END|50 PRINT \"s\":RETURN", "10 GOSUB 50:PRINT \"r\":END|50 FOR I=1 TO 2:STOP:PRINT I:NEXT:RETURN", "10 STOP", "10 STOP:PRINT 1|20 STOP:PRINT 2;:READ A:PRINT A|50 DATA 3", "10 DEF FNA(X)=X+1:STOP:PRINT FNA(2);:A$=STR$(FNA(3))|50 PRINT A$"}) for (auto& e : EV) { broken(c, split(p), {"RUN"}, "CONT", {e, "CONT|CONT|PRINT I;A;X"}); broken(c, split(p), {"RUN", "PRINT 1"}, "CONT", {"CONT", e, "CONT|NEXT|RETURN"}); }
}

// ---- ON with a list of every length, and every choice
static void on_lists(Ctx& c) {
  for (int n = 1; n <= 118; n++) for (auto how : {"GOTO", "GOSUB"}) { if (n > 12 && !c.thorough && (n + (how[2] == 'S')) % 2 && (n < 60 || n > 70)) continue; if (!c.take()) continue; Case k; k.argv = {"-q", "P"}; std::string l; for (int i = 0; i < n; i++) l += (i ? "," : "") + num(5 + (i * 7 + i / 5) % 5);
    std::string& f = k.files["P"]; f = "1 X=0\n2 X=X+.5:PRINT X;:IF X>" + num(n + 2) + " THEN 11\n3 IF X=INT(X) THEN ON X " + std::string(how) + " " + l + "\n4 GOTO 2\n"; for (int i = 5; i < 10; i++) f += num(i) + " PRINT \"t" + num(i) + "\";:" + (how[2] == 'S' ? "RETURN" : "GOTO 2") + "\n"; f += "11 PRINT \"end\"\n";
    c.run(Check{"model", {k}, "long"});
    if (l.size() < 100) { Case t; t.argv = {"-q"}; for (auto& s : split(f, '\n')) if (s.size() > 2 && s[0] != '2' && s[0] != '3' && s[0] != '4' && s.substr(0, 2) != "1 ") { std::string u = s; size_t p; while ((p = u.find("GOTO 2")) != std::string::npos) u.replace(p, 6, "END"); t.in.push_back(u + "\n"); } for (int x = 0; x <= n + 1; x++) t.in.push_back("ON " + num(x) + " " + how + " " + l + ":PRINT \"n\"\n"); c.model(t); } }
}
L(C02) { c.sec("ON with lists of every length"); on_lists(c); }
L(C04) { c.sec("ON with lists of every length"); on_lists(c); }

// ---- where a program may end or stop: the last statement of every kind
static void ends(Ctx& c, CVS probes) {
  for (auto last : {"STOP", "STOP:", "PRINT 1:STOP", "IF 1 THEN STOP", "IF 1 THEN STOP ELSE PRINT 2", "IF 0 THEN PRINT 2 ELSE STOP", "GOSUB 20:STOP", "STOP:REM", "STOP:DATA 1", "STOP'", "FOR I=1 TO 2:STOP:NEXT", "FOR I=1 TO 2:STOP", "END", "END:STOP", "GOTO 20", "RETURN", "ON 1 GOSUB 20", "ON 1 GOSUB 20:STOP", "DATA 1", "REM", "", "DEF FNA(X)=X", "PRINT \"x\";", "NEXT", "READ A", "DIM W(2)", "A$=\"a\"+\"b\"", "CLEAR:STOP", "STOP:STOP", "STOP:STOP:STOP"})
    for (auto pre : {"", "10 PRINT \"p\"", "10 GOSUB 99:PRINT \"r\":END", "10 FOR J=1 TO 2", "10 GOTO 99|20 PRINT \"s\":RETURN", "20 PRINT \"s\":RETURN|15 DATA 4"}) for (auto& pr : probes) { if (!c.take()) continue; std::string s; if (*pre) s = std::string(pre) + "|"; s += std::string("99 ") + last + "|" + pr; c.model(session(s)); }
}
L(C14) { c.sec("programs that stop at their very end"); ends(c, {"RUN|CONT|CONT|CONT", "RUN|PRINT 1|CONT|CONT", "RUN|CONT|PRINT 2|CONT|RUN|CONT", "GOTO 99|CONT|CONT", "RUN|GOSUB 99|CONT|CONT|CONT", "RUN|LIST|CONT|100 PRINT \"new\"|CONT", "RUN|CONT|RETURN|NEXT|CONT", "RUN|GOTO 99|CONT|CONT", "GOSUB 99|CONT|RETURN|CONT", "FOR K=1 TO 2:GOTO 99|CONT|NEXT|CONT", "RUN|PRINT LOG(0)|CONT|CONT", "RUN|RUN|CONT|CONT", "RUN|CLEAR|CONT|CONT", "CONT|RUN|CONT|CONT"}); }
L(C15) { c.sec("programs that end in every way"); ends(c, {"RUN|RUN|RUN", "RUN|RETURN|NEXT|RUN", "RUN|CONT|RUN", "RUN|READ A:PRINT A|RUN"}); }

// ---- RENUM with numbers of every length
L(C17) { c.sec("renumbering among numbers of every length, memory");
  VS ns = {"1", "9", "10", "99", "100", "999", "1000", "9999", "10000", "65535"}, to = {"1", "7", "10", "88", "100", "777", "1000", "5555", "10000", "44444", "65530"};
  VS refs = {"GOTO @", "IF A THEN @", "IF A THEN @ ELSE @", "GOSUB @:GOSUB @", "ON A GOTO @,@,@", "RESTORE @", "ON A GOSUB @,@,@,@,@,@", "PRINT 1:GOTO @", "GOTO @:PRINT \"a long rest of the line that is left as it was\"", "REM GOTO @", "PRINT \"GOTO @\":GOTO @"};
  for (auto& n : ns) for (auto& t : to) for (auto& r : refs) { if (!c.take()) continue; std::string x; for (char ch : r) if (ch == '@') x += n; else x += ch; Case k = session(n + " " + x + "|RENUM " + t + "|LIST|RENUM|LIST|RENUM " + n + "|LIST"); c.run(Check{"mem", {k}, ""}); c.model(k); }
  for (auto& a : ns) for (auto& b : ns) for (auto& t : to) for (auto i : {"1", "10", "90", "900", "9000"}) { if (atol(a.c_str()) >= atol(b.c_str()) || !c.take()) continue; Case k = session(a + " GOTO " + b + "|" + b + " GOSUB " + a + ":GOTO " + b + "|RENUM " + t + ",1," + i + "|LIST|RENUM " + a + ",1," + t + "|LIST"); c.run(Check{"mem", {k}, ""}); c.model(k); }
}

// ---- every set of options with output that goes on from line to line
L(C20) { c.sec("every set of options, output continued on other lines");
  VS st = {"PRINT \"abc\";", "PRINT TAB(12);\"t\"", "PRINT 1,", "PRINT", "PRINT SPC(2);\"s\",\"u\";", "FOR I=1 TO 2:PRINT I;:NEXT", "GOSUB 90", "PRINT TAB(3);", "IF X THEN PRINT \"y\"; ELSE PRINT \"n\",", "INPUT X", "CLS", "X=X+1"};
  VS o = {"-t", "-f", "-g", "-k", "-m"};
  sequences(st, 2, c.thorough ? 4 : 3, [&](CVS v) { std::string p; for (size_t i = 0; i < v.size(); i++) p += num(10 + 10 * (long)i) + " " + v[i] + "|"; Case plain = program(p + "60 PRINT TAB(10);\"end\":END|90 PRINT \"sub\";|95 RETURN"); for (auto l : {"0\n", "1\n", "2\n"}) plain.in.push_back(l);
    for (int m = 1; m < 32; m++) { if (v.size() == 3 && !c.thorough && m != 5 && m != 1 && m != 4) continue; if (!c.take()) continue; Case k = plain; k.argv.clear(); for (int i = 0; i < 5; i++) if (m >> i & 1) k.argv.push_back(o[i]); k.argv.push_back("-q"); k.argv.push_back("P"); c.run(Check{"opts", {plain, k}, ""}); } }); }

// ---- seeding again and again, the clock going on
L(C23) { c.sec("seeded twice");
  VS noise = {"REM", "CLEAR2", "PRINT 1", "X=RND(1)", "FOR I=1 TO 5:X=RND(1):NEXT", "RANDOMIZE", "RANDOMIZE 8", "GOSUB 900", "RANDOMIZE 5", "IF 1 THEN RANDOMIZE", "DIM Q(3)", "A$=STR$(RND(1))", "RESTORE"}, seed = {"RANDOMIZE", "RANDOMIZE 5", "RANDOMIZE 6", "RANDOMIZE 0", "RANDOMIZE 65537", "REM", "RANDOMIZE V*0+5", "RANDOMIZE LEN(\"fives\")", "GOSUB 910", "GOSUB 920"};
  for (auto& a : seed) for (auto& b : seed) sequences(noise, 0, c.thorough ? 3 : 2, [&](CVS h) { for (int how = 0; how < 4; how++) { if (how && h.size() > 1 && !c.thorough) continue; if (!c.take()) continue;
    VS l = {a, "V=RND(1):V1=RND(1):V2=RND(1)"}; for (auto& x : h) if (x != "CLEAR2") l.push_back(x); else { l.push_back("GOSUB 900"); } l.push_back(b); l.push_back("W=RND(1):W1=RND(1):W2=RND(1)"); l.push_back("PRINT V=W AND V1=W1 AND V2=W2"); l.push_back(b); l.push_back("W=RND(1):W1=RND(1):PRINT V=W AND V1=W1");
    const char* subs[] = {"900 RETURN", "910 RANDOMIZE:RETURN", "920 RANDOMIZE 5:RETURN"}; Case k; k.now = 1700000000; 
    if (how == 0 || how == 3) { k.argv = {"-q", "P"}; if (how == 3) k.argv.push_back("-z"); long n = 10; for (auto& x : l) { k.files["P"] += num(n) + " " + x + "\n"; n += 10; } k.files["P"] += "890 END\n"; for (auto s : subs) k.files["P"] += std::string(s) + "\n"; }
    else { k.argv = {"-q"}; for (auto s : subs) k.in.push_back(std::string(s) + "\n"); if (how == 1) for (auto& x : l) k.in.push_back(x + "\n"); else { long n = 10; for (auto& x : l) { k.in.push_back(num(n) + " " + x + "\n"); n += 10; } k.in.push_back("890 END\n"); k.in.push_back("RUN\n"); k.in.push_back("X0=W\n"); k.in.push_back("GOTO 10\n"); k.in.push_back("PRINT X0=W\n"); } }
    c.model(k); } }); }

// ---- names by the thousand
static void thousands(Ctx& c) {
  for (int n : {1025, 1999, 2000, 2001, 2047, 2048, 2049, 2500, 3000, 4000, 4095, 4096, 4097, 5000, 7000, 8191, 8192, 8193, 10000, 16385, 20000, 32767, 32769, 50000, 65534, 65535, 65536, 65537, 70000}) for (int form = 0; form < 5; form++) { if (n > 8193 && form && !c.thorough) continue; if (n > 20000 && !c.thorough && n != 65537) continue; if (!c.take()) continue;
    auto nm = [&](int i) { std::string s = num(i); return form == 0 ? "V" + s : form == 1 ? "S" + s + "$" : form == 2 ? "R" + s + "(2)" : form == 3 ? "T" + s + "$(1)" : "FN" + s; };
    Case k; k.argv = {"-q", "P"}; std::string& f = k.files["P"]; int ln = 1; std::string l; if (form == 4) { for (int i = 0; i < n; i++) f += num(ln++) + " DEF FN" + num(i) + "(X)=X+" + num(i) + "\n"; }
    else for (int i = 0; i < n; i++) { l += (l.empty() ? "" : ":") + nm(i) + "=" + (form % 2 ? "\"" + num(i) + "\"" : num(i)); if (l.size() > 180 || i == n - 1) { f += num(ln++) + " " + l + "\n"; l.clear(); } }
    for (int i : {0, 1, n / 2, n - 2, n - 1}) f += num(ln++) + " PRINT " + nm(i) + (form == 4 ? "(1)" : "") + "\n"; for (int i = 0; i < n; i += n / 40 + 1) f += num(ln++) + " PRINT " + nm(i) + (form == 4 ? "(0)" : "") + ";\n"; f += num(ln++) + " NEWNAME=5:PRINT NEWNAME;OTHER;OTHER$\n";
    c.run(Check{"model", {k}, "long"}); if (n < 9000) { k.argv[1] = "-n"; k.argv[0] = "-q"; k.argv.push_back("P"); c.run(Check{"model", {k}, "long"}); } }
}
L(C25) { c.sec("names by the thousand"); thousands(c); }
L(C21) { c.sec("names by the thousand"); thousands(c); }
