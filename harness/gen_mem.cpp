// C17 memory
#include "gen.h"
static const VS S = {
  "PRINT 1", "PRINT A;A$", "A=A+1", "A$=A$+\"xy\"", "A$=LEFT$(A$,1)", "DIM Q(3)", "DIM Q(A)", "DIM Q$(2,2)", "Q(A)=A", "Q$(1,1)=A$+\"q\"", "A$=Q$(1,1)", "DEF FNA(X)=X+A", "PRINT FNA(2)", "DEF FNB(X)=LEN(A$)+X",
  "PRINT FNB(1)", "READ A", "READ A$", "RESTORE", "RESTORE 30", "DATA 1,two,\"three\"", "FOR I=1 TO 3", "NEXT", "NEXT I", "GOSUB 90", "RETURN", "ON A GOTO 20,30", "ON A GOSUB 90,90", "IF A THEN 30", "IF A$=\"xy\" THEN PRINT \"eq\" ELSE PRINT \"ne\"",
  "CLEAR", "CLS", "STOP", "END", "INPUT A", "INPUT A$,A", "LINE INPUT A$", "INPUT \"p\";Q$(0,1),Q(1)", "RANDOMIZE 3", "PRINT RND(1)", "PRINT CHR$(65)+STR$(A);ASC(\"x\")", "PRINT VAL(A$)", "PRINT MID$(\"hello\",2,3)", "PRINT RIGHT$(A$+\"abc\",2)",
  "REM text", "", "PRINT TAB(5);SPC(3);A$,1", "LET A$=A$", "PRINT A$+A$=A$", "A=LEN(STR$(A)+CHR$(66))", "GOTO 30", "PRINT (A$<\"b\") AND NOT 0", "DIM R(2),R$(2)", "R$(2)=R$(1)+\"z\"", "PRINT MID$(A$,9)", "A$=A$+A$+\"123\"", "INPUT R(1)", "DEF FNA(Y)=FNB(Y)", "PRINT Q(99)", "PRINT LOG(0)", "PRINT \"a\"+\"b\"+STR$(LOG(0))", "PRINT 2^3^2,-A,1/3" };
static const VS BAD = { "PRINT (", "A$=1", "\"unterminated", "IF A", "FOR", "PRINT \"a\"+", "DIM Q(", "DEF FNA(", "DATA \"x", "Q(1,2,3)=1", "ON A", "NEXT 1", "INPUT 1", "READ 5", "THEN", "X Y", "LEN=3", "PRINT LEFT$(A$)", "#", "10E99999=", "GOTO A", "IF 1 THEN ELSE ELSE", "DEF F$(X)=A$:DIM F$(2)", "DATA a\xff" };
static Case make(const VS& lines, const std::map<std::string, std::string>& files = {}) { Case k; k.argv = {"-q"}; k.files = files; for (auto& l : lines) for (auto& x : lines_of(l)) k.in.push_back(x); return k; }
G(C17) {
  auto mem = [&](const Case& k) { if (c.take()) c.run(Check{"mem", {k}, ""}); };
  VS all = S; all.insert(all.end(), BAD.begin(), BAD.end());
  c.sec("statement pairs in a program file");
  for (auto& a : all) for (auto& b : all) { Case k = program("10 " + a + "|20 " + b + "|30 PRINT \"30\":N=N+1:IF N>3 THEN END|80 DATA 8,9|85 END|90 PRINT \"sub\":RETURN"); k.in = {"1\n", "xyz,7\n", "2,3,4\n", "5\n"}; mem(k); }
  c.sec("statement pairs in a session");
  for (auto& a : all) for (auto& b : all) mem(make({"A=1:A$=\"s\"", a, "7,8", b, "6", "PRINT A;A$", "10 " + a, "20 " + b, "90 RETURN", "RUN", "1,2", "CONT", "3", b, a, "LIST", "NEW", "PRINT A", a}));
  c.sec("statements on one line");
  sequences(S, 2, c.thorough ? 3 : 2, [&](CVS v) { Case k = program("5 A=2:A$=\"t\"|10 " + join(v, ":") + "|20 " + v.back() + ":N=N+1:IF N<3 THEN 10|80 DATA 8,9|85 END|90 PRINT \"sub\":RETURN|30 END"); k.files["P"] = "5 A=2:A$=\"t\"\n10 " + join(v, ":") + "\n20 " + v.back() + ":N=N+1:IF N<3 THEN 10\n30 END\n80 DATA 8,9\n90 PRINT \"sub\":RETURN\n"; k.in = {"1\n", "xyz,7\n", "2,3,4\n", "5\n"}; mem(k); });
  c.sec("histories of commands");
  { VS ev = {"10 PRINT A$;:A$=A$+\"z\":STOP:DIM Q(4):Q(1)=3:PRINT Q(1)", "20 DEF FNA(X)=X+LEN(A$):PRINT FNA(1)", "20", "10", "RUN", "CONT", "NEW", "LOAD \"F\"", "SAVE \"G\"", "LOAD \"G\"", "LOAD \"bad\"", "LIST", "RENUM", "CLEAR", "PRINT FNA(2)", "DEF FNA(Z)=Z*2", "A$=\"im\"", "DIM Q(2)", "FOR I=1 TO 2:GOSUB 10:NEXT", "PRINT (", "COMPILE", "30 PRINT (", "INPUT B$", "*true", "PRINT LEFT$(\"abc\",-1)+\"d\""};
    std::map<std::string, std::string> f = {{"F", "10 FOR I=1 TO 2:A$=A$+\"f\":NEXT\n20 DEF FNB(X)=X:PRINT FNB(3);A$\n30 STOP\n"}, {"bad", "10 PRINT 1\nx\n"}};
    std::vector<int> d; int depth = c.thorough ? 4 : 3;
    sequences(ev, 1, depth, [&](CVS v) { VS l = v; l.push_back("PRINT A$"); l.push_back("RUN"); mem(make(l, f)); }); }
  c.sec("every short line of bytes");
  { VS al = {"1", "A", "$", "(", ")", "\"", ",", ":", " ", "=", "P", "\x80", ".", "E", "+", "\t"};
    strings(al, c.thorough ? 5 : 4, [&](const std::string& s) { static VS group; group.push_back(s); if (group.size() < 16) return; VS g; g.swap(group); mem(make(g)); }); }
  c.sec("every short file of bytes");
  { VS al = {"1", "0", " ", "\n", "A", "\"", "=", "\r", "\xff"};
    strings(al, c.thorough ? 6 : 5, [&](const std::string& s) { Case k; k.argv = {"-q", "F"}; k.files["F"] = s; mem(k); Case k2 = make({"LOAD \"F\"", "LIST", "RUN"}); k2.files["F"] = s; mem(k2); }); }
  c.sec("options and files");
  for (auto& a : all) for (auto o : {"-p", "-l", "-n", "-c", "-r", "-t", "-f", "-g", "-k"}) { Case k = program("10 A$=\"x\":FOR J=1 TO 2:" + a + ":NEXT|30 PRINT \"30\"|90 IF A$<>\"\" THEN RETURN"); k.argv.insert(k.argv.begin(), o); k.in = {"1\n", "2,3\n", "4\n"}; mem(k); }
  c.sec("the memory report");
  for (auto& a : S) for (auto& b : S) { Case k = program("10 " + a + "|20 " + b + "|30 PRINT \"30\":N=N+1:IF N>3 THEN END|80 DATA 8,9|85 END|90 PRINT \"sub\":RETURN"); k.in = {"1\n", "xyz,7\n", "2,3,4\n", "5\n"}; k.argv.insert(k.argv.begin(), "-m"); if (c.take()) c.run(Check{"report", {k}, ""});
    Case s = make({a, "1", b, "2,3", "10 " + a, "20 " + b, "RUN", "LIST"}); s.argv.push_back("-m"); if (c.take()) c.run(Check{"report", {s}, ""}); }
  c.sec("failing files");
  for (int kind = 1; kind <= 4; kind++) for (long at = 0; at < 60; at++) for (auto l : {"LOAD \"F\"", "SAVE \"F\""}) { Case k = make({"10 PRINT \"old program\"", "20 REM second line", "30 PRINT \"end of it\"", l, "LIST", l, "RUN", "NEW", l}, {{"F", "10 PRINT \"file\"\n20 REM line\n30 PRINT \"last line of the file\"\n"}}); k.fault.kind = kind; k.fault.path = "F"; k.fault.at = at; mem(k); }
  c.sec("lengths of tokens, lines and strings");
  for (int n = 100; n <= 270; n++) for (int f = 0; f < 12; f++) { std::string l;
      switch (f) { case 0: l = "PRINT \"" + rep("s", n) + "\""; break; case 1: l = rep("N", n) + "=1"; break; case 2: l = rep("N", n) + "$=\"a\""; break; case 3: l = "A=" + rep("9", n); break; case 4: l = "DATA " + rep("d", n); break; case 5: l = "DATA \"" + rep("d", n) + "\""; break;
        case 6: l = "A=1." + rep("0", n) + "E5"; break; case 7: l = "PRINT " + rep("(", n) + "1"; break; case 8: l = "REM " + rep("r", n); break; case 9: l = rep(":", n); break; case 10: l = "DATA " + rep(",", n); break; default: l = "PRINT \"" + rep("s", n); }
      Case k; k.argv = {"-q", "P"}; k.files["P"] = "10 " + l + "\n20 READ B$:PRINT B$\n"; mem(k); k.argv = {"-q", "-n", "P"}; mem(k); k.argv = {"-q", "-k", "P"}; mem(k); mem(make({l, "10 " + l, "RUN", "LIST"})); }
  for (int n = 120; n <= 260; n++) { Case k = program("10 A$=\"" + rep("a", 100) + "\":B$=A$+A$+LEFT$(A$," + num(n - 200 > 0 ? n - 200 : 0) + "):PRINT LEN(B$)|20 INPUT C$,D$:PRINT C$;D$|30 LINE INPUT E$:PRINT E$|40 PRINT VAL(B$);ASC(B$);MID$(B$," + num(n) + ")"); k.in = {rep("c", n) + "," + rep("d", n) + "\n", rep("e", n) + "\n", "f,g\n", "h\n"}; mem(k); }
}
