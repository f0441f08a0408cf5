// A fourth group of axes: how full each of the interpreter's stacks is when something happens to them, expressions of
// every shape with operands of both types, immediate lines with everything of their own, and names of files.
#include "gen.h"
#define D(id) void deep_##id(Ctx& c)

// ---- expressions: every sequence of three operators over leaves of both types, in every bracketing that matters
static void shapes(Ctx& c, CVS leaves, CVS ops, CVS ctx, int maxops) {
  for (auto& x : ctx) { Batch b(c, {"A=2:A$=\"b\":B=0:B$=\"\"", "Q(1)=3:Q$(1)=\"q\"", "DEF FNA(X)=X:DEF FNS$(X)=STR$(X)"}, 40);
    auto put = [&](const std::string& e) { std::string o; for (char ch : x) if (ch == '@') o += e; else o += ch; b.add(o); };
    sequences(ops, 1, maxops, [&](CVS o) { sequences(leaves, (int)o.size() + 1, (int)o.size() + 1, [&](CVS l) {
      std::string e = l[0]; for (size_t i = 0; i < o.size(); i++) e += o[i] + l[i + 1];
      put(e);
      if (o.size() == 2) { put("(" + l[0] + o[0] + l[1] + ")" + o[1] + l[2]); put(l[0] + o[0] + "(" + l[1] + o[1] + l[2] + ")"); put("-" + e); put("NOT " + e); put(l[0] + o[0] + "-" + l[1] + o[1] + l[2]); put(l[0] + o[0] + "NOT " + l[1] + o[1] + l[2]); }
      if (o.size() == 3 && c.thorough) { put("(" + l[0] + o[0] + l[1] + ")" + o[1] + "(" + l[2] + o[2] + l[3] + ")"); put(l[0] + o[0] + "(" + l[1] + o[1] + l[2] + ")" + o[2] + l[3]); }
    }); }); }
}
static const VS OPS = {"^", "*", "/", "+", "-", "=", "<>", "<", ">=", " AND ", " OR "};
D(C18) { c.sec("operands of both types in every shape of expression");
  shapes(c, {"1", "\"a\""}, OPS, {"PRINT @"}, 3); shapes(c, {"A", "A$"}, OPS, {"IF @ THEN PRINT 1 ELSE PRINT 0", "A=@", "A$=@", "PRINT 1,@;2", "Q(@)=1", "PRINT LEN(@)", "FOR I=1 TO @:NEXT", "ON @ GOTO 5,5", "PRINT FNA(@)", "DEF FNB(X)=@", "DEF FNB$(X)=@", "Q$(1)=@", "PRINT MID$(@,1)", "PRINT MID$(\"abc\",@)"}, c.thorough ? 3 : 2);
  shapes(c, {"Q(1)", "Q$(1)", "FNS$(1)", "LEN(A$)", "CHR$(65)"}, {"+", "=", "<", " AND ", "*"}, {"PRINT @", "A$=@", "IF @ THEN PRINT 1"}, 2); }
D(C01) { c.sec("operators in every sequence"); shapes(c, {"2", "-3", "A"}, OPS, {"PRINT @"}, c.thorough ? 4 : 3); shapes(c, {"\"a\"", "A$", "B$"}, {"+", "=", "<", ">=", " AND "}, {"PRINT @"}, 3); }

// ---- calls, loops and half-done work of every depth, when the program stops and things are typed
static void depths(Ctx& c, CVS events, CVS probes, int pairs) {
  // a program that makes n pending calls (g) or loops (f), or both in turn, and then stops, fails, or ends
  struct Kind { const char *call, *loop; };
  for (int kind = 0; kind < 4; kind++) for (int n = 0; n <= 9; n++) for (auto ending : {"STOP", "PRINT LOG(0)", "END", "GOTO 7"}) {
    if (kind > 1 && n < 6) continue;
    std::vector<std::string> p;
    std::string body; long line = 10;
    p.push_back("5 X=0:DEF FNA(X)=X+1");
    if (kind == 0) { for (int i = 0; i < n; i++) p.push_back(num(line + i * 10) + " GOSUB " + num(line + i * 10 + 10) + ":PRINT \"r" + num(i) + "\";:" + (i ? "RETURN" : "END")); }
    else if (kind == 1) { for (int i = 0; i < n; i++) p.push_back(num(line + i * 10) + " FOR L" + num(i) + "=1 TO 2:PRINT L" + num(i) + ";"); }
    else if (kind == 2) { for (int i = 0; i < n; i++) p.push_back(num(line + i * 10) + " FOR L" + num(i) + "=1 TO 2:GOSUB " + num(line + i * 10 + 10) + ":PRINT \"r" + num(i) + "\";:NEXT L" + num(i) + ":" + (i ? "RETURN" : "END")); }
    else { for (int i = 0; i < n; i++) p.push_back(num(line + i * 10) + " ON 1 GOSUB " + num(line + i * 10 + 10) + ",400:PRINT \"r" + num(i) + "\";:" + (i ? "RETURN" : "END")); }
    p.push_back("300 PRINT \"deep\";:" + std::string(ending));
    if (kind == 1) { std::string s = "310 PRINT \"go\";"; for (int i = n; i--;) s += ":NEXT L" + num(i); p.push_back(s + ":PRINT \"all\":END"); } else p.push_back("310 PRINT \"go\";:RETURN");
    p.push_back("400 PRINT \"sub\";:RETURN"); p.push_back("410 PRINT \"jump\":END"); p.push_back("420 FOR K=1 TO 2:PRINT K;:NEXT K:PRINT \"k\":RETURN");
    for (size_t i = 0; i + 1 < p.size(); i++) if (p[i].find("GOSUB " + num(10 + n * 10) + ":") != std::string::npos || p[i].find("GOSUB " + num(10 + n * 10) + ",") != std::string::npos) { std::string w = "GOSUB " + num(10 + n * 10); p[i].replace(p[i].find(w), w.size(), "GOSUB 300"); }
    auto go = [&](CVS ev) { for (auto& pr : probes) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (auto& l : p) k.in.push_back(l + "\n"); k.in.push_back("RUN\n"); for (auto& e : ev) k.in.push_back(e + "\n"); for (auto& l : lines_of(pr)) k.in.push_back(l); c.model(k); } };
    bool full = n >= 7 || c.thorough; std::string e0(ending);
    sequences(events, 0, full && n <= 9 && (e0 == "STOP" || c.thorough) ? pairs : 1, go);
  }
}
static const VS EV = {"GOSUB 400", "GOSUB 400:PRINT \"back\"", "RETURN", "NEXT", "NEXT L0", "NEXT Q", "FOR Z=1 TO 2", "FOR Z=1 TO 2:PRINT Z;:NEXT", "FOR L0=1 TO 2:PRINT L0;:NEXT L0", "ON 1 GOSUB 400", "GOSUB 420", "GOTO 410", "PRINT LOG(0)", "PRINT (", "GOTO 9", "GOSUB 9", "PRINT FNA(1)", "A$=\"a\"+STR$(1)", "FOR M0=1 TO 2:FOR M1=1 TO 2", "GOSUB 420:GOSUB 420:GOSUB 420:PRINT \"3\"", "CONT", "STOP", "ON 3 GOSUB 400,420", "CLEAR", "END"};
D(C04) { c.sec("calls of every depth when typed lines call"); depths(c, EV, {"CONT|RETURN|RETURN", "RETURN|CONT|PRINT \"e\"|RETURN"}, 2); }
D(C03) { c.sec("loops of every depth when typed lines loop"); depths(c, {"NEXT", "NEXT L0", "NEXT L7", "NEXT Q", "FOR Z=1 TO 2", "FOR Z=1 TO 2:PRINT Z;:NEXT", "FOR L0=5 TO 6:PRINT L0;:NEXT L0", "FOR L7=5 TO 6", "FOR Z=1 TO 2:NEXT Q", "GOSUB 420", "PRINT LOG(0)", "NEXT L1,L0", "FOR M0=1 TO 2:FOR M1=1 TO 2", "FOR M0=1 TO 2:FOR M1=1 TO 2:NEXT:NEXT"}, {"CONT|NEXT|NEXT", "NEXT|NEXT|CONT|PRINT \"e\""}, 2); }
D(C16) { c.sec("failures at every depth"); depths(c, {"PRINT LOG(0)", "GOSUB 9", "GOSUB 400:PRINT LOG(0)", "GOSUB 400:GOSUB 9", "RETURN:PRINT LOG(0)", "FOR Z=1 TO 2:PRINT LOG(0)", "NEXT Q", "PRINT (", "ON 1 GOSUB 9", "PRINT FNA(LOG(0))", "RETURN", "PRINT 1+(2+LOG(0))", "A$=\"a\"+CHR$(-1)", "RUN 5"}, {"CONT|RETURN|NEXT", "RUN|RUN"}, 2); }
D(C14) { c.sec("stopped at every depth"); depths(c, {"X=5", "PRINT X;L0;L7", "LIST 300", "GOSUB 400", "FOR Z=1 TO 1:NEXT", "PRINT FNA(3);STR$(3)+\"s\"", "PRINT (", "PRINT LOG(0)", "DIM W(3):W(1)=2", "RESTORE", "CONT", "SAVE \"F\"", "LINE INPUT A$", "RENUM", "420"}, {"CONT|CONT|CONT"}, 2); }

// ---- immediate lines of their own calls, data and loops, among those of the program
D(C05) { c.sec("typed lines with items of their own");
  VS st = {"READ A:PRINT A;", "READ A$:PRINT A$;", "RESTORE", "RESTORE 20", "RESTORE 30", "RESTORE 40", "RESTORE 9", "GOSUB 50", "READ Q(1),B$:PRINT Q(1);B$;", "IF A THEN RESTORE 20", "GOTO 60"};
  VS data = {"DATA 7,8,9", "DATA", "DATA seven", "REM", "DATA 7:DATA 8", "READ B:PRINT B;:DATA 1"};
  for (auto& d : data) sequences(st, 1, c.thorough ? 4 : 3, [&](CVS s) { if (!c.take()) return; Case k; k.argv = {"-q"}; for (auto l : {"10 DATA 1,2", "20 DATA 3,4", "30 REM", "40 DATA 5,6", "50 READ A:PRINT \"s\";A;:RETURN", "60 READ A:PRINT \"g\";A:END"}) k.in.push_back(std::string(l) + "\n");
    std::string l = join(s, ":"); if (c.index & 1) k.in.push_back("READ A\n"); if (l.size() + d.size() < 110) { if (c.index % 3) k.in.push_back(l + ":" + d + "\n"); else k.in.push_back(d + (d == "REM" ? "\n" : ":" + l + "\n")); } k.in.push_back("READ A,A$:PRINT A;A$\n"); k.in.push_back(s[0] + ":" + d + "\n"); k.in.push_back("GOTO 60\n"); c.model(k); });
  c.sec("typed and stored reads in turn");
  VS ev = {"READ A:PRINT A", "READ A:PRINT A:DATA 7", "READ A:PRINT A:READ A:PRINT A:DATA 7", "RESTORE", "RESTORE 20", "RESTORE 40:READ A:PRINT A:DATA 9", "GOTO 60", "GOSUB 50", "GOSUB 50:PRINT \"b\":READ A:PRINT A:DATA 8", "15 DATA 11", "20", "RUN 50", "RENUM", "PRINT LOG(0)", "CLEAR", "GOTO 70", "CONT"};
  c.histories({"-q"}, {"10 DATA 1,2", "20 DATA 3,4", "40 DATA 5,6", "50 READ A:PRINT \"s\";A;:RETURN", "60 READ A:PRINT \"g\";A:END", "70 READ A:STOP:READ A:PRINT \"c\";A"}, ev, {"READ A:PRINT A|LIST"}, c.thorough ? 4 : 3); }

// ---- names of files
D(C12) { c.sec("names of files");
  VS n = {"F", " F", "F ", "  F", " F ", "\tF", "F\t", "F F", "F  F", "f", "F.bas", "F.BAS", ".F", "F.", "F..", "..F", "1", "10", "-F", "--help", "F,F", "F:F", "F;F", "F'F", "F$", "F(1)", "REM", "LIST", "*", "?", "F*", "%s", "%d%n", "~F", "$F", "\\F", "F\\F", "|F", ">F", "F>G", "`F`", "\x80", "\xff", "\xc3\xa9", "con", "nul", "F\x01", "\x7f", "F#", "F!", "#F", "@", "[F]", "{F}", "^F", "_", "=", "+", "&F", "F&"}; for (int l : {2, 7, 8, 9, 12, 13, 31, 32, 33, 63, 64, 65, 100, 110, 120}) { n.push_back(rep("N", l)); n.push_back(rep("N", l - 1) + "M"); n.push_back(rep("N", l) + ".BAS"); }
  for (auto& a : n) for (auto how : {"", "L"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; k.files["F"] = "10 PRINT \"plain\"\n"; k.files["f"] = "10 PRINT \"lower\"\n"; k.files["G"] = "10 PRINT \"g\"\n"; if (*how) k.files[a] = "10 PRINT \"it\"\n";
    std::string q = "\"" + a + "\""; if (*how) for (auto& l : {std::string("LOAD ") + q, std::string("RUN"), std::string("20 PRINT \"more\""), "SAVE " + q, std::string("NEW"), "LOAD " + q, std::string("LIST"), std::string("LOAD \"F\""), std::string("RUN")}) k.in.push_back(l + "\n");
    else for (auto& l : {std::string("10 PRINT \"new\""), "SAVE " + q, std::string("NEW"), "LOAD " + q, std::string("LIST"), std::string("LOAD \"F\""), std::string("RUN"), std::string("LOAD \"f\""), std::string("RUN"), "save" + q, "load  " + q + " ", std::string("RUN")}) k.in.push_back(l + "\n");
    c.model(k); }
  c.sec("every pair of names of files");
  for (auto& a : n) for (auto& b : n) { if (a == b || !c.take()) continue; Case k; k.argv = {"-q"}; k.files[b] = "10 PRINT \"b\"\n"; for (auto& l : {"10 PRINT \"a\"", "SAVE \"%\"", "NEW", "LOAD \"@\"", "RUN", "SAVE \"@\"", "LOAD \"%\"", "RUN", "LOAD \"@\"", "LIST"}) { std::string o; for (const char* p = l; *p; p++) if (*p == '%') o += a; else if (*p == '@') o += b; else o += *p; k.in.push_back(o + "\n"); } c.model(k); }
  c.sec("every way of writing the command");
  VS pre = {"SAVE", "LOAD"}, gap = {"", " ", "  ", "\t", " \t "}, q = {"\"F\"", "F", "\"F", "F\"", "\"\"", "\"F\"\"", "\"F\"G\"", "'F'", "\"F\",A", "\"F\":PRINT 1", "\"F\" x", "\"F\" ", "\"F\"\t", "A$", "\"F\"+\"G\"", "(\"F\")", "5", "\"F\";", "\"F\",\"G\"", "", "\" \"", "\"", "\"\t\""};
  for (auto& p : pre) for (auto& g : gap) for (auto& x : q) for (auto& t : {"", " ", "  "}) for (int low = 0; low < 3; low++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; k.files["F"] = "10 PRINT \"f\"\n"; std::string l = p; if (low == 1) for (char& ch : l) ch = (char)tolower(ch); if (low == 2) l[1] = 'a', l[0] = l[0] == 'S' ? 's' : 'L', l[1] = l[0] == 's' ? 'A' : 'o'; for (auto& s : {std::string("10 PRINT \"x\""), std::string(t) + l + g + x, std::string("LIST"), std::string("RUN"), std::string("LOAD \"F\""), std::string("RUN")}) k.in.push_back(s + "\n"); c.model(k); }
}
