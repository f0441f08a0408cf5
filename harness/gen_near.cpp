// A tenth group: lines replaced by lines that hardly differ; programs loaded, edited down or up to every size and saved;
// DATA beside what looks like references; every mistake while stopped; typed DATA at every depth; loops over numbers of
// every magnitude; large programs renumbered by every increment.
#include "gen.h"
#define N(id) void near_##id(Ctx& c)

// ---- lines replaced by lines that hardly differ
static void near_edits(Ctx& c, CVS before, CVS after) {
  const VS LINES = {"PRINT \"abC d\";A", "A=5:PRINT a;\"A=6\"", "DATA ab, 12,\"c\":READ A$,B$:PRINT A$;B$", "REM remark", "IF A THEN PRINT 1 ELSE PRINT 2", "GOTO 30", "Q(1)=1:PRINT Q(1)", "DEF FNA(X)=X+1:PRINT FNA(2)", "PRINT 1", " PRINT 2", "GOSUB 50:PRINT \"s\"", "FOR I=1 TO 3:PRINT I;:NEXT", "", "INPUT \"Pa\";A"};
  for (auto& l : LINES) { VS v; v.push_back(l); auto add = [&](const std::string& s) { if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); };
    for (size_t i = 0; i < l.size(); i++) { char ch = l[i]; std::string s = l; if (isalpha((unsigned char)ch)) { s[i] = ch ^ 32; add(s); s = l; s[i] = ch == 'Q' || ch == 'q' ? 'R' : ch + 1; add(s); } else if (isdigit((unsigned char)ch)) { s[i] = ch == '9' ? '1' : ch + 1; add(s); } else if (ch == ' ') { s.erase(i, 1); add(s); s = l; s[i] = '\t'; add(s); } else { s[i] = ';'; add(s); s[i] = ':'; add(s); }
      if (i + 1 < l.size()) { s = l; std::swap(s[i], s[i + 1]); add(s); s = l; s.insert(i, " "); add(s); } s = l; s.erase(i, 1); add(s); s = l.substr(0, i); add(s); }
    for (auto t : {" ", "\t", "  ", ":", ":REM", "0", ";", "x"}) add(l + t); add(" " + l); std::string u = l, d = l; for (auto& ch : u) ch = toupper(ch); for (auto& ch : d) ch = tolower(ch); add(u); add(d);
    for (auto& b : before) { VS ls; int n = 0; auto flush = [&]() { if (n && c.take()) { Case k; k.argv = {"-q"}; for (auto x : {"5 A=1", "30 PRINT \"end\";A", "40 END", "50 RETURN"}) k.in.push_back(std::string(x) + "\n"); for (auto& x : ls) k.in.push_back(x + "\n"); c.model(k); } ls.clear(); n = 0; };
      for (auto& s : v) { if (!c.thorough && n % 2 && b.size() > 9) { n++; continue; } ls.push_back("10 " + l); for (auto& x : split(b)) if (!x.empty()) ls.push_back(x); ls.push_back("10 " + s); for (auto& x : after) ls.push_back(x); if (++n >= 12) flush(); } flush(); } }
}
N(C11) { c.sec("lines replaced by lines that hardly differ"); near_edits(c, {"RUN|7", "", "COMPILE", "PRINT 1", "LIST", "RUN|7|SAVE \"F\"", "SAVE \"F\"|NEW|LOAD \"F\"|RUN|7"}, {"RUN", "6", "LIST 10"}); }
N(C15) { c.sec("lines replaced by lines that hardly differ, then typed statements"); near_edits(c, {"RUN|7", "PRINT A;FNA(1)"}, {"PRINT A;Q(1);FNA(1)", "GOTO 5", "6"});
  c.sec("typed DATA at every depth"); // loops and calls pending, items half read, the same line typed again
  const VS T = {"READ A:PRINT A:DATA 1", "READ A,B:PRINT A;B:DATA 2,3", "DATA 4", "READ A:PRINT A", "PRINT \"x\"", "RESTORE", "RESTORE:READ A:PRINT A:DATA 5", "READ A:PRINT A:READ B:DATA 6", "RESTORE 900:READ A:PRINT A:DATA 7", "FOR Z=1 TO 2:READ A:PRINT A:NEXT:DATA 8,9", "GOSUB 800:DATA 10", "READ A:GOSUB 800:PRINT A:DATA 11,12"};
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (size_t a = 0; a < T.size(); a++) for (size_t b = 0; b < T.size(); b++) { if (!c.thorough && ((f && g) || (f + g) % 2 == 0) && (f + 2 * g + a * 3 + b) % 7) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; long n = 10; for (int i = 0; i < f; i++, n += 10) k.in.push_back(num(n) + " FOR L" + num(i) + "=1 TO 2\n"); for (int i = 0; i < g; i++, n += 10) k.in.push_back(num(n) + " GOSUB " + num(n + 10) + "\n"); k.in.push_back(num(n) + " STOP\n"); k.in.push_back(num(n + 10) + " READ A:PRINT A:END\n"); for (auto l : {"800 READ A:PRINT \"p\";A:RETURN", "900 DATA 91,92,93,94", "RUN"}) k.in.push_back(std::string(l) + "\n"); for (auto& l : {T[a], T[b], T[a], std::string("CONT"), std::string("READ A:PRINT A")}) k.in.push_back(l + "\n"); c.model(k); } }
N(C14) { c.sec("lines replaced by lines that hardly differ, then CONT"); near_edits(c, {"20 STOP|RUN|7"}, {"CONT", "RUN", "8", "CONT"});
  c.sec("every failure while stopped"); // in functions of the program, of a typed line, in the statement itself
  const VS B = {"LOG(X)", "A(X)", "FNB(X)", "FNC(X)", "VAL(\"x\")", "ASC(CHR$(X-1))", "A(11)", "ASC(MID$(\"a\",X,1))", "LEN(CHR$(X+255))", "X+1", "A(1,1)", "NOT X+.5", "LEN(LEFT$(\"a\",-X))", "X/0", "SQR(-X)", "FNA(X)", "1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+(16+X)))))))))))))))", "RND*0+LEN(A$+A$)"};
  for (auto& b : B) for (int where = 0; where < 3; where++) for (auto use : {"PRINT FNA(@)", "A=FNA(@)", "IF FNA(@) THEN PRINT 1", "FOR Z=FNA(@) TO 1:NEXT Z", "Q(FNA(@))=1", "ON FNA(@) GOTO 20", "PRINT 1+(2+(3+FNA(@)))", "PRINT \"a\"+STR$(FNA(@))", "DIM W(FNA(@))", "READ Q(FNA(@))", "PRINT TAB(FNA(@));\"t\"", "RANDOMIZE FNA(@)", "PRINT ABS(FNA(@)):CLEAR", "GOSUB 900", "PRINT B"}) for (auto stop : {"STOP", "GOSUB 70", "FOR I=1 TO 2:STOP:NEXT", "INPUT V", "END"}) for (auto a : {"0", "1", "2"}) { if (!c.thorough && a[0] != '0' && (b.size() + strlen(use) + where + a[0]) % 6) continue; if (!c.take()) continue; std::string u; for (const char* x = use; *x; x++) if (*x == '@') u += a; else u += *x;
    Case k; k.argv = {"-q"}; VS p = {where == 0 ? "10 DEF FNA(X)=" + b : "10 REM", "12 DEF FNB(X)=X+LOG(X):DIM A(3)", std::string("20 ") + stop, "30 PRINT \"on\";X;A;I:READ D:PRINT D", "40 IF I=0 THEN END", "50 PRINT \"w\";I:END", "60 DATA 5,6,7", "70 STOP:PRINT \"sub\":RETURN", "900 PRINT LOG(0)"}; for (auto& l : p) k.in.push_back(l + "\n"); if (where) k.in.push_back("PRINT 1\n"); if (where == 2) k.in.push_back("DEF FNA(X)=" + b + "\n"); k.in.push_back("X=4\n"); k.in.push_back("RUN\n"); if (stop[0] == 'I') k.in.push_back("3\n"); if (where == 1) k.in.push_back("DEF FNA(X)=" + b + "\n"); for (auto& l : {u, u, std::string("CONT"), std::string("PRINT X;A"), std::string("CONT"), std::string("CONT")}) k.in.push_back(l + "\n"); c.model(k); } }
N(C16) { c.sec("lines replaced by lines that hardly differ and fail"); near_edits(c, {"20 A=LOG(0)|RUN|7"}, {"RUN", "8", "PRINT Q(1)"}); }
N(C19) { c.sec("lines retyped in another case"); near_edits(c, {"RUN|7", "COMPILE"}, {"LIST 10", "RUN", "8"}); }
N(C20) { c.sec("lines replaced by lines that hardly differ, traced"); near_edits(c, {"RUN|7"}, {"RUN", "6"}); }

// ---- loaded, edited to another size, saved
N(C12) { c.sec("loaded, edited to another size, saved");
  const VS EDIT = {"", "RUN", "del1", "delhalf", "delmost", "delall", "ins1", "inshalf", "insmany", "rep1", "same1", "delins", "renum", "new", "upper"};
  for (int n : {0, 1, 2, 3, 8, 9, 20, 63, 64, 65, 100, 126, 127, 128, 129, 130, 140, 200, 255, 256, 257, 258, 300, 400}) for (auto& e : EDIT) for (auto& e2 : EDIT) for (int to = 0; to < 3; to++) for (int run = 0; run < 2; run++) { if (!c.thorough && e2 != "" && (n + e.size() * 3 + e2.size() + to + run) % 9) continue; if (!c.thorough && (n * 2 + to + run + e.size()) % 2) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; for (int i = 1; i <= n; i++) f += num(i * 10) + " A=A+1:REM " + num(i) + "\n"; k.in = {"LOAD \"P\"\n"};
    for (auto& x : {e, e2}) { if (x == "RUN") k.in.push_back("RUN\n"); else if (x == "renum") k.in.push_back("RENUM 100,1,10\n"); else if (x == "new") k.in.push_back("NEW\n"); else if (x == "del1") k.in.push_back(num((n / 2 + 1) * 10) + "\n"); else if (x == "upper") k.in.push_back("10 a=a+1:rem 1\n"); else if (x == "same1") k.in.push_back("10 A=A+1:REM 1\n"); else if (x == "rep1") k.in.push_back(num((n / 2 + 1) * 10) + " A=A+9\n"); else if (x == "ins1") k.in.push_back(num(n * 10 - 5 > 0 ? n * 10 - 5 : 5) + " A=A+100\n"); else if (x == "delins") { k.in.push_back("10\n"); k.in.push_back("15 A=A+50\n"); }
      else { int m = x == "delall" ? n : x == "delmost" ? n - 3 : x == "delhalf" ? n / 2 : x == "inshalf" ? n / 2 : 140; for (int i = 1; i <= m; i++) k.in.push_back(x[0] == 'd' ? num((x == "delmost" ? n + 1 - i : i) * 10) + "\n" : num(i * 10 + 3) + " A=A+7\n"); } }
    if (run) k.in.push_back("PRINT 0\n"); std::string name = to == 0 ? "P" : to == 1 ? "Q" : "./P"; k.in.push_back("SAVE \"" + name + "\"\n"); k.in.push_back("RUN\n"); k.in.push_back("NEW\n"); k.in.push_back("LOAD \"" + name + "\"\n"); for (auto l : {"PRINT A", "RUN", "PRINT A", "LIST -40", "5 PRINT A", "SAVE \"P\"", "NEW", "LOAD \"P\"", "LIST -20"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } }

// ---- DATA beside what looks like references; every few parts of a line
N(C13) { c.sec("items that look like references");
  const VS I = {"1", "GOTO 5", "\"GOTO 5\"", "5", "", " THEN 5 ", "RESTORE 5", "a"};
  sequences(I, 1, c.thorough ? 5 : 4, [&](CVS s) { if (!c.thorough && s.size() == 4 && s[0] != "1" && s[0] != "\"GOTO 5\"") return; if (!c.take()) return; std::string d; for (auto& x : s) d += (d.empty() ? "" : ",") + x; if (s[0].empty() && s.size() > 1) { d.clear(); for (size_t i = 0; i < s.size(); i++) d += (i ? "," : "") + s[i]; } Case k; k.argv = {"-q"}; for (auto& l : {std::string("5 A=A+1:IF A>2 THEN END"), "20 DATA " + d, "25 DATA " + d + ":GOTO 5", "30 IF A=9 THEN DATA " + d + ":GOTO 5", std::string("RENUM 100,1,7"), std::string("LIST"), std::string("RUN"), std::string("READ A$,B$,C$:PRINT A$;B$;C$"), std::string("RENUM 5"), std::string("LIST")}) k.in.push_back(l + "\n"); c.model(k); });
  c.sec("parts of a line in every order");
  const VS PT = {"GOTO 5", "GOSUB 5", "IF 5 THEN 5", "IF 5 THEN 5 ELSE 5", "IF A THEN A=5", "IF A THEN A=5 ELSE A=5", "ON 5 GOTO 5,5", "ON A GOSUB 5", "RESTORE 5", "RESTORE", "A=5", "PRINT \"5\"", "PRINT 5", "DATA 5", "DATA 5,GOTO 5", "DATA \"5\"", "PRINT \"GOTO 5\"", "FOR I=5 TO 5", "NEXT", "REM GOTO 5", "", "A$=\"\"", "DEF FNA(X)=5", "DIM Q(5)", "RETURN", "A=5:GOTO 7", "GOTO 5.5", "GOTO 6,5"};
  sequences(PT, 2, 3, [&](CVS s) { if (s.size() == 3 && !c.thorough) { size_t h = 0; for (auto& x : s) h = h * 31 + x.size() * 7 + (x.empty() ? 0 : x[0]); if (h % 5) return; } if (!c.take()) return; std::string l = s[0]; for (size_t i = 1; i < s.size(); i++) l += ":" + s[i]; Case k; k.argv = {"-q"}; for (auto& x : {std::string("5 REM"), "6 " + l, "7 IF A THEN " + l, "8 IF A THEN " + s[0] + " ELSE " + s[1], std::string("RENUM 1000,1,10"), std::string("LIST"), std::string("RENUM 5,1010"), std::string("LIST"), std::string("RENUM 1,1,1"), std::string("LIST")}) k.in.push_back(x + "\n"); c.model(k); }); 
  c.sec("large programs renumbered by every increment");
  for (int n : {100, 500, 1000, 1023, 1024, 1025, 2047, 2049, 3000, 4095, 4096, 4097, 4098, 4110, 5000, 5041, 6500, 8191, 8193, 16383, 16390, 32767, 32769, 65000}) for (int inc = 1; inc <= 14; inc++) { if (!c.thorough && n > 5041 && inc % 3 == 0) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; for (int i = 1; i <= n; i++) f += num(i) + (i % 50 ? " REM\n" : " GOTO " + num(n + 1 - i) + "\n"); k.in = {"LOAD \"P\"\n", "RENUM 10,1," + num(inc) + "\n", "LIST -200\n", "LIST " + num((long)inc * (n - 60)) + "-\n", "RENUM 10," + num((long)inc * (n / 2)) + "," + num(inc) + "\n", "LIST -60\n", "RENUM 1,1,1\n", "LIST " + num(n - 60) + "-\n"}; c.run(Check{"model", {k}, "long"}); } }
N(C25) { c.sec("large programs renumbered, listed and run");
  for (int n : {1000, 4090, 4095, 4096, 4097, 4110, 5000, 8193, 16390, 32769, 60000}) for (int inc : {1, 2, 3, 7, 8, 10, 11, 12, 13, 15, 16}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; for (int i = 1; i <= n; i++) f += num(i) + (i % 50 ? " A=A+1\n" : " IF A=" + num(i - i / 50) + " THEN " + num(i + 1 <= n ? i + 1 : 1) + " ELSE 1\n"); f += num(n + 1) + " PRINT A\n"; k.in = {"LOAD \"P\"\n", "RENUM 10,1," + num(inc) + "\n", "LIST " + num((long)inc * (n - 60)) + "-\n", "RUN\n", "RENUM 1,1,1\n", "LIST " + num(n - 60) + "-\n"}; c.run(Check{"model", {k}, "long"}); } }

// ---- loops over numbers of every magnitude
N(C03) { c.sec("loops over numbers of every magnitude");
  for (int e = -323; e <= 308; e++) for (int neg = 0; neg < 2; neg++) { if (!c.thorough && e % 3 && e > -320 && e < 306) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string u = "1E" + num(e), m = neg ? "-" : ""; for (auto l : {"10 K=0:FOR I=@0 TO @# STEP @#", "10 K=0:FOR I=@0 TO 3*@# STEP @#", "10 K=0:FOR I=@# TO @# STEP @#", "10 K=0:FOR I=@# TO 4*@# STEP @#", "10 K=0:FOR I=@# TO @# STEP -@#", "10 K=0:FOR I=-@# TO @# STEP @#", "10 K=0:FOR I=@# TO -@# STEP -@#", "10 K=0:FOR I=1 TO 1+@#", "10 K=0:FOR I=@# TO @#", "10 K=0:FOR I=1 TO 1 STEP @#", "10 K=0:FOR I=@# TO 2*@# STEP @#/2", "10 K=0:FOR I=0 TO 1 STEP @#", "10 K=0:FOR I=@# TO 3*@#"}) { std::string s; for (const char* x = l; *x; x++) if (*x == '@') s += m; else if (*x == '#') s += u; else s += *x; k.in.push_back(s + "\n"); k.in.push_back("20 K=K+1:PRINT I;:IF K<7 THEN NEXT\n"); k.in.push_back("30 PRINT \"k\";K;I\n"); k.in.push_back("RUN\n"); } c.model(k); }
  c.sec("limits and steps of every pair of magnitudes"); const int E[] = {-323, -310, -308, -200, -170, -160, -155, -100, -16, -8, -5, -1, 0, 1, 5, 8, 15, 16, 17, 100, 153, 155, 160, 200, 300, 308};
  for (int a : E) for (int b : E) for (int sg = 0; sg < 8; sg++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string A = (sg & 1 ? "-1E" : "1E") + num(a), B = (sg & 2 ? "-1E" : "1E") + num(b), C = sg & 4 ? A : "0"; for (auto& l : {"FOR I=" + C + " TO " + A + " STEP " + B, "FOR I=" + B + " TO " + A + " STEP " + B, "FOR I=" + A + " TO " + C + "+" + B + " STEP " + B}) { k.in.push_back("10 K=0:" + l + "\n"); k.in.push_back("20 K=K+1:PRINT I;:IF K<5 THEN NEXT\n"); k.in.push_back("30 PRINT \"k\";K;I\n"); k.in.push_back("RUN\n"); } c.model(k); } }
