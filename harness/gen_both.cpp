// An eleventh group: limits met together. Every number of loops with every number of calls in every order, and then one
// more of each, or an expression of every depth; concatenation of strings of every pair of lengths.
#include "gen.h"
#define B(id) void both_##id(Ctx& c)

// f loops and g calls, entered in one of several orders; body runs innermost
static VS nest(int f, int g, int order, CVS body) {
  VS p; long n = 10; auto add = [&](const std::string& s) { p.push_back(num(n) + " " + s); n += 10; };
  std::string seq; if (order == 0) seq = rep("F", f) + rep("G", g); else if (order == 1) seq = rep("G", g) + rep("F", f); else { int a = f, b = g; while (a || b) { if (a) { seq += "F"; a--; } if (b) { seq += "G"; b--; } } }
  int k = 0; for (char ch : seq) { k++; if (ch == 'F') add("FOR L" + num(k) + "=1 TO 1"); else { add("GOSUB " + num(n + 10)); } }
  for (auto& b : body) add(b); return p;
}
static std::string deep_num(int d) { std::string s; for (int i = 0; i < d; i++) s += "1+("; return s + "X" + rep(")", d); }
static std::string deep_str(int d) { std::string s; for (int i = 0; i < d; i++) s += "\"a\"+("; return s + "A$" + rep(")", d); }
static void limits(Ctx& c, bool all) {
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (int o = 0; o < 3; o++) {
    if (o && (!f || !g)) continue;
    if (!all && !c.thorough && f != 8 && g != 8 && (f + g + o) % 3) continue;
    VS bodies = {"K=K+1:FOR Z1=1 TO 2:FOR Z2=1 TO 2:FOR Z3=1 TO 1:FOR Z4=1 TO 1", "GOSUB 900", "GOSUB 910", "PRINT \"in\":RETURN", "STOP", "PRINT " + deep_num(13), "PRINT " + deep_num(14), "PRINT " + deep_num(15), "PRINT " + deep_str(6), "PRINT " + deep_str(7), "PRINT 1+(LEN(" + deep_str(6) + ")+FNA(FNA(2)))", "DIM Q(9,9):Q(9,9)=1:PRINT Q(9,9)", "FOR L1=1 TO 3:PRINT L1:NEXT", "INPUT V,W:PRINT V;W", "ON 2 GOSUB 910,900", "ON 1 GOTO 900", "READ A,B$:PRINT A;B$", "CLEAR:GOSUB 900", "NEXT", "NEXT L1", "PRINT LEN(C$+C$)", "PRINT LOG(0)"};
    for (size_t b = 0; b < bodies.size(); b += 4) { if (!c.take()) continue; Case k; k.argv = {"-q"};
      for (size_t i = b; i < b + 4 && i < bodies.size(); i++) { k.in.push_back("NEW\n"); k.in.push_back("5 X=2:A$=\"z\":DEF FNA(X)=X*2:K=0:FOR I=1 TO 200:C$=C$+\"c\":NEXT\n"); for (auto& l : nest(f, g, o, {bodies[i], "PRINT \"after\";K:IF K=3 THEN STOP", "K=K+1:IF K<3 THEN GOSUB 900", "PRINT \"out\":STOP"})) k.in.push_back(l + "\n"); for (auto l : {"800 DATA 1,two,3", "899 END", "900 PRINT \"a\";:K=K+1:IF K<9 THEN GOSUB 900", "905 RETURN", "910 FOR Y=1 TO 2:PRINT Y;:NEXT:RETURN", "RUN", "5,6", "PRINT K;L1;L2", "CONT", "CONT", "GOSUB 910", "FOR M=1 TO 2:PRINT M:NEXT", "NEXT", "RETURN"}) k.in.push_back(std::string(l) + "\n"); }
      c.model(k); } }
}
void both2_C25(Ctx& c);
B(C25) { c.sec("limits met together"); limits(c, true); both2_C25(c); }
void both2_C01(Ctx& c); void both2_C16(Ctx& c);
B(C01) { c.sec("limits met together"); limits(c, false); both2_C01(c); }
B(C03) { c.sec("limits met together"); limits(c, false); }
B(C16) { c.sec("limits met together"); limits(c, false); both2_C16(c); }
B(C17) { c.sec("limits met together"); limits(c, false); }

// ---- concatenation of every pair of lengths
static void pairs(Ctx& c) {
  for (int lo = 0; lo <= 255; lo += 8) { if (!c.take()) continue; Case k; k.argv = {"-q"};
    for (auto& l : {std::string("10 FOR I=1 TO 255:X$=X$+CHR$(33+I-90*INT(I/90)):Y$=CHR$(34+I-89*INT(I/89))+Y$:NEXT"), "20 FOR I=" + num(lo) + " TO " + num(lo + 7) + ":A$=LEFT$(X$,I)", std::string("30 FOR J=0 TO 255-I STEP 1:B$=LEFT$(Y$,J):C$=A$+B$"), std::string("35 IF LEN(C$)<>I+J OR LEFT$(C$,I)<>A$ OR RIGHT$(C$,J)<>B$ THEN PRINT \"bad\";I;J"), std::string("40 NEXT J,I:PRINT \"done\""), std::string("RUN")}) k.in.push_back(l + "\n");
    for (int i = lo; i < lo + 8; i++) for (int j : {256 - i, 257 - i, 255, 254, 128, 1}) if (i + j > 253 && j <= 255) { k.in.push_back("P$=\"k\":A$=LEFT$(X$," + num(i) + "):B$=LEFT$(Y$," + num(j) + ")\n"); k.in.push_back("P$=A$+B$:PRINT LEN(P$)\n"); k.in.push_back("PRINT LEN(P$);LEN(B$+A$);LEN(\"\"+B$);LEN(B$+\"\")\n"); }
    c.run(Check{"model", {k}, "long"}); }
  for (auto a : {"\"\"", "\"x\"", "X$", "Y$", "LEFT$(X$,127)", "LEFT$(X$,128)", "MID$(Y$,2)", "CHR$(255)", "RIGHT$(X$,254)", "STR$(1)", "E$"}) for (auto b : {"\"\"", "\"x\"", "X$", "Y$", "LEFT$(X$,127)", "LEFT$(X$,128)", "MID$(Y$,2)", "CHR$(255)", "RIGHT$(X$,254)", "STR$(1)", "E$"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; k.in = {"FOR I=1 TO 255:X$=X$+CHR$(33+I-90*INT(I/90)):NEXT\n", "FOR I=1 TO 255:Y$=Y$+CHR$(I):NEXT\n"};
    for (auto op : {"@+#", "LEN(@+#)", "@=#", "@<#", "@>#", "@<=#", "@>=#", "@<>#", "LEFT$(@+#,1)", "RIGHT$(@+#,3)", "MID$(@+#,2,5)", "ASC(@+#)", "LEN(@+(#+E$))", "(@)+(#)=@+#", "STR$(LEN(@))+STR$(LEN(#))"}) { std::string s; for (const char* x = op; *x; x++) if (*x == '@') s += a; else if (*x == '#') s += b; else s += *x; k.in.push_back("PRINT " + s + "\n"); k.in.push_back("P$=\"p\":IF 1 THEN P=LEN(" + std::string(a) + "+" + b + "):PRINT P;P$\n"); } c.model(k); }
}
B(C07) { c.sec("every pair of lengths joined"); pairs(c); }
B(C08) { c.sec("limits met together"); for (int n = 0; n <= 15; n++) for (int s = 0; s <= 8; s++) for (auto body : {"X", "X+X", "FNB(X)", "LEN(B$)+X", "X*(X+(X+1))", "FNB(FNB(X))", "LEN(LEFT$(B$+B$,X))", "(((X)))", "LOG(X-X)"}) { if (!c.thorough && (n + s) % 2 && n < 11 && s < 6) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; for (auto& l : {std::string("10 B$=\"bb\":X=7:DEF FNB(Y)=Y+X"), "20 DEF FNA(X)=" + std::string(body), std::string("RUN"), "PRINT " + [&] { std::string t; for (int i = 0; i < n; i++) t += "1+("; for (int i = 0; i < s; i++) t += i ? "\"a\"+(" : "LEN(\"a\"+("; t += s ? "STR$(FNA(2))" : "FNA(2)"; for (int i = 0; i < s; i++) t += i ? ")" : "))"; return t + rep(")", n); }(), std::string("PRINT X;FNA(3)")}) if (l.size() <= 126) k.in.push_back(l + "\n"); c.model(k); } }

// ---- numbers and strings pending together, at every depth, with an error or not innermost
static std::string pending(int n, int s, const std::string& inner, bool str) { // inner is a number unless str
  std::string t; for (int i = 0; i < n; i++) t += "1+("; if (s) t += "LEN(\"a\""; for (int i = 1; i < s; i++) t += "+(\"a\""; std::string e = inner; if (s && !str) e = "STR$(" + inner + ")"; if (!s && str) e = "LEN(" + inner + ")"; t += (s ? "+" : "") + e; return t + rep(")", s) + rep(")", n); }
static void pend(Ctx& c, bool errors) {
  const VS OK = {"X", "X+X", "1+(2+3)", "1+(2+(3+4))", "A(1)", "A(X,1)", "FNA(X)", "FNA(FNB(1))", "X=1", "LEN(A$)", "VAL(\"2\")", "INT(X)", "-X", "NOT X", "ASC(MID$(A$,X,1))"}, OKS = {"A$", "A$+A$", "A$+(A$+A$)", "LEFT$(A$,X)", "MID$(A$,1,X)", "A$(1)", "CHR$(X+65)", "STR$(X)", "FNA(1)"};
  const VS BAD = {"LOG(0)", "A(99)", "FNC(1)", "FNE(1)", "VAL(A$)", "A(-1)", "A(1,1,1)", "ASC(MID$(A$,9))", "NOT .5", "1.5 OR 1"}, BADS = {"CHR$(-1)", "LEFT$(A$,-1)", "MID$(A$,9)", "A$(99)", "STR$(LOG(0))", "LEFT$(A$,X/2)"};
  for (int n = 0; n <= 15; n++) for (int s = 0; s <= 8; s++) for (int str = 0; str < 2; str++) { const VS& P = errors ? str ? BADS : BAD : str ? OKS : OK; for (size_t i = 0; i < P.size(); i++) { if (!c.thorough && (n * 3 + s + i) % 3 && n + s < 14 && s < 6) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string e = "PRINT " + pending(n, s, P[i], str && P[i] != "FNA(1)");
    std::string num15 = "PRINT " + pending(13, 0, "X", false), num16 = "PRINT " + pending(14, 0, "X", false), str7 = "PRINT " + pending(0, 6, "A$", true), str8 = "PRINT " + pending(0, 7, "A$", true);
    for (auto& l : {std::string("10 A$=\"bcd\":X=1:DIM A(9):A(1)=4:A$(1)=\"q\":DEF FNA(Y)=Y+X:DEF FNB(Z)=Z:DEF FNE(Z)=Z+LOG(0)"), std::string("RUN"), e, num15, num16, str7, str8, e, e, e, std::string("PRINT FNA(1);X;A$"), str7, num15, std::string("20 ") + e, std::string("30 PRINT \"not here\""), std::string("GOTO 20"), str7, num15, std::string("PRINT FNB(2)")}) if (l.size() <= 126) k.in.push_back(l + "\n"); c.model(k); } }
}
void both2_C01(Ctx& c); void both2_C16(Ctx& c); void both2_C25(Ctx& c);
void both2_C01(Ctx& c) { c.sec("numbers and strings pending"); pend(c, false); }
void both2_C16(Ctx& c) { c.sec("errors with numbers and strings pending"); pend(c, true); }
void both2_C25(Ctx& c) { both2_C01(c); }
