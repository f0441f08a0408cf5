// Statements of every kind in every surrounding: what a statement does must not depend on where it stands, what went
// before it in the session, or how the program got there. The model gives the answer for each composition.
#include "gen.h"
#include <cmath>
#define M(id) void more_##id(Ctx& c)

static std::string put(const std::string& t, const std::string& body) { std::string o; for (char ch : t) if (ch == '%') o += body; else o += ch; return o; }
static std::string put2(const std::string& t, const std::string& a, const std::string& b) { std::string o; for (char ch : t) if (ch == '%') o += a; else if (ch == '@') o += b; else o += ch; return o; }
static std::string small(const std::string& s) { bool q = false; std::string o; for (char ch : s) { if (ch == '"') q = !q; if (ch == '\n') q = false; o += q ? ch : (char)tolower(ch); } return o; }
static const char* TAIL = "|500 PRINT \"s500\";:RETURN|600 PRINT \"s600\";X;I:END|700 DATA 1,2,x y,\"q\",5,6,7,8,9|800 GOSUB 500:PRINT \"s800\";:RETURN";
static const VS IN = {"5\n", "6,7\n", "word, two\n", "8\n", "9,1,2\n", "x\n", "3\n"};

static const VS PT = {
  "10 %", "10 %|20 PRINT \"n\"", "10 PRINT \"a\";:%:PRINT \"b\"", "10 :%::PRINT \"k\"", "10 %:%", "10 %|20 %|30 PRINT X;Y$",
  "10 IF 1 THEN %:PRINT \"t\" ELSE PRINT \"e\"|20 PRINT \"n\"", "10 IF 0 THEN PRINT \"t\" ELSE %:PRINT \"x\"|20 PRINT \"n\"", "10 IF 1 THEN IF 0 THEN PRINT 1 ELSE %|20 PRINT \"n\"",
  "10 IF 1 THEN 30|20 END|30 %|40 IF 0 THEN 20 ELSE PRINT \"l\"", "10 GOSUB 100:PRINT \"r\":END|100 %:PRINT \"s\":RETURN", "10 GOSUB 100:PRINT \"r\":END|100 FOR J9=1 TO 2:GOSUB 110:NEXT:RETURN|110 %|120 PRINT \"i\";J9:RETURN",
  "10 FOR J=1 TO 3:%:NEXT J:PRINT \"d\";J", "10 FOR J=3 TO 1 STEP -1|20 %|30 NEXT|40 PRINT \"d\";J", "10 ON 2 GOSUB 90,100:PRINT \"r\":END|90 RETURN|100 %|110 RETURN",
  "10 C9=C9+1:IF C9>3 THEN END|20 %|30 PRINT \"c\";C9|40 GOTO 10", "10 DEF FNZ(X)=X+1:DIM Q9(3)|20 Q9(1)=5:%|30 PRINT FNZ(3);Q9(1)", "10 READ A9:%:READ A9$:PRINT A9;A9$:RESTORE:READ A9:PRINT A9",
  "10 PRINT \"abc\";:%:PRINT \"<\",\">\"", "10 PRINT TAB(30);|20 %|30 PRINT \"x\",\"y\"", "10 %:REM x|20 %:DATA 9|30 PRINT \"n\"", "10 DATA 9,8:%|20 READ A9:PRINT A9", "10 CLEAR:%|20 CLEAR|30 %",
  "10 X=1:Y=2:I=3:A$=\"zz\":X(1)=4:A$(2)=\"q\"|20 %|30 PRINT X;Y;I;A$;X(1);A$(2)", "10 GOTO 30|20 END|30 %|40 IF C9<1 THEN C9=C9+1:GOTO 20 ELSE PRINT \"e\"", "10 GOTO 30|20 %:PRINT \"twenty\":END|30 GOTO 20", "10 PRINT \"f\"|65535 %",
  "10 ON X+1 GOTO 20|15 END|20 X=7:%|30 PRINT X", "10 RANDOMIZE 2:%:PRINT RND(1)*0", "10 DEF FNS(X)=LEN(Y$)+X|20 Y$=\"ab\":PRINT FNS(1);:%|30 PRINT FNS(2);X;Y$", "10 GOSUB 20|20 %|30 Z9=Z9+1:IF Z9<3 THEN RETURN", "10 FOR A1=1 TO 2:FOR A2=1 TO 2|20 %|30 NEXT A2,A1:PRINT A1;A2",
  "10 DIM X(2),Y$(1,1)|20 %|30 PRINT X(2);Y$(1,0)", "10 INPUT Q7:%:PRINT Q7", "10 IF Z9=1 THEN PRINT \"again\":END|20 %|30 Z9=1:GOTO 10", "10 LET X=3|20 %|30 %|40 %|50 PRINT X" };
static const VS ST = {
  "%|PRINT \"p\"", "%|%|PRINT \"p\"", "FOR J=1 TO 2:%:NEXT|PRINT \"p\"", "IF 1 THEN % ELSE PRINT \"e\"|IF 0 THEN PRINT 1 ELSE %", "PRINT \"a\";:%:PRINT \"b\"|PRINT \"c\"", "10 %|RUN|RUN|PRINT \"p\"",
  "10 %|20 STOP|30 PRINT \"z\"|RUN|%|CONT|CONT", "10 STOP|20 %|30 PRINT \"z\"|RUN|CONT|CONT|RUN|CONT", "10 GOSUB 100:PRINT \"r\":END|100 STOP|110 %|120 RETURN|RUN|CONT|RETURN|CONT", "10 FOR I9=1 TO 2:STOP:NEXT:END|RUN|%|CONT|%|CONT|%|CONT",
  "PRINT LOG(0)|%|PRINT \"p\"", "PRINT (|%|PRINT \"p\"", "GOSUB 999|%|PRINT LOG(0)|%", "10 %|20 PRINT \"n\"|15 PRINT \"ins\"|RUN|20|RUN|LIST|15|RUN", "10 %|SAVE \"F\"|NEW|LOAD \"F\"|RUN|LIST|SAVE \"F\"|LOAD \"F\"|LIST", "10 %|20 PRINT \"n\"|RENUM|RUN|LIST|RENUM 1000,5|LIST|RUN",
  "10 %|LIST|RUN|CLEAR|RUN", "10 %|RUN|NEW|%|LIST|10 PRINT \"new\"|RUN", "CONT|%|CONT|PRINT \"p\"", "X=5:A$=\"q\":DIM X(3):X(2)=7|%|PRINT X;A$;X(2)", "X=5|CLEAR|%|PRINT X;Y$|CLEAR|%", "10 PRINT \"ten\";X:RETURN|GOSUB 10:%|%:GOSUB 10|PRINT \"p\"", "10 %|GOTO 10|GOSUB 10|PRINT \"p\"",
  "10 DEF FNZ(X)=X+9:DIM V9(4):STOP|20 %|RUN|%|PRINT FNZ(1);V9(0)|CONT", "10 STOP:%:STOP:%|RUN|CONT|CONT|CONT", "10 PRINT \"x\":STOP|RUN|20 %|CONT|RUN|GOTO 20", "COMPILE|%|10 %|COMPILE|RUN", "GOSUB 500:%|GOTO 600|%", "READ Q8:PRINT Q8|%|READ Q8$:PRINT Q8$", "FOR J=1 TO 3|%|NEXT", "10 FOR J=1 TO 2|20 PRINT J|30 STOP|40 NEXT|RUN|%|NEXT|CONT", "NEW|%|10 %|RUN|NEW|RUN", "10 %:STOP|RUN|RUN|CONT|CLEAR|CONT", "PRINT \"abc\";:%|%", "LIST 500|%|LIST 10-700", "10 %|10|RUN|10 %|RUN|LOAD \"nofile\"|RUN", "10 LOG=|20 %|RUN|10|RUN", "*x|%|CLS|%" };

static Case with_in(Case k, bool in) { if (in) for (auto& l : IN) k.in.push_back(l); return k; }
static bool reads(const std::string& s) { return s.find("INPUT") != std::string::npos; }
static Case session_of(const std::string& t, const std::string& body, const std::string& setup) {
  Case k; k.argv = {"-q"}; if (!setup.empty()) for (auto& l : lines_of(setup)) k.in.push_back(l);
  for (auto& l : lines_of(TAIL + 1)) k.in.push_back(l);
  for (auto& l : split(t)) { k.in.push_back(put(l, body) + "\n");
    bool stored = !l.empty() && isdigit((unsigned char)l[0]);
    if (reads(body) && !stored && l != "LIST" && l.compare(0, 5, "PRINT")) for (int i = 0; i < 3; i++) k.in.push_back(IN[i]); }
  return k;
}
static Case program_of(const std::string& t, const std::string& body, const std::string& setup) {
  std::string p; if (!setup.empty()) { long n = 1; for (auto& l : split(setup)) p += num(n++) + " " + l + "|"; }
  return with_in(program(p + put(t, body) + TAIL), reads(body) || reads(t));
}
// the statement lists in every surrounding; setup: lines given first in every case
static void contexts(Ctx& c, CVS bodies, const std::string& setup = "") {
  static const std::vector<VS> OPT = {{"-t"}, {"-f"}, {"-k"}, {"-t", "-f"}, {"-g"}};
  for (auto& b : bodies) {
    if (b.size() > 100) continue;
    for (size_t i = 0; i < PT.size(); i++) {
      Case k = program_of(PT[i], b, setup);
      if (c.take()) c.model(k);
      if (c.take()) { Case l = k; l.files["P"] = small(k.files["P"]); if (b.find("DATA") == std::string::npos) c.model(l); }
      if (c.take()) { Case l = k; auto& o = OPT[i % OPT.size()]; l.argv.insert(l.argv.begin(), o.begin(), o.end()); c.model(l); }
    }
    for (auto& t : ST) if (c.take()) c.model(session_of(t, b, setup));
  }
}
static const VS TWO = { "10 %:@:PRINT \"|e\"", "10 %|20 @|30 PRINT \"e\"", "10 FOR J=1 TO 2|20 %|30 @|40 NEXT:PRINT J", "10 GOSUB 100:PRINT \"r\":END|100 %|110 @|120 RETURN", "10 IF 1 THEN % ELSE PRINT \"e\"|20 IF 0 THEN PRINT \"t\" ELSE @|30 PRINT \"n\"" };
static const VS TWOS = { "%|@|PRINT \"p\";X;Y$", "10 STOP|20 @|RUN|%|CONT|PRINT \"p\";X;Y$", "10 %|20 @|RUN|%|RUN|@", "10 @:STOP:%|RUN|CONT|@|CONT" };
static void pairs(Ctx& c, CVS a, CVS b, const std::string& setup = "") {
  std::string pre; if (!setup.empty()) { long n = 1; for (auto& l : split(setup)) pre += num(n++) + " " + l + "|"; }
  for (auto& x : a) for (auto& y : b) for (int order = 0; order < 2; order++) {
    const std::string &p = order ? y : x, &q = order ? x : y;
    if (p.size() + q.size() > 105) continue;
    for (auto& t : TWO) if (c.take()) { if (t[4] == ':' && t.find("|e\"") != std::string::npos) { Case k = with_in(program(pre + "10 " + p + ":" + q + ":PRINT \"e\"" + TAIL), reads(p) || reads(q)); c.model(k); } else c.model(with_in(program(pre + put2(t, p, q) + TAIL), reads(p) || reads(q))); }
    for (auto& t : TWOS) if (c.take()) {
      Case k; k.argv = {"-q"}; if (!setup.empty()) for (auto& l : lines_of(setup)) k.in.push_back(l); for (auto& l : lines_of(TAIL + 1)) k.in.push_back(l);
      for (auto& l : split(t)) { k.in.push_back(put2(l, p, q) + "\n"); if ((reads(p) || reads(q)) && !isdigit((unsigned char)l[0])) for (int i = 0; i < 3; i++) k.in.push_back(IN[i]); }
      c.model(k); }
  }
}
static void triples(Ctx& c, CVS a, const std::string& setup = "") {
  std::string pre; if (!setup.empty()) { long n = 1; for (auto& l : split(setup)) pre += num(n++) + " " + l + "|"; }
  sequences(a, 3, 3, [&](CVS v) { if (v[0].size() + v[1].size() + v[2].size() > 110) return;
    bool in = reads(v[0]) || reads(v[1]) || reads(v[2]);
    if (c.take()) c.model(with_in(program(pre + "10 " + v[0] + "|20 " + v[1] + "|30 " + v[2] + "|40 N9=N9+1:IF N9<3 THEN 10|50 PRINT X;Y;Y$;I" + TAIL), in));
    if (c.thorough && c.take()) { Case k; k.argv = {"-q"}; if (!setup.empty()) for (auto& l : lines_of(setup)) k.in.push_back(l); for (auto& l : lines_of(TAIL + 1)) k.in.push_back(l); k.in.push_back("10 " + v[0] + ":STOP:" + v[1] + "\n"); k.in.push_back("20 " + v[2] + "\n"); for (auto x : {std::string("RUN"), v[2], std::string("CONT"), v[0], v[1], std::string("CONT"), std::string("PRINT X;Y$;I")}) { k.in.push_back(x + "\n"); if (in) for (int i = 0; i < 3; i++) k.in.push_back(IN[i]); } c.model(k); } });
}
// one statement of every kind and form
static const VS U = {
  "PRINT X;Y$", "PRINT", "PRINT \"ab\",", "PRINT TAB(5);X", "PRINT 1+2*3;", "?SPC(2);\"q\"", "X=X+1", "LET Y=X*2", "Y$=Y$+\"a\"", "Y$=\"\"", "X=1.5", "Q(2)=Q(2)+1:PRINT Q(2)", "Q$(1)=Q$(1)+\"b\":PRINT Q$(1)", "R(1,2)=3:PRINT R(1,2);R(2,1)",
  "DIM Q(5)", "DIM Q$(2),R(2,3)", "DIM Q(20):PRINT Q(20)", "READ X:PRINT X", "READ Y$:PRINT Y$", "READ X,Y$:PRINT X;Y$", "RESTORE", "RESTORE 700", "DATA 11,z", "REM r", "",
  "FOR I=1 TO 3:PRINT I;:NEXT", "FOR I=1 TO 2", "NEXT", "NEXT I", "FOR I=3 TO 1 STEP -1:PRINT I;:NEXT I", "FOR I=1 TO 0:PRINT \"once\":NEXT", "FOR I=1 TO 2:FOR K=1 TO 2:PRINT I;K;:NEXT K,I", "NEXT J",
  "GOSUB 500", "GOSUB 800:PRINT \"b\"", "ON 2 GOSUB 600,500", "ON X GOSUB 500,800", "ON 9 GOTO 600", "GOTO 600", "IF X>2 THEN 600", "RETURN", "IF X=1 THEN PRINT \"one\" ELSE PRINT \"not\"", "IF X THEN PRINT \"t\"", "IF Y$=\"a\" THEN Y$=\"b\":PRINT Y$", "IF X=0 THEN X=1:GOSUB 500",
  "STOP", "END", "CLEAR", "CLS", "RANDOMIZE 4", "DEF FNA(X)=X*2+Y", "PRINT FNA(3);X", "DEF FNA(Z)=Z+X:PRINT FNA(1)", "DEF FNB$(X)=Y$+STR$(X):PRINT FNB$(2)", "INPUT X", "INPUT \"p\";Y$,X", "LINE INPUT Y$", "INPUT Q(X),X",
  "PRINT LOG(0)", "PRINT Q(99)", "PRINT MID$(Y$,9)", "Y$=LEFT$(\"hello\",X)", "PRINT LEN(Y$);ASC(\"A\");CHR$(66)", "PRINT VAL(\"12\")+X;STR$(X)", "PRINT ABS(-X);INT(X/2);SQR(4);SGN(X)", "PRINT X AND 3;NOT X;X OR 8", "PRINT X=1;Y$<\"b\"", "PRINT RND(1)<1", "PRINT -X^2;X/4", "PRINT 1E6;.001;-5", "X=LOG(0)", "GOSUB 999", "PRINT FNU(1)", "I=I+1", "NEXT:PRINT \"n\"", "IF 0 THEN DATA 4 ELSE REM" };
static const VS OPS = {"^", "*", "/", "+", "-", "=", "<>", "<", ">", "<=", ">=", " AND ", " OR "};

// the value of a numeric expression written as a constant: what the expression gives must be that very number
static std::string lit(double v) { return v == v && fabs(v) < 1e308 ? strf(v < 0 ? "(%.17g)" : "%.17g", v) : ""; }
static double apply(const std::string& o, double a, double b) { return o == "^" ? pow(a, b) : o == "*" ? a * b : o == "/" ? a / b : o == "+" ? a + b : a - b; }
M(C01) {
  c.sec("values are exact");
  { std::vector<double> g = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 31, 32, 33, 50, 64, 100, 255, 256, 1000, 65535, 65536, 16777216, 16777217, 2147483647, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 1e10, 1e15, 1e22, 1e100, .5, .25, .1, .2, .3, .7, .9, 1.1, 1.01, 1.3, 1.5, 1.7, 1.9, 2.5, 2.7, 3.3, 9.9, 1.0 / 3, 2.0 / 3, 255.0 / 256, 3.14159265358979, 1e-3, 1e-10, 1e-100, 1.000001, .999999, 123456.789};
    { size_t n = g.size(); for (size_t i = 1; i < n; i++) g.push_back(-g[i]); }
    Batch b(c, {}, 40);
    for (auto o : {"^", "*", "/", "+", "-"}) for (double x : g) for (double y : g) { double v = apply(o, x, y); std::string l = lit(v); if (l.empty()) continue; b.add("?(" + lit(x) + o + lit(y) + "-" + l + ");(" + lit(x) + o + lit(y) + "=" + l + ")"); if (c.thorough) b.add("X=" + lit(x) + ":Y=" + lit(y) + ":Z=X" + o + "Y:?Z=" + l + ";Z-X" + o + "Y"); } }
  c.sec("long chains");
  { Batch b(c, {"A=2:B=3:C=7:D=.5:E=-1.25"}, 20); const VS v = {"A", "B", "C", "D", "E"};
    for (int n = 3; n <= 50; n++) { for (auto& o : OPS) { std::string s = "?"; for (int i = 0; i < n; i++) s += (i ? o : "") + v[i % 5]; if (s.size() < 126) b.add(s); s = "?"; for (int i = 0; i < n; i++) s += (i ? o : "") + num(1 + i * 7 % 5); if (s.size() < 126) b.add(s); }
      for (auto& o : OPS) for (auto& q : OPS) { std::string s = "?"; for (int i = 0; i < n; i++) s += (i ? i % 2 ? o : q : "") + v[i * 3 % 5]; if (s.size() < 126) b.add(s); } 
      for (auto o : {"+", "-", "*", "/", "^"}) for (auto p : {"(", "-(", "ABS(", "NOT ("}) { std::string s = "?"; for (int i = 0; i < n; i++) s += v[i % 5] + o + p; s += "A" + rep(")", n); if (s.size() < 126) b.add(s); s = "?" + rep(p, n) + "A"; for (int i = 0; i < n; i++) s += ")" + std::string(o) + v[i % 5]; if (s.size() < 126) b.add(s); } } }
  c.sec("three operators, a prefix and a value of every kind");
  { const VS t = {"A", "2", "Q(1)", "FNA(2)", "ABS(B)", "(A+1)", "LEN(S$)", "-3", "(S$=\"x\")", "NOT B", "R(A,1)", "VAL(\"4\")"}; Batch b(c, {"A=2:B=-3:S$=\"x\":Q(1)=5:R(2,1)=9", "DEF FNA(X)=X+A"}, 30);
    for (auto& x : t) for (auto& y : t) for (auto& z : t) for (auto o : {"^", "*", "-", "<", " AND "}) for (auto p : {"^", "/", "+", "=", " OR "}) { if (!c.thorough && (o[0] == '*' || p[0] == '+')) continue; b.add("?" + x + o + y + p + z); } }
  contexts(c, {"X=2^3^.5-1", "PRINT -X^2;2^-1", "PRINT (X+1)*(X-1)/2;NOT X=1", "IF X=1 AND NOT Y=1 OR X>3 THEN PRINT \"c\"", "X=(X<>Y)+2:PRINT X", "PRINT \"a\"+Y$<Y$+\"b\"", "X=4294967295 AND 255:PRINT X", "PRINT 1.5 AND 2", "PRINT NOT 4294967296", "Q(X+1)=X*2:PRINT Q(Q(X+1)-X)", "PRINT 7-2-1;8/2/2;2*3+4*5", "PRINT 1/0;0*X"});
}
M(C02) {
  VS own = {"GOTO 600", "IF X THEN 600", "IF X=0 THEN 500", "IF X=0 THEN 600 ELSE 500", "IF Y$=\"\" THEN PRINT \"e\";:X=X+1 ELSE PRINT \"f\";", "ON X+1 GOTO 600,500", "ON X GOTO 500", "ON X+.5 GOTO 600", "IF X<2 THEN X=X+1:GOSUB 500", "IF X THEN IF Y THEN PRINT 1 ELSE PRINT 2", "IF 0 THEN PRINT \"no\"", "END", "X=X+1:IF X<3 THEN 10", "X=X+1:ON X GOTO 10,10,600", "GOTO 999", "IF 1 THEN 999", "ON 1 GOTO 999", "ON -1 GOTO 600", "IF LOG(0) THEN 600", "IF \"a\"<\"b\" THEN PRINT \"lt\"", "IF X=0 THEN END ELSE X=0", "GOTO 600:PRINT \"no\"", "REM: GOTO 600", "DATA GOTO 600:PRINT \"d\""};
  c.sec("branches in every surrounding"); contexts(c, own);
  c.sec("branches beside every statement"); pairs(c, own, U);
  c.sec("three branches"); triples(c, own);
}
M(C03) {
  VS own = {"FOR I=1 TO 3:PRINT I;:NEXT", "FOR I=1 TO 2", "FOR X=1 TO 2", "NEXT", "NEXT I", "NEXT X", "NEXT J", "FOR I=3 TO 1 STEP -1:PRINT I;:NEXT I", "FOR I=1 TO 1:NEXT", "FOR I=2 TO 1:PRINT \"o\";:NEXT", "FOR I=1 TO 2:FOR X=1 TO 2:PRINT I;X;:NEXT X,I", "FOR I=1 TO 2:FOR X=1 TO 2:PRINT I;X;:NEXT:NEXT", "FOR I=0 TO 1 STEP .25:PRINT I;:NEXT", "FOR I=1 TO 3:IF I=2 THEN 500", "FOR I=1 TO 3:GOSUB 500:NEXT", "FOR I=1 TO 2 STEP 0", "FOR J=1 TO 2:PRINT J;:NEXT", "I=I+1", "PRINT I;X;J", "FOR I=LOG(0) TO 2", "FOR I=1 TO 2:GOTO 600", "FOR X=I TO I+1:PRINT X;:NEXT X", "NEXT I,X"};
  c.sec("loops in every surrounding"); contexts(c, own);
  c.sec("loops beside every statement"); pairs(c, own, U);
  c.sec("three loop statements"); triples(c, own);
  c.sec("loop bounds of every size");
  { VS v = {"0", "1", "-1", ".1", "1/3", "16777214", "16777215", "16777216", "16777217", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9007199254740990", "9007199254740992", "1E15", "1E16", "1E300", "-1E300", "1E-300", "123456.789", "100000.1", "255/256", "65535/6"}; VS d = {"-3", "-1", "-.5", "0", ".25", ".3", "1", "2", "2.5", "1/3", "3"}; VS st = {"", " STEP 1", " STEP .1", " STEP .3", " STEP 1/3", " STEP -1", " STEP -.1", " STEP 2", " STEP 1.5", " STEP -1/3", " STEP 1E-3", " STEP 16777217"};
    for (auto& a : v) for (auto& e : d) for (auto& s : st) { model_program(c, "10 A=" + a + ":FOR I=A TO A+" + (e[0] == '-' ? "(" + e + ")" : e) + s + ":PRINT I-A;:N=N+1:IF N>12 THEN PRINT \"many\":END|30 NEXT|40 PRINT \"done\";I-A;N"); }
    for (auto& a : v) for (auto& e : v) for (auto& s : st) { if (!c.thorough && s.size() > 8 && s != " STEP 16777217") continue; model_program(c, "10 FOR I=" + a + " TO " + e + s + "|20 PRINT I;:N=N+1:IF N>6 THEN PRINT \"many\":END|30 NEXT I|40 PRINT \"done\";I;N"); } }
  c.sec("steps that do not add up");
  for (int n = 1; n <= 60; n++) for (auto s : {".1", ".2", ".3", ".7", "1/3", "1/7", ".01", "1E-5", "-.1", "-1/3"}) model_program(c, std::string("10 S=") + s + ":FOR X=0 TO S*" + num(n) + " STEP S:K=K+1:NEXT|20 PRINT K;X;X/S|30 K=0:FOR X=1 TO 1+" + num(n) + "*" + s + " STEP S:K=K+1:NEXT:PRINT K;X");
}
M(C04) {
  VS own = {"GOSUB 500", "GOSUB 800", "ON 1 GOSUB 500", "ON 2 GOSUB 600,800", "ON 3 GOSUB 500,800", "ON 0 GOSUB 500", "IF X=0 THEN GOSUB 500:X=1", "IF X THEN PRINT \"t\"; ELSE GOSUB 800", "GOSUB 500:GOSUB 800:PRINT \"b\";", "FOR I=1 TO 2:GOSUB 800:NEXT", "RETURN", "IF X THEN RETURN", "GOSUB 999", "GOSUB 600", "FOR J=1 TO 3:GOSUB 500", "X=X+1:IF X<4 THEN GOSUB 10:PRINT \"u\";X;", "GOSUB 500:RETURN", "ON X+1 GOSUB 500,800:PRINT \"o\";", "GOSUB 500:GOTO 600", "GOSUB 500:NEXT", "GOSUB 500:READ X:PRINT X;", "GOSUB 500:STOP:GOSUB 800", "ON 1.5 GOSUB 500"};
  c.sec("calls in every surrounding"); contexts(c, own);
  c.sec("calls beside every statement"); pairs(c, own, U);
  c.sec("three calls"); triples(c, own);
  c.sec("loops entered and left by subroutines");
  { VS sub = {"RETURN", "NEXT:RETURN", "NEXT J:RETURN", "NEXT I:RETURN", "FOR K=1 TO 2:RETURN", "FOR K=1 TO 2:NEXT:RETURN", "FOR I=5 TO 6:RETURN", "FOR J=5 TO 6:NEXT:RETURN", "IF I=2 THEN RETURN ELSE NEXT:RETURN", "GOSUB 200:RETURN", "FOR K=1 TO 2:GOSUB 200:NEXT:RETURN", "NEXT J,I:RETURN", "GOTO 60"};
    VS main = {"GOSUB 100", "GOSUB 100:GOSUB 100", "FOR J=1 TO 2:GOSUB 100:NEXT", "FOR J=1 TO 2:GOSUB 100:NEXT J", "GOSUB 100:NEXT", "ON 1 GOSUB 100:NEXT I", "IF I=1 THEN GOSUB 100", "GOSUB 100:FOR K=1 TO 2:NEXT", "GOSUB 100:RETURN", "FOR J=1 TO 2:GOSUB 100"};
    for (auto& s : sub) for (auto& s2 : {std::string("RETURN"), std::string("NEXT:RETURN"), std::string("FOR L=1 TO 2:RETURN")}) for (auto& m : main) for (auto& m2 : main) { std::string p = "10 FOR I=1 TO 3:C=C+1:IF C>9 THEN PRINT \"C\":END|20 " + m + "|30 PRINT \"a\";I;J;K;|40 " + m2 + "|50 PRINT \"b\";I;J;K;|60 PRINT \"n\";:NEXT|70 PRINT \"d\";I;J;K:END|100 PRINT \"s\";:" + s + "|200 PRINT \"t\";:" + s2; model_program(c, p); } }
}
M(C05) {
  VS own = {"READ X:PRINT X;", "READ Y$:PRINT Y$;", "READ X,Y$:PRINT X;Y$;", "RESTORE", "RESTORE 700", "RESTORE 10", "RESTORE 999", "RESTORE 500", "DATA 21,two", "DATA \"a,b\", c ,4", "DATA", "DATA ,", "READ Q(X),X:PRINT Q(1);X;", "READ X:DATA 31:PRINT X;", "DATA 41:READ X:PRINT X;", "READ Y$,Y$,Y$,Y$,Y$,Y$,Y$,Y$:PRINT Y$", "IF X=0 THEN DATA 51 ELSE DATA 52", "FOR I=1 TO 3:READ Y$:PRINT Y$;:NEXT", "GOSUB 500:READ Y$:PRINT Y$;", "ON 1 GOSUB 500:DATA 61,62", "READ Q$(1):PRINT Q$(1);", "READ X$:RESTORE:READ Y$:PRINT X$;Y$;", "REM DATA 71", "READ X:X=X+.5:PRINT X;"};
  c.sec("reads in every surrounding"); contexts(c, own);
  c.sec("reads beside every statement"); pairs(c, own, U);
  c.sec("three reads"); triples(c, own);
  c.sec("DATA after every statement of its line");
  for (auto& s : U) for (auto& s2 : U) for (auto l : {"DATA 21,22", "DATA a b:PRINT \"d\";:DATA 23"}) { if (s.size() + s2.size() > 70) continue; if (c.take()) c.model(with_in(program("10 READ A$:PRINT A$;:GOSUB 30:READ B$:PRINT B$;:END|30 " + s + ":" + l + "|40 RETURN|45 " + s2 + ":" + l + ":DATA 24" + TAIL), reads(s) || reads(s2)));
    if (c.take()) c.model(with_in(program("10 IF K=0 THEN K=1:GOTO 50|20 READ A$,B$,C$:PRINT A$;B$;C$:END|30 " + s + ":" + l + ":" + s2 + "|50 RESTORE 30:READ D$:PRINT D$:GOTO 20" + TAIL), reads(s) || reads(s2)));
    if (c.take()) { Case k = session_of("%|PRINT X;Y$|READ Z$:PRINT Z$", s + ":" + l + ":" + s2, ""); if (s.size() + s2.size() < 80) c.model(k); } }
  c.sec("items of every shape read in every way");
  { VS it = {"1", "", " ", "\"\"", "\" \"", "x", "\"1\"", "1 2", "-5", "\"a,b\"", "a\"b", "\"a\"b", "1E2", "+3", ".5", "TO", "REM q", "a:b", "\t7", "'x", "$", "(1,2)", "ELSE"};
    for (auto& a : it) for (auto& b2 : it) for (auto r : {"READ A,B", "READ A$,B$", "READ A,B$", "READ A$,B", "READ A$:READ B$", "READ Q(1),Q$(1)"}) for (auto w : {"10 A=9:A$=\"k\"|20 %|30 PRINT A;B;\"[\";A$;\"][\";B$;\"]\";Q(1);Q$(1):READ Z$:PRINT Z$", "10 GOSUB 50:PRINT A;B;\"[\";A$;\"][\";B$;\"]\":END|50 %|60 PRINT Q(1);Q$(1):RETURN"}) model_program(c, put(w, r) + "|70 DATA " + a + "," + b2 + "|80 DATA 77");
    for (auto& a : it) for (auto& b2 : it) model_session(c, "READ A$,B$:PRINT \"[\";A$;\"][\";B$;\"]\":DATA " + a + "," + b2 + "|READ A,B:DATA " + a + "," + b2 + "|PRINT A;B|10 DATA " + a + ", " + b2 + "|READ A$:PRINT A$|READ A:PRINT A|READ A|RESTORE|READ A,B$|PRINT A;B$;A$"); }
}
M(C06) {
  VS own = {"DIM Q(3)", "DIM Q(X)", "DIM Q(2,3)", "DIM Q$(3)", "DIM Q(3),Q$(2),R(1)", "Q(1)=Q(1)+1:PRINT Q(1);", "Q(3)=5", "Q(10)=1", "Q(11)=1", "Q(20)=2:PRINT Q(20);Q(0);", "Q(1,2)=3:PRINT Q(1,2);Q(2,1);", "Q$(1)=Q$(1)+\"s\":PRINT Q$(1);", "PRINT Q(0);Q(1);Q(2);Q(3);", "PRINT Q$(3);R(1);", "Q(-1)=4", "Q(1.5)=4", "PRINT Q(4)", "R(X)=X:PRINT R(X);", "Q=9:PRINT Q;Q(1);", "DIM Q(0)", "Q(Q(1))=Q(1)+1:PRINT Q(0);Q(1);Q(2);", "READ Q(1),Q(2):PRINT Q(1)+Q(2);", "INPUT Q(1):PRINT Q(1);", "FOR I=0 TO 3:Q(I)=I*I:NEXT:PRINT Q(3);", "X=X+1:Q(X)=X", "DIM Q(-1)", "CLEAR", "DIM Q(3):Q(2)=7"};
  c.sec("arrays in every surrounding"); contexts(c, own);
  c.sec("arrays beside every statement"); pairs(c, own, U);
  c.sec("three array statements"); triples(c, own);
  c.sec("all cells of arrays of every shape");
  for (int a = 0; a <= 12; a++) for (int b = -1; b <= 6; b++) for (int d = -1; d <= (b < 0 ? -1 : 3); d++) for (int str = 0; str < 2; str++) { if (!c.take()) continue;
    std::string n = str ? "Q$" : "Q", dim = num(a) + (b >= 0 ? "," + num(b) : "") + (d >= 0 ? "," + num(d) : ""), ix = std::string("I") + (b >= 0 ? ",J" : "") + (d >= 0 ? ",K" : ""), v = str ? "STR$(I*100+J*10+K)" : "I*100+J*10+K";
    std::string loops = strf("FOR I=0 TO %d:FOR J=0 TO %d:FOR K=0 TO %d:", a, b < 0 ? 0 : b, d < 0 ? 0 : d);
    c.model(program("10 DIM " + n + "(" + dim + "),W(3),W$(3):W(0)=1:W(3)=2:W$(0)=\"w\":W$(3)=\"v\"|20 " + loops + n + "(" + ix + ")=" + v + ":NEXT K,J,I|30 " + loops + "IF " + n + "(" + ix + ")<>" + v + " THEN PRINT \"bad\";I;J;K|40 NEXT K,J,I|50 PRINT W(0);W(3);W$(0);W$(3);W(1);W$(1)|60 " + loops + "IF (I+J+K)/2=INT((I+J+K)/2) THEN " + n + "(" + ix + ")=" + (str ? "\"even\"" : "-1") + "|65 NEXT K,J,I|70 " + loops + "PRINT " + n + "(" + ix + ");:NEXT K,J,I|80 DIM " + n + "(" + dim + "):PRINT " + n + "(" + dim + ")")); }
}
M(C07) {
  VS own = {"Y$=Y$+\"ab\":PRINT Y$;", "Y$=LEFT$(Y$+\"xyz\",2):PRINT Y$;", "Y$=MID$(\"hello\"+Y$,2,3):PRINT Y$;", "Y$=RIGHT$(Y$+\"q\",1)", "PRINT LEN(Y$);ASC(Y$+\"z\");", "PRINT CHR$(65+X);STR$(X);", "Y$=Y$+Y$+\"c\"", "Y$=\"\"", "Z$=Y$:Y$=Y$+\"1\":PRINT Z$;Y$;", "Q$(1)=Y$:Y$=\"n\":PRINT Q$(1);", "PRINT Y$=Z$;Y$<Z$;Y$>Z$;", "IF Y$=\"ab\" THEN PRINT \"eq\";", "Y$=MID$(Y$,5)", "Y$=CHR$(256)", "Y$=LEFT$(Y$,-1)", "PRINT VAL(Y$+\"7\")", "Y$=STR$(VAL(\"1\"+\"2\"))+\"|\"", "PRINT ASC(\"\")", "FOR I=1 TO 3:Y$=Y$+CHR$(64+I):NEXT:PRINT Y$;", "Y$=Y$", "PRINT LEFT$(Y$,1)+RIGHT$(Y$,1);MID$(Y$,1);"};
  c.sec("strings in every surrounding"); VS nobar; for (auto& s : own) if (s.find('|') == std::string::npos) nobar.push_back(s); contexts(c, nobar);
  c.sec("strings beside every statement"); pairs(c, nobar, U);
  c.sec("three string statements"); triples(c, nobar);
  c.sec("strings that differ in one place");
  { Batch b(c, {"10 FOR I=1 TO 255:S$=S$+CHR$(33+I-INT(I/90)*90):NEXT", "RUN"}, 24);
    std::vector<int> L = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 130, 160, 191, 192, 193, 200, 250, 253, 254, 255};
    for (int n : L) { b.add("A$=LEFT$(S$," + num(n) + "):B$=A$:?A$=B$;A$<B$;A$<=B$;LEN(B$)");
      for (int p : L) if (p <= n) for (auto ch : {"CHR$(200)", "CHR$(1)", "\"!\""}) b.add("B$=LEFT$(A$," + num(p - 1) + ")+" + ch + "+MID$(A$+\"x\"," + num(p + 1) + "," + num(n - p) + "):?A$=B$;A$<>B$;A$<B$;A$>B$;A$<=B$;A$>=B$;LEN(B$)");
      for (int m : L) if (m < n) b.add("B$=LEFT$(A$," + num(m) + "):?A$=B$;A$<B$;A$>B$;B$<A$;B$<=A$;MID$(A$,1," + num(m) + ")=B$;RIGHT$(A$," + num(m) + ")=MID$(A$," + num(n - m + 1) + ");B$+MID$(A$," + num(m + 1) + ")=A$"); } }
  c.sec("every pair of lengths");
  { Batch b(c, {"10 FOR I=1 TO 255:S$=S$+CHR$(33+I-INT(I/90)*90):NEXT", "RUN"}, 24);
    for (int n = 0; n <= 258; n += c.thorough ? 1 : 3) for (int m = 0; m <= 258; m += c.thorough ? 3 : (n + m > 250 && n + m < 260) ? 1 : 11) b.add("T$=\"k\":T$=LEFT$(S$," + num(n) + ")+RIGHT$(S$," + num(m) + "):?LEN(T$);LEFT$(T$,3);RIGHT$(T$,3);MID$(S$," + num(n + 1 > 255 ? 255 : n + 1) + "," + num(m) + ")=MID$(S$," + num(n + 1 > 255 ? 255 : n + 1) + ")"); }
  c.sec("numbers as text");
  { Batch b(c, {}, 24); for (auto x : {"0", "-0", "1", "-1", "1.5", "-.25", "1E6", "999999", "123456", "1234567", "1E-5", "1/3", "-2/3", "1E300", "1/0", "100000", "1E5", ".1", "4294967296"}) { std::string s(x); b.add("A$=STR$(" + s + "):?\"[\";A$;\"]\";LEN(A$);LEFT$(A$,1);MID$(A$,2,3);RIGHT$(A$,2);VAL(A$)=" + s); b.add("?STR$(" + s + ")+STR$(" + s + ");STR$(" + s + ")=STR$(" + s + ");ASC(STR$(" + s + "));STR$(" + s + ")<\"5\""); } }
}
M(C08) {
  VS own = {"DEF FNA(X)=X*2+Y", "DEF FNA(Y)=Y+X", "DEF FNA(Z)=Z+1:PRINT FNA(X);Z;", "DEF FNB$(X)=Y$+STR$(X)", "PRINT FNA(3);X;", "PRINT FNB$(X);X;", "X=FNA(X):PRINT X;", "PRINT FNA(FNA(1))", "PRINT FNA(LOG(0))", "PRINT FNU(1)", "PRINT FNA(X)+FNA(Y);X;Y;", "IF FNA(X)>3 THEN PRINT \"g\";X;", "FOR I=FNA(1) TO FNA(2):PRINT I;:NEXT", "Q(FNA(1))=FNA(2):PRINT Q(2);X;", "ON FNA(0)+1 GOSUB 500,800", "Y=Y+1", "X=7", "DEF FNA(X$)=LEN(X$)", "PRINT FNA(\"abc\");X$;", "DEF FNC(X)=LOG(X):PRINT FNC(0)", "PRINT X;Y;Y$;", "DEF FNA(Q)=Q+Q(1):PRINT FNA(2);Q;", "PRINT FNA(1,2)", "DEF FND(X)=FNA(X)+1:PRINT FND(1)"};
  c.sec("functions in every surrounding"); contexts(c, own); contexts(c, {"PRINT FNA(3);X;", "PRINT FNB$(X);X;Y$;", "X=FNA(X)+FNA(2):PRINT X;", "PRINT FNE(0);X", "CLEAR:PRINT FNA(1)"}, "DEF FNA(X)=X*2+Y:DEF FNB$(X)=Y$+STR$(X)|DEF FNE(X)=LOG(X):X=3:Y=4");
  c.sec("functions beside every statement"); pairs(c, own, U);
  c.sec("three function statements"); triples(c, own);
  c.sec("calls among pending operands");
  { VS d = {"FNA(X)=X+Y", "FNA(X)=X*X+Y", "FNA(X)=LEN(S$)+X", "FNA(X)=1+(2+(3+X))", "FNA(Y)=Y", "FNA(X)=Y", "FNA(X)=LOG(X)", "FNA(X)=X(1)+X"};
    for (auto& f : d) for (int n = 0; n <= 15; n++) for (auto o : {"+", "*", "-", "^", "<", " AND "}) for (auto a : {"1", "X", "-2", "X+1", "LEN(S$)", "0"}) for (auto t : {"", "+FNA(1)", "-X"}) {
      std::string s; for (int i = 0; i < n; i++) s += num(i + 1) + o + "("; s += std::string("FNA(") + a + ")" + t + rep(")", n); if (s.size() > 110) continue;
      model_session(c, "X=5:Y=7:S$=\"abcd\":X(1)=2|DEF " + f + "|PRINT " + s + "|PRINT X;Y;FNA(1);X"); } 
    for (int n = 0; n <= 15; n++) for (auto st : {"PRINT %", "Z=%:PRINT Z", "Q(1)=%:PRINT Q(1)", "IF % THEN PRINT \"t\" ELSE PRINT \"f\"", "FOR I=% TO %:PRINT I;:NEXT", "PRINT TAB(ABS(%));1", "PRINT CHR$(65+ABS(%)/9)", "ON ABS(%) GOSUB 500", "PRINT FNB(%)"}) { std::string s; for (int i = 0; i < n; i++) s += "1+("; s += "FNA(2)" + rep(")", n); std::string l = put(st, s); if (l.size() < 110) model_session(c, "500 PRINT 500:RETURN|DEF FNA(X)=X+Y:DEF FNB(Y)=Y*2|X=5:Y=7|" + l + "|PRINT X;Y|" + l); } }
  c.sec("bodies of every length");
  for (int n = 0; n <= 118; n++) { model_program(c, "10 X=3:S$=\"" + rep("s", n) + "\"|20 DEF FNA$(X)=\"" + rep("x", n) + "\"|30 DEF FNB$(X)=LEFT$(\"" + rep("y", n > 90 ? 90 : n) + "\",X)|40 PRINT FNA$(1);LEN(FNA$(2));X;FNB$(2);X|50 DEF FNA$(X)=S$+FNB$(X):DEF FNC$(X)=S$+STR$(X):PRINT FNC$(4);X");
    std::string e; for (int i = 0; (int)e.size() < n; i++) e += (i ? "+" : "") + std::string(i % 3 == 0 ? "X" : i % 3 == 1 ? "1" : "Y"); if (e.empty()) e = "X"; model_program(c, "10 X=3:Y=.5|20 DEF FNA(X)=" + e + "|30 PRINT FNA(1);FNA(X);X;FNA(2)+FNA(3);X;Y|40 DEF FNA(Y)=" + e + "|50 PRINT FNA(1);Y;X"); }
  c.sec("functions that are redefined, copied and lost");
  { VS ev = {"DEF FNA(X)=X+1", "DEF FNA(Y)=Y+X", "DEF FNA(X)=\"s\"", "DEF FNB(X)=X*10", "DEF FNB(Z)=FNA(Z)", "GOSUB 20", "GOSUB 30", "RUN", "CLEAR", "NEW", "20 DEF FNA(X)=X-1:RETURN", "20", "30 REM", "PRINT FNA(1)", "X=8", "PRINT FNB(2)", "PRINT FNA(FNB(1))", "PRINT FNA(LOG(0))", "PRINT X;Y;Z", "LIST"};
    c.histories({"-q"}, {"20 DEF FNA(X)=X+100:RETURN", "30 DEF FNB(X)=X+200:DEF FNA(X)=X+300:RETURN"}, ev, {"PRINT FNA(5);X", "PRINT FNB(6);X;Y;Z", "PRINT FNA(7)+FNA(8)"}, c.thorough ? 4 : 3); }
}
M(C09) {
  VS own = {"INPUT X:PRINT X;", "INPUT X,Y:PRINT X;Y;", "INPUT Y$:PRINT Y$;", "INPUT \"p\";Y$,X:PRINT Y$;X;", "LINE INPUT Y$:PRINT Y$;", "LINE INPUT \"q\";Q$(1):PRINT Q$(1);", "INPUT Q(X),X:PRINT Q(0);Q(5);X;", "INPUT X,Q(X):PRINT X;Q(5);Q(6);", "INPUT X,X:PRINT X;", "INPUT Q(99)", "INPUT Q$(2),Y$:PRINT Q$(2);Y$;", "FOR I=1 TO 2:INPUT X:PRINT X+I;:NEXT", "GOSUB 500:INPUT X:PRINT X;", "IF X=0 THEN INPUT X:PRINT X; ELSE INPUT Y:PRINT Y;", "INPUT \"\";X", "PRINT \"col\";:INPUT X:PRINT ,X"};
  c.sec("input in every surrounding"); contexts(c, own);
  c.sec("input beside every statement"); pairs(c, own, U);
  c.sec("values that replace other values");
  { VS vals = {"0", "-0", "1", "-1", "2", "-5", ".5", "3", "10", "1e2", "0.0", "00", "-.5", "11", "99"}; VS st = {"INPUT I,Q(I)", "INPUT Q(I),I", "INPUT Q(2),Q(1)", "INPUT Q(1),Q(1)", "INPUT I,J", "INPUT Q(Q(1)),Q(Q(2))", "INPUT J,I,Q(I)", "INPUT Q(I),Q(J)", "INPUT Q$(I),I", "INPUT I,Q$(I)", "INPUT R(I,J),J", "INPUT J,R(I,J)", "INPUT I,R(I,I)"};
    for (auto& s : st) for (auto& a : vals) for (auto& b : vals) if (c.take()) { Case k = program("10 DIM Q(5):I=4:J=3:FOR K=0 TO 5:Q(K)=K+1:Q$(K)=\"q\"+STR$(K):NEXT:Q(1)=2:Q(2)=3:R(4,3)=43:R(4,4)=44|20 " + s + "|30 PRINT I;J;\":\";:FOR K=0 TO 5:PRINT Q(K);Q$(K);R(4,K);R(K,3);R(K,K);:NEXT|40 PRINT:INPUT Z$:PRINT Z$"); k.in = {a + "," + b + "\n", "2,1\n", "1,1,1\n", "end\n"}; c.model(k); } }
  c.sec("lines of many items");
  for (int n = 1; n <= 14; n++) for (int m = 0; m <= n + 2; m++) for (int kind = 0; kind < 3; kind++) for (int bad = -1; bad < m; bad++) { if (kind == 1 && bad >= 0) continue; if (!c.take()) continue; std::string v, l, pr; for (int i = 0; i < n; i++) { bool str = kind == 1 || (kind == 2 && i % 2); std::string x = std::string(1, 'A' + i) + (str ? "$" : ""); v += (i ? "," : "") + x; pr += x + ";"; } for (int i = 0; i < m; i++) l += (i ? "," : "") + (i == bad ? std::string("w") : num(i * 3 - 2));
    Case k = program("10 A=50:B=60:C=70|20 INPUT " + v + "|30 PRINT " + pr + "|40 LINE INPUT Z$:PRINT \"<\";Z$"); k.in = {l + "\n", "1,2,3,4,5,6,7,8,9,10,11,12,13,14\n", "extra,1\n", "last\n"}; c.model(k); }
  c.sec("typing ahead in a session");
  { VS ev = {"INPUT X", "INPUT X$,Y", "LINE INPUT X$", "1", "2,3", "a,4", "a", ",", "PRINT X;X$;Y", "RUN", "10 INPUT X,Y", "20", "NEW", "1,2,3", "LIST"};
    c.histories({"-q"}, {"10 INPUT X:PRINT X", "20 INPUT X$:PRINT X$"}, ev, {"5", "6,7", "PRINT X;X$;Y"}, c.thorough ? 5 : 4); }
}
M(C10) {
  VS own = {"PRINT X;Y$", "PRINT X,Y$,", "PRINT TAB(9);\"t\";", "PRINT TAB(0);\"z\"", "PRINT \"abc\";TAB(0);\"z\";", "PRINT SPC(0);\"s\",", "PRINT SPC(3);", "PRINT", "PRINT ,\"c\"", "PRINT \"abcdefgh\";", "PRINT CHR$(10);\"l\";", "PRINT -1;1;", "PRINT TAB(X+3);X", "PRINT TAB(LOG(0));1", "PRINT \"a\";LOG(0)", "PRINT TAB(300);\"w\"", "PRINT \"a\"TAB(4)\"b\"SPC(1)\"c\"", "CLS", "PRINT Y$;TAB(3);", "PRINT CHR$(13);,\"r\";", "PRINT CHR$(7);CHR$(9);,\"b\""};
  c.sec("printing in every surrounding"); contexts(c, own);
  c.sec("printing beside every statement"); pairs(c, own, U);
  c.sec("three prints"); triples(c, own);
  c.sec("long lines");
  { std::vector<int> w = {0, 1, 7, 8, 9, 15, 16, 100, 127, 128, 200, 247, 248, 249, 253, 254, 255, 256, 257, 258, 263, 264, 265, 300, 400, 503, 504, 505, 510, 511, 512, 513, 514, 600, 700, 767, 768, 769, 1000, 1023, 1024, 1025, 1030, 2047, 2048, 2049, 4095, 4096, 4097, 32766, 32767, 32768, 65534, 65535, 65536, 65537};
    VS then = {"?,\"x\"", "?TAB(0);\"x\"", "?TAB(1);\"x\"", "?TAB(3);\"x\"", "?TAB(N);\"x\"", "?TAB(N+1);\"x\"", "?TAB(N-1);\"x\"", "?TAB(255);\"x\"", "?TAB(256);\"x\"", "?TAB(300);\"x\",\"y\"", "?SPC(5);,\"x\"", "?,;,\"x\"", "?\"q\";TAB(N+9);\"x\"", "?TAB(600);TAB(550);\"x\"", "?1,2,3", "?SPC(0);TAB(N+2);\"z\",\"y\"", "?\"\";TAB(N);\"\",1"};
    for (int n : w) for (auto& t : then) { if (n > 5000 && !c.take()) continue; for (auto how : {"FOR I=1 TO N:?\"c\";:NEXT", "?SPC(N);", "?TAB(N);", "?TAB(N/2);SPC(N-INT(N/2));"}) { if (n > 5000 && (how[0] == 'F' || t.find("N") == std::string::npos)) continue; if (n > 5000 || c.take()) { c.run(Check{"model", {program(strf("10 N=%d:IF N>0 THEN ", n) + how + "|20 " + t + "|30 ?\"end\",9")}, "long"}); } } } }
  c.sec("every column before every move");
  for (int n = 0; n <= 40; n++) { Batch b(c, {}, 30); for (int k = 0; k <= 42; k++) { b.add("?\"" + rep("c", n) + "\";TAB(" + num(k) + ");\"x\",\"y\""); if (k <= 20) { b.add("?\"" + rep("c", n) + "\";SPC(" + num(k) + "),TAB(" + num(n) + ");\"x\""); b.add("?SPC(" + num(n) + ");CHR$(10);SPC(" + num(k) + ");,\"x\";TAB(" + num(k) + ");\"y\""); } } }
  c.sec("strings of several lines");
  { VS s = {"\"\"", "\"a\"", "\"abcdefgh\"", "N$", "N$+N$", "\"a\"+N$", "N$+\"a\"", "\"ab\"+N$+\"c\"", "\"abcdefgh\"+N$+\"abcdefghi\"", "N$+CHR$(13)", "CHR$(13)+\"ab\"", "CHR$(9)+\"a\"", "L$", "L$+N$+\"a\"", "\"a\"+N$+L$"}; Batch b(c, {"N$=CHR$(10):FOR I=1 TO 80:L$=L$+\"l\":NEXT"}, 30);
    for (auto& x : s) for (auto& y : s) for (auto t : {",\"x\"", ";TAB(5);\"x\"", ";:?,\"x\"", ";SPC(2);,1", ";TAB(0);\"x\"", ";:?TAB(81);\"x\";:?,2"}) b.add("?" + x + ";" + y + t); }
}
M(C11) {
  c.sec("edits around everything");
  { VS ev = {"10 PRINT \"a\"", "20 PRINT \"b\"", "15 PRINT \"m\"", "10", "20", "15", "RUN", "LIST", "CONT", "GOTO 20", "GOSUB 10", "LIST 15", "NEW", "RENUM", "SAVE \"F\"", "LOAD \"F\"", "CLEAR", "PRINT LOG(0)", "30 STOP", "30", "5 REM", "LIST 10-15", "PRINT X"};
    c.histories({"-q"}, {}, ev, {"LIST", "RUN", "LIST"}, c.thorough ? 4 : 3); }
  c.sec("a line that is entered many times");
  for (int n : {1, 2, 3, 10, 63, 64, 65, 100, 130, 260, 520}) for (int form = 0; form < 5; form++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; k.in = {"10 REM first\n", "20 REM second\n", "30 REM third\n"}; for (int i = 0; i < n; i++) { k.in.push_back(form == 0 ? "20 REM " + rep("x", i % 100) + "\n" : form == 1 ? "20\n" : form == 2 ? (i % 2 ? "20\n" : "20 PRINT " + num(i) + "\n") : form == 3 ? num(15 + i % 3 * 10) + (i % 2 ? "\n" : " REM\n") : num(31 + i) + " REM " + num(i) + "\n"); if (form == 3 && i % 7 == 0) k.in.push_back("LIST\n"); } k.in.push_back("LIST\n"); k.in.push_back("RUN\n"); k.in.push_back("20 PRINT \"end\"\n"); k.in.push_back("LIST\n"); c.run(Check{"model", {k}, "long"}); }
  c.sec("LIST of every pair of bounds in programs of every size");
  for (int n : {0, 1, 2, 3, 10, 64, 65, 130}) { Batch b(c, {}, 30); for (int i = 0; i < n; i++) b.prefix.push_back(num(10 + i * 10) + " REM " + num(i)); std::vector<int> p = {1, 9, 10, 11, 19, 20, 21, n * 10 - 1, n * 10, n * 10 + 1, n * 10 + 9, n * 10 + 10, 65535}; for (int x : p) { b.add("LIST " + num(x)); b.add("LIST " + num(x) + "-"); b.add("LIST -" + num(x)); if (n < 12) for (int y : p) b.add("LIST " + num(x) + "-" + num(y)); else b.add("LIST " + num(x) + "-" + num(x + 25)); } }
}
M(C12) {
  c.sec("texts through SAVE and LOAD");
  { VS pre = {"", " ", "  ", "\t", " \t ", "   \t\t", ":"}, mid = {"PRINT 1", "REM  two  blanks", "DATA a , b", "A$=\" x \"", "print \"mIxEd\"", "?1:?2", "REM \t tab", "REM", "PRINT \"unterminated", "foo bar", "10", "\x80\xff", "DATA \"q\"\"r\""}, post = {"", " ", "   ", "\t", ":", " \t"};
    for (auto& a : pre) for (auto& b : mid) for (auto& d : post) { std::string l = a + b + d; if (c.take()) c.model(session("10 " + l + "|20" + l + "|5 PRINT \"five\"|SAVE \"F\"|LIST|NEW|LOAD \"F\"|LIST|SAVE \"G\"|RUN|LOAD \"G\"|LIST|10|LIST"));
      for (auto eol : {"\n", "\r\n", ""}) if (c.take()) { Case k = session("10 PRINT \"old\"|LOAD \"F\"|LIST|RUN|SAVE \"G\"|NEW|LOAD \"G\"|LIST"); k.files["F"] = "10 PRINT \"ten\"\n20 " + l + "\n30 " + b + eol; c.model(k); if (c.take()) { Case q = program("1"); q.files["P"] = k.files["F"]; c.model(q); } } } }
  c.sec("histories of files");
  { VS ev = {"SAVE \"F\"", "SAVE \"G\"", "LOAD \"F\"", "LOAD \"G\"", "NEW", "10 PRINT \"new ten\"", "20", "30 REM thirty", "RENUM 100", "RUN", "LIST", "LOAD \"bad\"", "LOAD \"none\"", "LOAD \"empty\"", "SAVE \"empty\"", "CONT", "PRINT X", "X=5", "CLEAR", "GOTO 20"};
    std::map<std::string, std::string> f = {{"F", "10 PRINT \"file\"\n20 STOP\n30 PRINT \"rest\";X\n"}, {"bad", "10 PRINT 1\n5 PRINT 2\n"}, {"empty", ""}};
    c.histories({"-q"}, {}, ev, {"LIST", "SAVE \"H\"", "RUN", "NEW", "LOAD \"H\"", "LIST", "LOAD \"F\"", "LIST", "LOAD \"G\"", "LIST"}, c.thorough ? 4 : 3, f); }
  c.sec("files of many lines");
  for (int n : {1, 2, 10, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 500, 511, 512, 513, 1000}) for (int len : {0, 1, 20, 60, 100}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string t; for (int i = 0; i < n; i++) t += num(i + 1) + " REM " + rep("abcdefghij", len / 10) + num(i) + "\n"; k.files["F"] = t; for (auto l : {"LOAD \"F\"", "LIST", "SAVE \"G\"", "NEW", "LIST", "LOAD \"G\"", "SAVE \"H\"", "LIST", "RUN", "LOAD \"G\"", "LOAD \"H\"", "LIST 1-2"}) k.in.push_back(std::string(l) + "\n"); c.run(Check{"model", {k}, "long"}); }
}
M(C13) {
  VS form = {"%", "0%", "000%", "%."}; 
  c.sec("references of every form");
  { VS st = {"GOTO %", "GOSUB %", "IF X THEN %", "IF X THEN PRINT 1 ELSE %", "IF X THEN % ELSE @", "ON X GOTO %,@", "ON X GOSUB @,%,%", "RESTORE %", "PRINT %", "REM GOTO %", "DATA %", "X=%", "PRINT \"GOTO %\"", "GOTO%", "goto %", "IF X THEN GOTO % ELSE GOSUB @", "FOR I=% TO @", "ON X GOTO % , @ :GOTO %", "GOTO  %  ", "THEN %", "GOTO %:REM %", "IF X=% THEN %", "GOTO % REM", "ON % GOTO %", "LIST %", "GOTO %,@", "GOSUB % @", "PRINT X:GOTO %:PRINT %", "IF % THEN % ELSE %", "RESTORE %:READ X:DATA %", "GO TO %", "Q(%)=%"};
    VS n = {"20", "020", "00020", "20.", "20.0", "2E1", "+20", "-20", "30", "25", "0", "9", "10", "65535", "65536", "4294967296", "4294967316", "20A", "20:", "\"20\"", "20%", "99999999999999999999"};
    VS cmd = {"RENUM", "RENUM 100", "RENUM 100,20", "RENUM 1,1,1", "RENUM 50,20,5", "RENUM 1000,30", "RENUM 7", "RENUM 65000", "RENUM 020,0020", "RENUM 20,10,1"};
    for (auto& s : st) for (auto& a : n) { std::string l = put2(s, a, "30"); for (auto& m : cmd) { if (c.take()) c.model(session("10 " + l + "|20 PRINT \"twenty\":X=X+1:IF X>3 THEN END|30 DATA 5|40 " + put2(s, "30", a) + "|LIST|" + m + "|LIST|RUN|" + m + "|LIST")); } } }
  c.sec("every set of arguments");
  { std::vector<std::string> v = {"", "0", "1", "5", "10", "20", "25", "30", "40", "45", "65535", "4294967295"}; VS progs = {"", "10 GOTO 10", "10 PRINT 1|20 GOTO 30|30 GOSUB 20|40 ON X GOTO 10,20,30,40", "1 GOTO 2|2 GOTO 1", "10 GOTO 20|20 GOTO 10|65535 GOTO 10"};
    for (auto& p : progs) { Batch b(c, {}, 1); for (auto& x : v) for (auto& y : v) for (auto& z : v) { if (x.empty() && (!y.empty() || !z.empty())) { } std::string a = x + (y.empty() && z.empty() ? "" : "," + y) + (z.empty() ? "" : "," + z); if (c.take()) c.model(session((p.empty() ? "" : p + "|") + "RENUM " + a + "|LIST|RENUM|LIST")); } } }
  c.sec("programs of every size");
  for (int n : {1, 2, 3, 5, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512}) for (int gap : {1, 3, 10, 100}) for (auto m : {"RENUM", "RENUM 1000", "RENUM 1,1,1", "RENUM 60000,1,1", "RENUM 5,1,7"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string t; for (int i = 0; i < n; i++) t += num(1 + (long)i * gap) + " IF X=" + num(i) + " THEN GOTO " + num(1 + (long)((i * 7 + 3) % n) * gap) + " ELSE X=X+1:ON X-X GOSUB " + num(1 + (long)(n - 1 - i) * gap) + "," + num(1 + (long)(i * 3 % n) * gap) + ":PRINT X;\n"; k.files["F"] = t; for (auto l : {std::string("LOAD \"F\""), std::string(m), std::string("LIST"), std::string("GOTO 1"), std::string("RENUM 10,0,10"), std::string("LIST")}) k.in.push_back(l + "\n"); c.run(Check{"model", {k}, "long"}); }
  c.sec("lines that grow");
  for (int n = 0; n <= 40; n++) for (auto m : {"RENUM 10000", "RENUM 60000,10,100", "RENUM 1,1,1"}) { std::string l = "ON X GOTO 1"; for (int i = 0; i < n; i++) l += ",1"; model_session(c, "1 " + l + "|2 " + l + ":REM " + rep("r", 100 - (int)l.size() > 0 ? 100 - l.size() : 0) + "|LIST|" + m + "|LIST|RUN|SAVE \"F\"|LOAD \"F\"|LIST"); }
}
M(C14) {
  c.sec("everything between STOP and CONT");
  { VS progs = {"10 FOR I=1 TO 3:X=X+1:STOP:PRINT \"i\";I;X;Y$:NEXT|20 PRINT \"e\";I", "10 GOSUB 30:PRINT \"r\";X:END|30 X=X+1:STOP:PRINT \"s\";X;I:RETURN", "10 READ X:STOP:READ Y$:PRINT X;Y$|20 STOP|30 READ X,Z$:PRINT X;Z$", "10 DEF FNA(X)=X*2+Y:DIM Q(3):Q(2)=4:STOP:PRINT FNA(3);Q(2);X|20 STOP:PRINT FNA(4);Q(3)", "10 IF X=0 THEN X=1:STOP:PRINT \"t\";X ELSE PRINT \"e\"|20 STOP:PRINT \"abc\";:STOP:PRINT TAB(8);\"d\"", "10 FOR I=1 TO 2:FOR J=1 TO 2:GOSUB 30:NEXT J,I:PRINT \"e\":END|30 STOP:PRINT I;J;X;Y$:RETURN", "10 ON 2 GOSUB 20,30:PRINT \"o\":END|20 RETURN|30 STOP:FOR I=1 TO 2:STOP:NEXT:RETURN"};
    VS more = U; for (auto x : {"CONT", "RUN", "NEW", "LIST", "LIST 10", "SAVE \"F\"", "LOAD \"F\"", "LOAD \"none\"", "RENUM", "RENUM 10", "COMPILE", "15 REM", "15", "10", "30", "foo(", "*x", "65535 REM", "0 REM", "CLEAR:X=4", "GOTO 10", "GOSUB 30:PRINT \"im\"", "X=99:Y=9:Y$=\"set\"", "DIM Q(5):Q(2)=50", "DEF FNA(X)=X+1000", "READ X:DATA 99", "RESTORE 10", "FOR J=5 TO 6:PRINT J;:NEXT", "I=9", "NEXT:NEXT", "RETURN:PRINT 1", "GOSUB 500:GOSUB 800"}) more.push_back(x);
    auto go = [&](const std::string& p, CVS v) { if (!c.take()) return; Case k = session(p + TAIL + "|RUN"); for (auto& x : v) { k.in.push_back(x + "\n"); if (reads(x)) { k.in.push_back("5\n"); k.in.push_back("6,7\n"); } } for (auto x : {"CONT", "PRINT X;Y$;I;J", "CONT", "CONT", "PRINT X", "CONT", "RUN", "CONT"}) k.in.push_back(std::string(x) + "\n"); c.model(k); };
    for (auto& p : progs) { sequences(more, 1, 2, [&](CVS v) { go(p, v); }); if (c.thorough) { VS few; for (size_t i = 0; i < more.size(); i += 3) few.push_back(more[i]); sequences(few, 3, 3, [&](CVS v) { go(p, v); }); } } }
}
M(C15) {
  VS own = {"X=X+1", "Y$=Y$+\"s\"", "Q(1)=Q(1)+2", "DEF FNA(X)=X+Y", "PRINT X;Y$;Q(1);", "PRINT FNA(2);", "GOTO 600", "GOSUB 500:PRINT \"b\"", "FOR I=1 TO 3", "NEXT", "NEXT I", "RETURN", "CLEAR", "READ X:PRINT X;", "RESTORE", "DIM Q(4)", "STOP", "END", "FOR I=1 TO 3:GOSUB 500:NEXT", "PRINT I;", "READ Y$:PRINT Y$;", "PRINT LOG(0)"};
  c.sec("state in every surrounding"); contexts(c, own);
  c.sec("state beside every statement"); pairs(c, own, U);
  c.sec("sessions without a program");
  { VS ev = {"NEW", "CLEAR", "RUN", "CONT", "LIST", "X=1:Y$=\"a\"", "DIM Q(2):Q(1)=4", "DEF FNA(X)=X+1", "FOR I=1 TO 3", "NEXT", "RETURN", "PRINT X;Y$;I", "PRINT FNA(1)", "PRINT Q(1)", "READ X", "RESTORE", "GOTO 10", "GOSUB 10", "RENUM", "SAVE \"F\"", "LOAD \"F\"", "LOAD \"G\"", "COMPILE", "10", "10 PRINT \"p\";X", "PRINT LOG(0)", "STOP", "END", "foo("};
    c.histories({"-q"}, {}, ev, {"PRINT X;Y$;I", "PRINT FNA(2)", "PRINT Q(1)", "NEXT", "RETURN", "LIST"}, c.thorough ? 4 : 3, {{"G", "10 PRINT \"file\"\n"}}); }
  c.sec("three commands in a session with a program");
  { VS ev = {"NEW", "CLEAR", "RUN", "CONT", "X=1:Y$=\"a\":Q(1)=4:DEF FNA(X)=X+1", "DIM Q(2):Q(1)=4", "DEF FNA(X)=X+1", "FOR I=1 TO 3:GOTO 20", "FOR I=1 TO 3", "NEXT", "RETURN", "GOSUB 30", "READ X:PRINT X", "RESTORE 40", "GOTO 20", "RENUM", "SAVE \"F\"", "LOAD \"F\"", "COMPILE", "10", "5 REM", "PRINT LOG(0)", "GOSUB 30:NEXT", "PRINT X;Y$;FNA(1)"};
    c.histories({"-q"}, {"10 X=X+5:Y$=\"prog\":DIM Q(3)", "20 PRINT \"twenty\";X;I:STOP:NEXT:PRINT \"after\":END", "30 READ Z:PRINT \"sub\";Z:STOP:RETURN", "40 DATA 1,2,3,4"}, ev, {"PRINT X;Y$;I;Q(1)", "PRINT FNA(2)", "NEXT", "RETURN", "CONT", "READ Z:PRINT Z"}, c.thorough ? 4 : 3); }
}
M(C16) {
  VS fail = {"PRINT LOG(0)", "X=1+LOG(0)", "Y$=Y$+CHR$(999)", "PRINT 1;2;LOG(0);3", "Q(99)=1", "Q(LOG(0))=1", "GOTO 999", "GOSUB 999", "NEXT J", "RETURN", "READ Q(99)", "RESTORE 999", "ON 1.5 GOTO 600", "FOR I=1 TO LOG(0)", "DIM Q(-1)", "PRINT FNU(1)", "PRINT MID$(Y$,99)", "INPUT Q(99)", "IF LOG(0) THEN PRINT 1", "GOSUB 500:PRINT LOG(0)", "FOR I=1 TO 2:PRINT LOG(0):NEXT", "ON 1 GOTO 999", "PRINT 1.5 AND 1", "RANDOMIZE LOG(0)", "PRINT ASC(\"\")", "PRINT 1+(2+(3+LOG(0)))", "PRINT \"a\"+(\"b\"+MID$(\"c\",5))", "PRINT TAB(LOG(0))", "DEF FNA(X)=LOG(X):PRINT FNA(0)", "DEF FNA(X)=FNA(X):PRINT FNA(0)", "READ X,X,X"};
  c.sec("failures in every surrounding"); contexts(c, fail);
  c.sec("failures beside every statement"); pairs(c, fail, U);
  c.sec("failures at every depth");
  for (auto& f : fail) for (int n = 0; n <= 9; n++) for (auto how : {"GOSUB", "FOR", "BOTH"}) { if (reads(f) || !c.take()) continue; std::string p; const char* V = "ABCDEFGHK"; for (int i = 0; i < n; i++) p += num(100 + i * 10) + (how[0] == 'G' ? " GOSUB " + num(110 + i * 10) + ":PRINT \"no\"" : how[0] == 'F' ? std::string(" FOR ") + V[i] + "=1 TO 2" : i % 2 ? " GOSUB " + num(110 + i * 10) + ":PRINT \"no\"" : std::string(" FOR ") + V[i] + "=1 TO 2:PRINT " + V[i] + ";") + "|"; p += num(100 + n * 10) + " " + f + "|300 PRINT \"past\"|310 END" + TAIL;
    c.model(session(p + "|GOTO 100|PRINT A;B;C;X|GOTO 100|GOTO 100|GOTO 100|NEXT|RETURN|1 REM|GOTO 100|PRINT 1+(2+(3+(4+(5+6))))|10 N=N+1:IF N<8 THEN GOSUB 10:RETURN ELSE RETURN|GOSUB 10:PRINT N")); }
}
M(C18) {
  c.sec("a fault at every line");
  { VS bad = {"PRINT (", "X=", "IF X", "FOR I", "GOTO", "A$=1", "PRINT \"u", "NEXT 1", "DIM Q", "foo", "PRINT 1 ELSE", "ON X", "READ 1", "1=X", "DEF FNA=1", "LEN=1", "IF X THEN", "ELSE", "THEN 10", "INPUT", "STEP 1", "RESTORE X", "PRINT )"};
    for (int n = 1; n <= 12; n++) for (int at = 0; at < n; at++) for (auto& b : bad) { if (!c.take()) continue; std::string p; for (int i = 0; i < n; i++) p += (i ? "|" : "") + num(10 + i * 10) + " " + (i == at ? b : i % 3 == 0 ? "PRINT " + num(i) : i % 3 == 1 ? "X=X+1" : "IF X THEN PRINT X"); Case k = program(p); c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); c.model(session(p + "|RUN|COMPILE|GOTO 10|PRINT X|" + num(10 + at * 10) + " PRINT \"mended\"|RUN|COMPILE")); } }
  c.sec("statements cut short and run on");
  { Batch b(c, {}, 20); VS more = {"", ")", "(", ",", ";", ":", "=", "1", "A", "\"", "$", "-", "+", "THEN", "ELSE", "TO", "PRINT", ".", "\"s\"", ",,", "::", "ELSE PRINT 1", "AND", "NOT", "GOTO", "REM", "@", "#"};
    VS src = U; for (auto x : {"FOR I=1 TO 9 STEP 2", "ON X GOTO 500,600", "IF X=1 THEN 500 ELSE 600", "DEF FNA(X)=X+1", "INPUT \"p\";A,B$", "LINE INPUT \"p\";A$", "PRINT TAB(3);SPC(2);A$,B", "PRINT MID$(A$,1,2);LEFT$(A$,1)", "A(1,2)=B(3)+FNA(4)", "READ A,B$(1)", "NEXT I,J", "DATA 1,\"x\",y"}) src.push_back(x);
    for (auto& s : src) { std::set<std::string> seen; for (size_t n = 1; n <= s.size(); n++) for (auto& m : more) { if (n < s.size() && !m.empty() && !c.thorough && m.size() > 1) continue; std::string l = s.substr(0, n) + (m.empty() ? "" : " " + m); if (seen.insert(l).second) { if (c.take()) { Case k = with_in(program("5 PRINT \"b\"|10 " + l + TAIL), true); c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); } } } 
      // one character left out, or changed
      for (size_t i = 0; i < s.size(); i++) for (auto r : {"", " ", ",", ")", "(", "1", "X", "\"", "=", ";"}) { if (!c.thorough && i % 2 && *r && *r != ' ') continue; std::string l = s.substr(0, i) + r + s.substr(i + 1); if (c.take()) { Case k = with_in(program("5 PRINT \"b\"|10 " + l + TAIL), true); c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); } } } }
}
M(C19) {
  c.sec("case and blanks in every statement");
  for (auto& s : U) { auto one = [&](const std::string& l, bool k_) { if (!c.take()) return; Case k = with_in(program("5 X=1:Y$=\"a\"|10 " + l + "|20 PRINT X;Y$" + TAIL), true); if (k_) k.argv = {"-q", "-k", "P"}; c.model(k); };
    if (s.find("DATA") == std::string::npos) one(small(s), false);
    bool q = false; for (size_t i = 1; i < s.size(); i++) { if (s[i - 1] == '"') q = !q; if (q) continue; bool w = isalnum((unsigned char)s[i - 1]) && (isalnum((unsigned char)s[i]) || s[i] == '$'); if (s[i - 1] == '.' || s[i] == '.') continue; for (auto b : {" ", "  ", "\t"}) { one(s.substr(0, i) + b + s.substr(i), false); if (!w) one(s.substr(0, i) + b + s.substr(i), true); } if (s[i] == ' ' ) { one(s.substr(0, i) + s.substr(i + 1), true); one(s.substr(0, i) + s.substr(i + 1), false); } }
    std::string t; q = false; for (char ch : s) { if (ch == '"') q = !q; if (q || ch != ' ') t += ch; } one(t, true); one(t, false); one(small(t), true);
    std::string m; q = false; int i = 0; for (char ch : s) { if (ch == '"') q = !q; m += !q && i++ % 2 ? (char)tolower(ch) : ch; } if (s.find("DATA") == std::string::npos) { one(m, false); one(m, true); } }
}
M(C20) {
  c.sec("options around every statement");
  VS own = {"FOR I=1 TO 3:PRINT I;:NEXT", "FOR I=1 TO 2", "NEXT", "GOSUB 800", "PRINT \"abc\";", "PRINT ,\"x\"", "PRINT TAB(9);\"t\";", "GOTO 600", "IF X THEN 600", "PRINT LOG(0)", "STOP", "READ X", "INPUT X", "REM", "X=X+1"};
  for (auto& t : PT) for (auto& b : own) for (auto o : {"-t", "-f", "-tf"}) if (c.take()) { Case k = program_of(t, b, ""); VS a; for (const char* x = o + 1; *x; x++) a.push_back(std::string("-") + *x); k.argv.insert(k.argv.begin(), a.begin(), a.end()); c.model(k); Case plain = program_of(t, b, ""); c.run(Check{"opts", {plain, k}, ""}); }
  for (auto& t : ST) for (auto& b : own) for (auto o : {"-t", "-f", "-tf"}) if (c.take()) { Case k = session_of(t, b, ""); for (const char* x = o + 1; *x; x++) k.argv.push_back(std::string("-") + *x); c.model(k); }
}
M(C21) {
  c.sec("names in every surrounding");
  VS own = {"X=X+1:x=X*2:PRINT X;x;", "X$=\"a\":X=5:PRINT X;X$;x$;", "X(1)=7:PRINT X;x(1);X$;", "Xy=1:xY=Xy+1:PRINT XY;X;Y;", "A1=1:A=2:A11=3:PRINT A1;A;A11;a1;", "FOR xi=1 TO 2:PRINT XI;:NEXT Xi", "DEF fna(q)=Q+X:PRINT FNA(1);Q;", "DIM q(2),Q$(2):Q(1)=4:q$(1)=\"s\":PRINT q(1);Q$(1);", "LENX=3:PRINT LENX;LEN(\"ab\");", "READ x$:PRINT X$;", "X.Y=1", "PRINTX=3:PRINT PRINTX;"};
  contexts(c, own);
  c.sec("names beside every statement"); pairs(c, own, U);
}
M(C22) {
  c.sec("numbers in every surrounding");
  VS own = {"X=VAL(\"12.5\"):PRINT X;", "PRINT STR$(X/3);VAL(STR$(X));", "X=1E3:PRINT X;-X;", "PRINT 999999;1E6;1234567;", "PRINT .1;1E-4;1E-5;", "READ X:DATA 1.5E2:PRINT X;", "PRINT VAL(\"x\")", "X=.5:PRINT X;STR$(X);", "PRINT 1/3;-2/3;100/3;", "INPUT X:PRINT X*2;STR$(X);", "PRINT 1E300*10;1E-320;", "Y$=STR$(-7):PRINT Y$;LEN(Y$);"};
  contexts(c, own); pairs(c, own, U);
  c.sec("every six digit number around the powers of ten");
  { Batch b(c, {}, 24); for (int e = -8; e <= 8; e++) for (int d = -12; d <= 12; d++) for (auto f : {"", "5"}) { std::string t = num(1000000 + d) + f + "E" + num(e - 6 - (*f ? 1 : 0)); b.add("?" + t + ";-" + t + ";STR$(" + t + ");VAL(\"" + t + "\")=" + t + ";VAL(STR$(" + t + "))"); } 
    for (int e = -20; e <= 20; e++) for (auto m : {"1", "1.5", "-2.25", "123456", "654321", "12345.67", ".000001", "99999.95", "999999.5"}) { std::string t = std::string(m) + "E" + num(e); b.add("X=" + t + ":?X;STR$(X);VAL(\"" + t + "\")-X;X*1;X+0"); b.add("READ A:DATA " + t); b.add({"INPUT B", t, "?A;B;A=B;A-" + t}); } }
}
M(C23) {
  c.sec("RND in every surrounding");
  VS own = {"PRINT RND(1)=RND(1);", "RANDOMIZE 3:X=RND(1):RANDOMIZE 3:PRINT X=RND(1);", "PRINT INT(RND(1)*0)", "IF RND(1)<1 THEN PRINT \"lt\";", "X=RND(X)>=0:PRINT X;", "RANDOMIZE 5", "PRINT RND(0)<1;RND(-1)<1;"};
  contexts(c, own);
}
M(C25) {
  auto run = [&](const Case& k) { if (c.take()) c.run(Check{"model", {k}, "long"}); };
  c.sec("many of everything");
  for (int n : {1, 2, 8, 16, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000}) for (auto& s : U) { if (reads(s) || s == "DATA 11,z" || s.find("END") != std::string::npos || s.find("STOP") != std::string::npos) continue; if (s.find("CLEAR") != std::string::npos && n > 300) continue; Case k; k.argv = {"-q", "P"}; std::string& t = k.files["P"]; for (int i = 0; i < n; i++) t += num(1 + i) + " " + (i % 8 == 3 || n < 8 ? s : "C=C+1:D$=\"" + num(i) + "\"") + "\n"; t += num(2000) + " PRINT C;D$;X;Y$\n2010 END\n"; if (s.find("500") != std::string::npos || s.find("600") != std::string::npos || s.find("800") != std::string::npos || s.find("700") != std::string::npos || s.find("READ") != std::string::npos) { if (n >= 500) continue; t = t.substr(0, t.size()); std::string u; for (int i = 0; i < n; i++) u += num(1 + i) + " " + (i % 8 == 3 || n < 8 ? s : "C=C+1:D$=\"" + num(i) + "\"") + "\n"; u += "498 PRINT C;D$;X;Y$\n499 END\n"; for (auto& l : lines_of(TAIL + 1)) u += l; t = u; } run(k); }
  c.sec("many names and constants of every kind");
  for (int n : {10, 30, 60, 63, 64, 65, 70, 120, 127, 128, 129, 130, 190, 250, 255, 256, 257, 260, 300, 400, 510, 511, 512, 513}) for (int form = 0; form < 6; form++) { Case k; k.argv = {"-q", "P"}; std::string& t = k.files["P"]; for (int i = 0; i < n; i++) { std::string v = num(i); t += num(10 + i) + " " + (form == 0 ? "N" + v + "=" + v + ".5" : form == 1 ? "S" + v + "$=\"str" + v + "\"" : form == 2 ? "A" + v + "(2)=" + v : form == 3 ? "DEF FN" + v + "(X)=X+" + v : form == 4 ? "X=X+" + v + ".25:Y$=\"" + v + "\"" : (i % 3 == 0 ? "N" + v + "=" + v : i % 3 == 1 ? "N" + num(i - 1) + "$=\"" + v + "\"" : "N" + num(i - 2) + "(1)=" + v)) + "\n"; }
    for (int i = 0; i < n; i += 3) { std::string v = num(i); t += num(2000 + i) + " PRINT " + (form == 0 ? "n" + v : form == 1 ? "S" + v + "$" : form == 2 ? "a" + v + "(2)" : form == 3 ? "FN" + v + "(.5)" : form == 4 ? "X" : "N" + v + ";N" + v + "$;N" + v + "(1)") + ";\n"; } t += "9000 PRINT X;Y$\n"; run(k); }
}
M(C26) {
  c.sec("special arguments");
  VS sp = {"0", "-0", "0*-1", "1", "-1", "1E308*10", "-1E308*10", "1E308*10-1E308*10", "1E-320", "-1E-320", "4.94E-324", "1E-308", "2", "4", "9", "16", "2.25", "1E-300", "1E300", "1E10", "1/3", "16777217", "4294967296", "9007199254740993", "-4", "-.5", "709.78", "709.79", "-745", "-746", "1.5707963267949", "3.14159265358979", "1E22", ".9999999999999999", "1.0000000000000002"};
  { const VS fns = {"ABS", "SGN", "INT", "SQR", "EXP", "LOG", "SIN", "COS", "TAN", "ATN"}; Batch b(c, {}, 24);
    for (auto& f : fns) for (auto& a : sp) { std::string e = f + "(" + a + ")"; b.add("X=5:X=" + e + ":?X"); b.add("?1/" + e); b.add("?" + e + "=0;" + e + "<0;" + e + ">0"); b.add("?" + e + "=" + e); b.add("?" + e + "-" + e); for (auto& g : fns) { b.add("X=" + g + "(" + e + "):?X"); if (c.thorough) b.add("?1/" + g + "(" + e + ")"); } } }
  c.sec("results are exact");
  { std::vector<double> g; for (int i = 0; i <= 400; i++) g.push_back(i * .37); for (int i = 0; i <= 60; i++) { g.push_back(ldexp(1, i)); g.push_back(ldexp(1, -i)); g.push_back(pow(1.7, i)); } for (int i = 0; i < 200; i++) g.push_back(i); { size_t n = g.size(); for (size_t i = 0; i < n; i++) g.push_back(-g[i]); }
    Batch b(c, {}, 40); for (double x : g) { struct { const char* n; double v; } r[] = {{"ABS", fabs(x)}, {"SGN", x > 0 ? 1.0 : x < 0 ? -1.0 : 0}, {"INT", floor(x)}, {"SQR", x < 0 ? NAN : sqrt(x)}, {"EXP", exp(x)}, {"LOG", x > 0 ? log(x) : NAN}, {"SIN", sin(x)}, {"COS", cos(x)}, {"TAN", tan(x)}, {"ATN", atan(x)}};
      for (auto& e : r) { std::string l = lit(e.v); if (l.empty()) continue; b.add(std::string("?") + e.n + "(" + lit(x) + ")=" + l + ";" + e.n + "(" + lit(x) + ")-" + l); } } }
  c.sec("functions in every surrounding");
  VS own = {"PRINT ABS(-X);SGN(X-1);INT(X/2);", "X=SQR(X+4):PRINT X;", "PRINT INT(-.5);INT(2.5);", "PRINT EXP(0);LOG(1);SIN(0);COS(0);TAN(0);ATN(0);", "PRINT LOG(X)", "X=INT(X*1.5+1):PRINT X;", "PRINT SQR(SQR(16))+ABS(SGN(-3));"};
  contexts(c, own); pairs(c, own, U);
}
M(C17) {
  c.sec("memory in every surrounding");
  auto mem = [&](const Case& k) { if (c.take()) c.run(Check{"mem", {k}, ""}); };
  for (auto& b : U) { for (auto& t : PT) mem(program_of(t, b, "")); for (auto& t : ST) mem(session_of(t, b, "")); }
  c.sec("memory with every pair of statements");
  for (auto& x : U) for (auto& y : U) { for (auto& t : TWO) mem(with_in(program(put2(t[4] == ':' ? "10 %:@" : t, x, y) + TAIL), reads(x) || reads(y)));
    if (c.thorough) for (auto& t : TWOS) { Case k; k.argv = {"-q"}; for (auto& l : lines_of(TAIL + 1)) k.in.push_back(l); for (auto& l : split(t)) { k.in.push_back(put2(l, x, y) + "\n"); if ((reads(x) || reads(y)) && !isdigit((unsigned char)l[0])) for (int i = 0; i < 3; i++) k.in.push_back(IN[i]); } mem(k); } }
}
M(C24) {
  c.sec("a break at every point of every statement in its surroundings");
  VS own; for (auto& s : U) if (!reads(s) && s != "STOP" && s.find("TAB") == std::string::npos) own.push_back(s);
  VS t = {"10 %|20 PRINT \"n\"", "10 PRINT \"a\";:%:PRINT \"b\"", "10 GOSUB 100:PRINT \"r\":END|100 %:PRINT \"s\":RETURN", "10 FOR J=1 TO 2:%:NEXT J:PRINT \"d\";J", "10 IF 1 THEN %:PRINT \"t\" ELSE PRINT \"e\"|20 PRINT \"n\";X;Y$", "10 DEF FNA(X)=X+1|20 X=2:Y$=\"ab\":%:PRINT FNA(1);X;Y$"};
  if (c.thorough) for (auto x : {"10 IF 1 THEN IF 0 THEN PRINT 1 ELSE %|20 PRINT \"n\"", "10 ON 2 GOSUB 90,100:PRINT \"r\":END|90 RETURN|100 %|110 RETURN", "10 READ A9:%:READ A9$:PRINT A9;A9$:RESTORE:READ A9:PRINT A9", "10 FOR A1=1 TO 2:FOR A2=1 TO 2|20 %|30 NEXT A2,A1:PRINT A1;A2", "10 X=1:Y=2:I=3:A$=\"zz\":X(1)=4:A$(2)=\"q\"|20 %|30 PRINT X;Y;I;A$;X(1);A$(2)"}) t.push_back(x);
  for (size_t i = 0; i < own.size(); i++) for (size_t j = 0; j < t.size(); j++) { if (!c.thorough && (i + j) % 3) continue;
    VS v = split(put(t[j], own[i]) + TAIL); v.push_back("PRINT \"@@\""); v.push_back("RUN");
    { Case k; k.argv = {"-q"}; for (auto& l : v) k.in.push_back(l + "\n"); k.in.push_back("PRINT \"##\"\n"); mdl::Outcome o; mdl::run_case(k, o, true, nullptr); if (o.diverged || o.out.find("@@\n> ") == std::string::npos || o.out.find("> ##") == std::string::npos) continue; } // it has a syntax error, or never ends
    for (long from = 0; from < 16; from++) { if (!c.take()) continue; Case a, b; a.argv = {"-q"}; for (auto& l : v) a.in.push_back(l + "\n"); c.run(Check{"irq", {a, b}, "cont;" + num(from) + ";16;CONT"}); } }
}
