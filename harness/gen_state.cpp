// A sixth group of axes: everything done at every depth of pending calls and loops; the same thing done any number of
// times; anything typed while a program is stopped, however long; families of long names; seeds near every power of two.
#include "gen.h"
#define S(id) void state_##id(Ctx& c)

// ---- statements carried out with f loops and g calls pending
static VS nest(int f, int g, int order, CVS body, const std::string& end) { // order 0: loops outside, 1: calls outside, 2: in turn
  VS p = {"1 GOTO 10", "2 X=X+100:RETURN"}; long n = 10; int a = 0, b = 0; // GOSUB to the next line; control never comes back to the lines of loops
  std::string how; if (order == 0) how = std::string(f, 'f') + std::string(g, 'g'); else if (order == 1) how = std::string(g, 'g') + std::string(f, 'f'); else { int x = f, y = g; while (x || y) { if (x) { how += 'f'; x--; } if (y) { how += 'g'; y--; } } }
  for (char ch : how) { if (ch == 'f') { p.push_back(num(n) + " FOR L" + num(a) + "=" + num(a + 1) + " TO " + num(a + 2)); a++; } else { p.push_back(num(n) + " GOSUB " + num(n + 10) + ":PRINT \"r" + num(b) + "\";X:" + (b ? "RETURN" : "END")); b++; } n += 10; }
  for (auto& s : body) { p.push_back(num(n) + " " + s); n += 10; }
  if (!end.empty()) { p.push_back(num(n) + " " + end); n += 10; }
  p.push_back(num(n) + " " + (g ? "RETURN" : "END"));
  return p;
}
static void at_depth(Ctx& c, const std::vector<VS>& bodies, CVS after, CVS inputs = {}, CVS opts = {}) {
  for (auto& b : bodies) for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (int order = 0; order < 3; order++) {
    if (order && (!f || !g)) continue;
    if (!c.thorough && f != g && f && g && f != 8 && g != 8 && (f + 2 * g + order) % 3) continue;
    for (auto& af : after) { if (!c.take()) continue; Case k; k.argv = opts.empty() ? VS{"-q"} : opts; for (auto& l : nest(f, g, order, b, "")) k.in.push_back(l + "\n"); for (auto& l : lines_of(af)) { k.in.push_back(l); if (l == "RUN\n" || l == "CONT\n") for (auto& i : inputs) k.in.push_back(i + "\n"); } c.model(k); }
  }
}
static const VS AGAIN = {"RUN|RUN|PRINT X;L0;L7|CLEAR|NEXT|RETURN|RUN"};
S(C08) { c.sec("functions called at every depth"); at_depth(c, {{"X=9:DEF FNA(X)=X*2+L0", "PRINT FNA(3);X:X=7:PRINT FNA(FNA(1)+X);X"}, {"DEF FNA(Y)=Y+1:DEF FNB(Y)=FNA(Y)", "X=5:PRINT FNA(2);Y:PRINT FNB(1)"}, {"DEF FNS$(N)=STR$(N)+\"s\":N=4", "PRINT FNS$(N+1);N:PRINT FNS$(LOG(0))"}, {"DEF FNA(L0)=L0+L1", "PRINT FNA(50);L0;L1"}, {"DEF FNA(Q)=LOG(Q)", "Q=3:PRINT FNA(0)"}}, {"RUN|RUN|PRINT X;Y;N;L0;L7;Q|PRINT FNA(2)", "RUN|CONT|PRINT FNA(1)|CLEAR|PRINT FNA(1)|RUN"}); }
S(C02) { c.sec("branches at every depth"); at_depth(c, {{"IF L0=1 THEN X=1 ELSE X=2", "IF X>1 THEN IF X=2 THEN PRINT \"two\" ELSE PRINT \"other\"", "ON X GOTO 1000,2000", "PRINT X"}, {"X=X+1:IF X<3 THEN 2", "ON 3 GOTO 1,2:PRINT \"after\""}}, {"RUN|PRINT X|RUN"}); }
S(C05) { c.sec("reads at every depth"); at_depth(c, {{"DATA 1,two,3", "READ A,B$,C:PRINT A;B$;C:RESTORE:READ A:PRINT A", "READ B$,C:READ D"}}, {"RUN|READ X$|RUN|PRINT A;B$;C;D|READ Q:DATA 5|RESTORE|READ A:PRINT A"}); }
S(C06) { c.sec("arrays at every depth"); at_depth(c, {{"DIM Q(3),R$(2,2):Q(1)=5:R$(1,2)=\"r\"", "PRINT Q(1);R$(1,2);Q(0);T(4):T(10)=1:U$(3)=\"u\":PRINT T(10);U$(3)", "PRINT T(11)"}}, {"RUN|PRINT Q(1);R$(1,2);T(10);U$(3)|RUN"}); }
S(C07) { c.sec("strings at every depth"); at_depth(c, {{"A$=\"abc\":B$=A$+LEFT$(A$,2)+MID$(A$,2,1)+RIGHT$(A$,1)", "PRINT B$;LEN(B$);A$<B$;CHR$(65);ASC(B$);STR$(5);VAL(\"6\")", "PRINT MID$(A$,9,1)"}}, {"RUN|PRINT A$;B$|RUN"}); }
S(C09) { c.sec("input at every depth"); at_depth(c, {{"INPUT A,B$", "PRINT A;B$", "INPUT \"q\";Q(1,2)", "LINE INPUT C$:PRINT Q(1,2);C$"}}, {"RUN|RUN|PRINT A;B$;C$"}, {"5,x", "y", "6", "line, line"});
  at_depth(c, {{"INPUT A,B$", "PRINT A;B$", "INPUT \"q\";Q(1,2)", "LINE INPUT C$:PRINT Q(1,2);C$"}}, {"RUN|PRINT A;B$;C$"}, {"x,5", "5", "1,2", "3,4,5", "", "q"});
  c.sec("any number of replies that are refused");
  for (int n = 0; n <= 70; n++) for (auto st : {"INPUT A", "INPUT Q(2)", "INPUT Q(1,2)", "INPUT Q(X,1)", "INPUT A,B", "INPUT A,Q(1,2)", "INPUT B$,Q(2,1),A", "INPUT Q$(1),Q(A,1)", "INPUT \"p\";Q(1,1),R(2,2)", "INPUT Q(FNA(1),2)"}) for (auto bad : {"x", "", "1", "1,x", "1x", "x,1", "1,2x"}) { if (n > 20 && n % 7 && !c.thorough) continue; for (int how = 0; how < 2; how++) { if (!c.take()) continue;
    Case k; k.argv = {"-q"}; std::string s = st, b = bad; int m = n; for (auto l : {"10 DEF FNA(X)=X+1", "20 X=1:A=1"}) k.in.push_back(std::string(l) + "\n"); if (how) { k.in.push_back("30 A=A\n"); k.in.push_back("RUN\n"); k.in.push_back(s + "\n"); } else { k.in.push_back("30 " + s + "\n"); k.in.push_back("40 PRINT A;B;Q(1,2);X\n"); k.in.push_back("RUN\n"); }
    while (m--) k.in.push_back(b + "\n"); for (auto l : {"1,2,3", "5,6", "7", "PRINT A;B;B$", "PRINT Q(1,2)", "PRINT Q(2)", "RUN", "8", "9,9,9"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } } }
S(C10) { c.sec("printing at every depth"); at_depth(c, {{"PRINT \"ab\";TAB(6);1,2;SPC(2);\"x\"", "PRINT X,;:PRINT TAB(3);\"y\":PRINT \"z\";"}}, {"RUN|PRINT TAB(3);\"i\"|RUN"}); }
S(C14) { c.sec("stopped and continued at every depth"); at_depth(c, {{"PRINT \"a\";:STOP:PRINT TAB(5);\"b\"", "X=X+1:STOP", "PRINT X"}}, {"RUN|CONT|CONT|CONT", "RUN|X=5|PRINT \"typed\"|CONT|GOSUB 2|CONT|CONT", "RUN|FOR Z=1 TO 2:PRINT Z;:NEXT:PRINT|CONT|PRINT LOG(0)|CONT|NEXT|RETURN"});
  c.sec("typed lines of every length while a program is stopped");
  for (auto unit : {"A=1", "A=1+2", "A$=\"\"", "PRINT 1;", "REM", "?", "IF A THEN", "B=A*(2+A)", "", "GOSUB 90", "X=X", "DEF FNA(Y)=Y", "RESTORE", "READ A", "DATA 1", "FOR I=1 TO 1:NEXT", "ON 3 GOTO 90"}) for (int n = 1; n <= 110; n++) { std::string l; for (int i = 0; i < n; i++) l += (i ? ":" : "") + std::string(unit); if (l.size() > 124) break; if (!l.compare(0, 2, "IF")) l += "PRINT 2"; if (!c.take()) continue; Case k = session("10 PRINT \"a\":STOP|20 PRINT \"b\";A:STOP|30 PRINT \"c\":END|40 DATA 7,8,9|90 RETURN|RUN"); k.in.push_back(l + "\n"); k.in.push_back("CONT\n"); k.in.push_back(l + "\n"); k.in.push_back(l + "\n"); k.in.push_back("CONT\n"); k.in.push_back("CONT\n"); c.model(k); }
  for (auto ch : {" ", "1", "A", ")", "\"", "'", ":"}) for (int n = 1; n <= 127; n++) { if (!c.take()) continue; Case k = session("10 PRINT \"a\":STOP|20 PRINT \"b\";A:END|RUN"); k.in.push_back(rep(ch, n) + "\n"); k.in.push_back("CONT\n"); c.model(k); }
  c.sec("any number of stops");
  for (int n = 1; n <= 300; n += n < 40 ? 1 : 13) for (auto e : {"", "PRINT X", "Y=1", "PRINT LOG(0)", "REM", "PRINT (", "LIST 10"}) { if (!c.take()) continue; Case k = session("10 X=X+1:STOP:IF X<" + num(n) + " THEN 10|20 PRINT \"end\";X|RUN"); for (int i = 0; i <= n; i++) { if (*e) k.in.push_back(std::string(e) + "\n"); k.in.push_back("CONT\n"); } c.model(k); } }
S(C15) { c.sec("run and cleared at every depth"); at_depth(c, {{"PRINT X;A$;Q(1);R$(2):X=X+1:A$=A$+\"s\":Q(1)=5:R$(2)=\"r\""}}, {"RUN|RUN|PRINT X;A$|CLEAR|PRINT X;A$;Q(1)|RUN", "X=5:A$=\"t\"|GOTO 10|GOTO 10|GOSUB 2|PRINT X|RUN", "RUN|FOR J=1 TO 2|NEXT|NEXT|RETURN|PRINT X|NEW|PRINT X;A$"});
  c.sec("any number of names cleared, of every kind");
  for (int n : {1, 2, 7, 31, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1024, 1500, 3000, 5000}) for (int form = 0; form < 4; form++) for (int how = 0; how < 4; how++) { if (n > 1024 && !c.thorough && (form + how) % 3) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string f; long ln = 10; 
    auto nm = [&](int i) { return (form & 1 ? "S" : "V") + num(i) + (form & 1 ? "$" : "") + (form & 2 ? "(1)" : ""); };
    std::string zero = form & 1 ? "\"\"" : "0", val = form & 1 ? "\"v\"" : "7"; f += "5 IF C=1 THEN " + num(10 + 2 * n) + "\n"; for (int i = 0; i < n; i++) f += num(ln++) + " " + nm(i) + "=" + val + "\n"; if (how == 0) f += num(ln++) + " CLEAR\n"; if (how == 1) f += num(ln++) + " STOP\n"; if (how > 1) f += num(ln++) + " END\n"; ln = 10 + 2 * n; for (int i = 0; i < n; i++) f += num(ln++) + " IF " + nm(i) + "<>" + zero + " THEN PRINT \"left\";" + num(i) + "\n"; f += num(ln++) + " PRINT \"done\"\n"; 
    if (how == 0) { size_t p = f.find("CLEAR\n"); f.insert(p + 5, ":GOTO " + num(10 + 2 * n)); }
    k.files["P"] = f; for (auto l : how == 0 ? VS{"LOAD \"P\"", "RUN"} : how == 1 ? VS{"LOAD \"P\"", "RUN", "CLEAR", "CONT", "RUN", "CLEAR:GOTO " + num(10 + 2 * n)} : how == 2 ? VS{"LOAD \"P\"", "RUN", "5 GOTO " + num(10 + 2 * n), "RUN"} : VS{"LOAD \"P\"", "RUN", "CLEAR", "C=1:GOTO 5", "RUN", "LOAD \"P\"", "C=1:GOTO 5"}) k.in.push_back(l + "\n"); c.run(Check{"model", {k}, "long"}); } }
S(C16) { c.sec("failures after calls and loops of every depth have come to an end");
  VS fails = {"PRINT LOG(0)", "GOSUB 9", "NEXT Q", "PRINT Q(11)", "A$=CHR$(256)", "GOTO 9", "READ Z", "PRINT FNZ(1)", "ON .5 GOTO 2", "X=1:PRINT X;LOG(0)"};
  for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (auto& e : fails) { if (f + g > 9 && !c.thorough) continue; if (!c.take()) continue; VS p; long n = 10; for (int i = 0; i < g; i++) { p.push_back(num(n) + " GOSUB " + num(n + 10) + ":" + (i == g - 1 ? e + ":RETURN" : i ? "RETURN" : "END")); n += 10; } std::string l; for (int i = 0; i < f; i++) { p.push_back(num(n) + " FOR L" + num(i) + "=1 TO 2"); n += 10; } for (int i = f; i--;) { p.push_back(num(n) + " NEXT L" + num(i) + (i ? "" : ":X=LEN(A$)")); n += 10; } p.push_back(num(n) + " " + (g ? "RETURN" : e)); 
    Case k; k.argv = {"-q"}; for (auto& x : p) k.in.push_back(x + "\n"); for (auto x : {"RUN", "PRINT L0;L7", "RETURN", "NEXT", "CONT", "RUN"}) k.in.push_back(std::string(x) + "\n"); c.model(k); }
  c.sec("failures at every depth, again and again"); at_depth(c, {{"PRINT \"a\"", "X=X+LOG(X)"}, {"READ A"}, {"PRINT Q(99)"}}, {"RUN|RUN|RUN|PRINT X|RETURN|NEXT|GOTO 10|GOSUB 10|CONT", "GOTO 10|GOTO 10|PRINT LOG(0)|RUN"}); }
S(C20) { c.sec("traced at every depth, again and again");
  for (auto& o : std::vector<VS>{{"-q", "-t"}, {"-q", "-f"}, {"-q", "-t", "-f"}}) at_depth(c, {{"PRINT X", "FOR Z=1 TO 2:X=X+Z:NEXT"}, {"X=X+1:IF X=2 THEN PRINT LOG(0)", "STOP"}, {"FOR L0=5 TO 6:PRINT L0:NEXT L0"}}, {"RUN|RUN|RUN|PRINT X", "RUN|CONT|NEXT|RUN|CONT|RETURN|FOR Y=1 TO 2:NEXT|RUN"}, {}, o); }
S(C23) { c.sec("seeds near every power of two");
  std::vector<std::pair<long long, long long>> ranges; for (int b = 3; b <= 32; b++) { long long m = 1LL << b; ranges.push_back({m - (b == 32 ? 400 : 40), m + 40}); } for (long long m : {65521LL, 100000LL, 1000000LL, 10000000LL, 2147483647LL, 1000000000LL, 4000000000LL, 16777213LL, 999983LL, 4294967291LL, 4294967279LL}) ranges.push_back({m - 30, m + 30});
  for (auto& r : ranges) for (long long s = r.first; s < r.second; s += 5) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (long long t = s; t < s + 5; t++) k.in.push_back("RANDOMIZE " + std::to_string(t) + ":PRINT INT(RND(1)*1E6)\n"); c.model(k); }
  c.sec("seeded at every depth"); at_depth(c, {{"RANDOMIZE 5:X=RND(1):RANDOMIZE 5:PRINT X=RND(1);X<1;X>=0"}}, {"RUN|RUN"}); }
S(C26) { c.sec("functions at every depth"); at_depth(c, {{"X=2:PRINT ABS(-X);SGN(-X);INT(-X/4);SQR(X*2);EXP(0);LOG(1);SIN(0);COS(0);TAN(0);ATN(0)", "PRINT LOG(-1)"}}, {"RUN|RUN"}); }
S(C22) { c.sec("numbers at every depth"); at_depth(c, {{"X=1234567:PRINT X;STR$(X);VAL(\"1E3\");.5;1E-7", "DATA 1.5,2e2", "READ A,B:PRINT A;B", "INPUT C:PRINT C"}}, {"RUN|RUN"}, {"3.25"}); }

// ---- prefixes and chains of every length, on values that they fail on as well
S(C01) { c.sec("prefixes of every length on values of every kind");
  VS leaf = {"0", "-1", "1", "5", "1.5", "-2.5", "1E10", "-1E10", "2147483647", "2147483648", "-2147483648", "-2147483649", "A", "B", "(A=1)", "(1/0)", "LEN(\"ab\")", "\"a\"", "1E300*1E300"}, ctx = {"PRINT @", "A=@:PRINT A", "IF @ THEN PRINT 1 ELSE PRINT 2", "PRINT 3 AND @", "PRINT @ OR 4", "PRINT 2^@", "PRINT 1=@", "PRINT (@)*2", "PRINT ABS(@)", "PRINT Q(@)", "ON @ GOTO 5"};
  for (auto& x : ctx) for (auto pre : {"NOT ", "-", "NOT -", "-NOT ", "(", "NOT (", "-(", "+", "NOT NOT -"}) { Batch b(c, {"A=1:B=2.5"}, 30); for (int n = 0; n <= 24; n++) for (auto& l : leaf) { std::string e = rep(pre, n) + l, p = pre; if (p.find('(') != std::string::npos) e += rep(")", n); std::string o; for (const char* q = x.c_str(); *q; q++) if (*q == '@') o += e; else o += *q; if (o.size() < 126) b.add(o); } }
  c.sec("chains of every length of every two operators");
  VS ops = {"+", "-", "*", "/", "^", "=", "<", ">=", " AND ", " OR "}; for (auto& p : ops) for (auto& q : ops) { Batch b(c, {"A=1:B=2.5"}, 30); for (auto l : {"1", "2", "A", "B", "-1", "0", "NOT 1", "(2)"}) for (int n = 1; n <= 30; n++) { std::string e = l; for (int i = 0; i < n; i++) e += (i % 2 ? q : p) + l; if (e.size() < 118) b.add("PRINT " + e); } } }

// ---- families of names that are equal up to some place
S(C21) { c.sec("families of long names");
  VS letters; for (char a = 'A'; a <= 'Z'; a++) letters.push_back(std::string(1, a)); 
  for (int len : {1, 2, 3, 4, 6, 7, 8, 10, 12, 15, 16, 20, 28, 31, 32, 33, 40, 50, 60, 62, 63, 64, 65, 70, 71, 72, 75, 76, 77}) for (int form = 0; form < 4; form++) for (int how = 0; how < 3; how++) { if (!c.thorough && (form + how + len) % 3) continue; if (!c.take()) continue;
    std::string stem = "Q" + rep("X", len); Case k; k.argv = {"-q", "P"}; std::string& f = k.files["P"]; VS names; int w = c.thorough ? 26 : 18; // how: where the names differ
    for (int i = 0; i < 26; i++) for (int j = 0; j < w; j++) { std::string s = letters[i] + letters[(j * 7 + i) % 26]; names.push_back(how == 0 ? stem + s : how == 1 ? "Q" + s + stem : stem.substr(0, len / 2 + 1) + s + stem.substr(len / 2 + 1)); if (names.back().find("FN") == 0) names.pop_back(); }
    long ln = 1; std::string suf = form & 1 ? "$" : "", sub = form & 2 ? "(1)" : ""; for (size_t i = 0; i < names.size(); i++) f += num(ln++) + " " + names[i] + suf + sub + "=" + (form & 1 ? "\"" + num(i) + "\"" : num(i)) + "\n"; for (size_t i = 0; i < names.size(); i++) { std::string v = names[i]; if (i & 1) for (char& ch : v) ch = (char)tolower(ch); f += num(ln++) + " IF " + v + suf + sub + "<>" + (form & 1 ? "\"" + num(i) + "\"" : num(i)) + " THEN PRINT \"bad\";" + num(i) + "\n"; } f += num(ln++) + " PRINT \"done\"\n"; c.run(Check{"model", {k}, "long"}); } }

// ---- the same thing any number of times
static void many_times(Ctx& c, const char* oracle) {
  VS ev = {"RUN", "PRINT 1", "PRINT LOG(0)", "PRINT (", "GOSUB 900", "FOR I=1 TO 2:NEXT", "FOR I=1 TO 2", "DIM Q(5):Q(1)=1", "DIM Q$(5):Q$(1)=\"s\"", "A$=A$+\"x\"", "DEF FNA(X)=X+1:PRINT FNA(1)", "CLEAR", "RESTORE:READ A,B$", "READ A", "LIST 10", "LIST", "CONT", "10 PRINT \"a\";X", "10", "50 REM", "RENUM", "NEW", "SAVE \"F\"", "LOAD \"F\"", "LOAD \"none\"", "SAVE \"no/F\"", "COMPILE", "HELP", "*x", "RETURN", "NEXT", "GOTO 20", "GOSUB 10", "STOP", "PRINT FNB(2)", "PRINT FNB(LOG(0))", "N=N+1:V=N", "PRINT Z(1)", "INPUT A", "LINE INPUT B$", "RANDOMIZE 1", "BYE x", "LOAD", "RENUM 5,,", "1E5", "99999999999 X", "ON 1 GOSUB 900", "IF 1 THEN PRINT 2", "CLS", "DATA 1", "READ Q:DATA 4", "\x01", "\"", "PRINT CHR$(-1)+\"a\"" };
  for (auto& e : ev) for (int n : {30, 130, 520, 1100}) for (int pre = 0; pre < 2; pre++) { if (e == "HELP" && std::string(oracle) == "model") continue; if (n > 130 && !c.thorough && (e.size() + n) % 3) continue; if (!c.take()) continue; Case k = session(pre ? "10 PRINT \"a\";X:STOP|20 X=X+1:READ A,B$:DEF FNB(X)=X*2|30 DATA 1,two,3,4|890 END|900 RETURN|RUN" : "20 X=X+1|900 RETURN"); for (int i = 0; i < n; i++) k.in.push_back(e + "\n"); for (auto l : {"PRINT \"still\";A;B$;X;LEN(A$)", "CONT", "RUN", "LIST", "FOR J=1 TO 3:PRINT J;:NEXT:PRINT", "GOSUB 900"}) k.in.push_back(std::string(l) + "\n"); c.run(Check{oracle, {k}, std::string(oracle) == "model" ? "long" : ""}); }
}
S(C25) { c.sec("the same thing any number of times"); many_times(c, "model"); }
S(C17) { c.sec("the same thing any number of times, memory"); many_times(c, "mem"); }
