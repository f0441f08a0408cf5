// C02 control flow, C03 loops, C04 subroutines, C05 data, C06 arrays, C08 functions
#include "gen.h"

// all statement lists of a small grammar with IF nesting, written out as text
static std::string stmts(Chooser& c, int depth, int& tag, bool tail);
static std::string stmt(Chooser& c, int depth, int& tag) {
  int n = depth > 0 ? 4 : 2;
  switch (c.pick(n)) {
    case 0: return "PRINT " + num(++tag) + ";";
    case 1: return "GOTO 80";
    case 2: { std::string cond = c.pick(2) ? "X" : "Y"; std::string t = stmts(c, depth - 1, tag, false); return "IF " + cond + " THEN " + t; }
    default: { std::string cond = c.pick(2) ? "X" : "Y"; std::string t = stmts(c, depth - 1, tag, false), e = stmts(c, depth - 1, tag, true); return "IF " + cond + " THEN " + t + " ELSE " + e; }
  }
}
static std::string stmts(Chooser& c, int depth, int& tag, bool) {
  std::string s = stmt(c, depth, tag);
  if (c.pick(2)) { tag += 10; s += ":PRINT " + num(tag) + ";"; }
  return s;
}
// deeper nesting, with only PRINT as simple statement
static std::string deep(Chooser& c, int depth, int& tag) {
  int n = depth > 0 ? 4 : 2, k = c.pick(n);
  if (k == 0) return "?" + num(++tag) + ";";
  if (k == 1) { tag += 2; return "?" + num(tag - 1) + ";:?" + num(tag) + ";"; }
  std::string s = std::string("IF ") + (c.pick(2) ? "X" : "Y") + " THEN " + deep(c, depth - 1, tag);
  if (k == 3) s += " ELSE " + deep(c, depth - 1, tag);
  return s;
}

G(C02) {
  c.sec("IF statements of every nesting");
  c.all([&](Chooser& ch) {
    int tag = 0; std::string s = stmts(ch, 2, tag, false);
    if (s.size() > 240) return;
    if (c.take()) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++)
      c.model(program(strf("10 X=%d:Y=%d|20 ", x, y) + s + "|30 PRINT \"next\"|40 END|80 PRINT \"eighty\""));
  });
  if (c.thorough) c.all([&](Chooser& ch) {
    int tag = 0; std::string s = deep(ch, 3, tag);
    if (s.size() > 240) return;
    if (c.take()) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) c.model(program(strf("10 X=%d:Y=%d|20 ", x, y) + s + "|30 ?\"next\""));
  });
  c.sec("all programs of branch statements");
  { VS L = {"PRINT X;", "GOTO 20", "GOTO 40", "GOTO 50", "IF X=2 THEN 40", "IF X<3 THEN 20", "IF X=1 THEN PRINT \"t\":GOTO 30 ELSE PRINT \"e\"", "IF X=1 THEN 50 ELSE 40", "IF X>1 THEN IF X>2 THEN 50 ELSE PRINT \"in\"", "ON X GOTO 30,20,50", "ON X-1 GOTO 20:PRINT \"fell\"", "IF X>4 THEN END ELSE GOTO 10", "END", "REM", "", "PRINT 1:GOTO 30:PRINT 2", "IF 1 THEN PRINT 5:IF 0 THEN 20 ELSE 40", "GOSUB 50:PRINT \"r\"", "RETURN", "DATA 1:GOTO 20"};
    int len = 3;
    sequences(L, len, len, [&](CVS v) { if (c.take()) c.model(program("10 X=X+1:IF X>6 THEN PRINT \"limit\":END|20 " + v[0] + "|30 " + v[1] + "|40 " + v[2] + "|50 PRINT \"fifty\";X:RETURN")); });
    if (c.thorough) sequences(L, 4, 4, [&](CVS v) { if (c.take()) c.model(program("10 X=X+1:IF X>6 THEN PRINT \"limit\":END|20 " + v[0] + "|30 " + v[1] + "|40 " + v[2] + "|45 " + v[3] + "|50 PRINT \"fifty\";X:RETURN")); }); }
  c.sec("pairs of statements on one line");
  { VS S = {"PRINT X;", "GOTO 60", "IF X THEN 60", "IF X THEN PRINT \"t\";", "IF X THEN PRINT \"t\"; ELSE PRINT \"e\";", "IF X THEN 60 ELSE 70", "IF X THEN PRINT \"t\"; ELSE 70", "IF X THEN 60 ELSE PRINT 3", "ON X+1 GOTO 60,70", "ON X GOTO 60", "END", "STOP", "REM x", "DATA 5", "", "X=1-X", "IF X THEN", "IF X THEN ELSE PRINT \"e\";", "IF X THEN PRINT \"t\"; ELSE", "IF X THEN DATA 1 ELSE PRINT \"d\"", "IF X THEN REM ELSE PRINT 9", "IF X THEN GOTO 60 ELSE GOSUB 80", "GOSUB 80", "ELSE PRINT 4", "IF X THEN END ELSE STOP"};
    sequences(S, 1, 3, [&](CVS v) { if (c.take()) for (int x = 0; x < 2; x++) c.model(program("10 X=" + num(x) + "|20 " + join(v, ":") + "|30 PRINT \"thirty\";:END|60 PRINT \"sixty\":END|70 PRINT \"seventy\":END|80 PRINT \"sub\";:RETURN")); });
    c.sec("branches inside branches");
    for (auto& a : S) for (auto& b : S) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) if (c.take()) c.model(program(strf("10 X=%d:Y=%d|20 IF Y THEN ", x, y) + a + " ELSE " + b + "|30 PRINT \"thirty\";:END|60 PRINT \"sixty\":END|70 PRINT \"seventy\":END|80 PRINT \"sub\";:RETURN"));
  }
  c.sec("every kind of statement in every branch");
  { VS K = {"PRINT \"p\";", "?X;", "LET Z=Z+1", "Z=Z+2", "DATA 5,6", "DEF FNA(Q)=Q+9", "DIM W(3)", "READ Z", "RESTORE", "RESTORE 90", "FOR I=1 TO 2:PRINT I;:NEXT", "FOR I=1 TO 2", "NEXT", "GOSUB 80", "GOTO 60", "ON 1 GOTO 60", "ON 1 GOSUB 80", "ON 5 GOTO 60", "STOP", "END", "RETURN", "REM r", "CLEAR", "CLS", "RANDOMIZE 1", "INPUT Z", "LINE INPUT A$", "", "IF Y THEN PRINT \"y\";", "IF Y THEN 60", "IF Y THEN PRINT \"y\"; ELSE PRINT \"n\";", "PRINT FNA(1)", "A$=\"ELSE\"", "W(1)=4"};
    VS ctx = {"IF X THEN %:@ ELSE PRINT \"e\";:PRINT \"f\";", "IF X THEN PRINT \"t\"; ELSE %:@", "IF X THEN % ELSE @", "IF X THEN IF Y THEN % ELSE @", "IF X THEN %:IF Y THEN @ ELSE PRINT \"g\";", "IF X THEN IF Y THEN %:@ ELSE PRINT \"h\"; ELSE PRINT \"k\";", "PRINT \"b\";:IF X THEN PRINT 1;:%:PRINT 2;:@:PRINT 3; ELSE PRINT 4;", "%:IF X THEN @ ELSE PRINT \"m\";"};
    for (auto& a : K) for (auto& b : K) for (auto& t : ctx) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { if (!c.take()) continue; std::string s; for (char ch : t) if (ch == '%') s += a; else if (ch == '@') s += b; else s += ch;
      Case k = program(strf("5 DEF FNA(Q)=Q|10 X=%d:Y=%d|20 ", x, y) + s + "|30 PRINT \"thirty\";Z;A$;W(1);FNA(1):READ Z:PRINT Z:END|60 PRINT \"sixty\";Z;X:END|80 PRINT \"sub\";:RETURN|90 DATA 31,32"); k.in = {"8\n", "9\n", "7\n"}; k.sysret = 0; c.model(k); } }
  c.sec("ON with every value");
  for (auto x : {"-1", "0", ".5", "1", "1.5", "2", "2.999", "3", "4", "5", "6", "1E10", "4294967297", "65537", "257", "-255", "-4294967295", "1E300", "\"1\"", "A$"})
    for (int n = 1; n <= 5; n++) for (auto kind : {"GOTO", "GOSUB"}) for (auto tail : {"", ":PRINT \"tail\"", ":ON 1 GOTO 110"}) {
      std::string l; for (int i = 0; i < n; i++) l += (i ? "," : "") + num(100 + 10 * i);
      model_program(c, std::string("10 PRINT \"a\"|20 ON ") + x + " " + kind + " " + l + tail + "|30 PRINT \"fell\"|40 END|100 PRINT 100:IF " + (kind[2] == 'S' ? "1" : "0") + " THEN RETURN|105 END|110 PRINT 110:IF " + (kind[2] == 'S' ? "1" : "0") + " THEN RETURN|115 END|120 PRINT 120|125 END|130 PRINT 130|135 END|140 PRINT 140|145 END");
    }
  for (int n = 1; n <= 40; n++) for (int x = 0; x <= n + 1; x++) { std::string l, p; for (int i = 0; i < n; i++) { l += (i ? "," : "") + num(100 + i); p += "|" + num(100 + i) + " PRINT " + num(i) + ":END"; } model_program(c, "10 ON " + num(x) + " GOTO " + l + ":PRINT \"tail\"|20 PRINT \"fell\":END" + p); }
  c.sec("missing targets");
  { VS br = {"GOTO %", "GOSUB %", "IF 1 THEN %", "IF 0 THEN %", "IF 0 THEN 30 ELSE %", "IF 1 THEN 30 ELSE %", "ON 1 GOTO %", "ON 2 GOTO 30,%", "ON 1 GOTO 30,%", "ON 3 GOTO %,%", "ON 1 GOSUB %", "RESTORE %", "IF 1 THEN GOTO %", "IF 0 THEN GOTO %"};
    for (auto& s : br) for (auto t : {"1", "5", "10", "15", "20", "25", "30", "35", "40", "60", "397", "407", "417", "65535", "65534", "65536", "0"}) {
      std::string x; for (char ch : s) if (ch == '%') x += t; else x += ch;
      model_program(c, "5 N=N+1:IF N>2 THEN PRINT N:END|10 PRINT \"ten\"|20 " + x + ":PRINT \"after\"|30 PRINT \"thirty\"|40 PRINT \"forty\"|65535 PRINT \"last\"");
      model_session(c, "10 PRINT \"ten\"|30 PRINT \"thirty\":RETURN|40 PRINT \"forty\"|" + x + ":PRINT \"after\"|PRINT \"alive\"|RUN|" + x); } }
  c.sec("targets among many lines");
  for (int n : {2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400}) for (int step : {1, 2, 10, 100, 79, 397}) {
    if ((long)n * step + 1 > 65534) continue;
    for (int t = 0; t < n; t += (n < 5 ? 1 : n / 4)) { if (!c.take()) continue; Case k; k.argv = {"-q", "P"}; std::string p; for (int i = 0; i < n; i++) p += num(1 + (long)i * step) + " PRINT " + num(i) + ";:A=A+1:IF A<3 THEN GOTO " + num(1 + (long)((t * 7 + i * 5) % n) * step) + " ELSE END\n"; k.files["P"] = p; c.model(k); } }
  c.sec("END and the end of the program");
  for (auto e : {"END", "IF 1 THEN END", "ON 1 GOTO 50", "GOTO 50", "", "REM", "FOR I=1 TO 2:END", "GOSUB 50", "PRINT \"x\":END:PRINT \"y\"", "IF 0 THEN PRINT ELSE END"}) for (auto l : {"50 END", "50 REM", "50", "50 PRINT 50", "50 DATA 1", "50 RETURN", "50 GOTO 60|60 END", "50 END|60 PRINT \"no\""}) { model_program(c, std::string("10 PRINT 1|20 ") + e + "|" + l); model_session(c, std::string("10 PRINT 1|20 ") + e + "|" + l + "|RUN|PRINT \"p\"|GOTO 50|PRINT \"q\"|GOTO 20|CONT"); }
}

G(C03) {
  c.sec("all programs of loop statements");
  { VS L = {"FOR I=1 TO 2", "FOR I=2 TO 1", "FOR J=3 TO 1 STEP -1", "FOR K=1 TO I", "NEXT", "NEXT I", "NEXT J", "NEXT I,J", "NEXT K,J,I", "J=J+1", "GOSUB 90", "IF C=3 THEN GOTO 90", "FOR J=I TO I+1:PRINT \"b\";:NEXT"};
    auto run = [&](int len) { sequences(L, len, len, [&](CVS v) { if (c.take()) { std::string p = "5 DEF FNP(X)=X"; for (int i = 0; i < len; i++) p += "|" + num(10 + i * 10) + " " + v[i] + ":PRINT \"" + std::string(1, 'A' + i) + "\";I;J;K:C=C+1:IF C>25 THEN END"; c.model(program(p + "|80 PRINT \"end\";I;J;K:END|90 NEXT:PRINT \"s\":RETURN")); } }); };
    run(1); run(2); run(3); run(4); if (c.thorough) run(5); }
  c.sec("starts, limits and steps");
  { VS v = {"-2", "-1", "-.5", "0", ".5", "1", "1.5", "2", "3"}; VS st = {"", " STEP 1", " STEP 2", " STEP .5", " STEP .1", " STEP -1", " STEP -.5", " STEP -2", " STEP 3", " STEP 0", " STEP 1E10", " STEP 1.5"};
    for (auto& a : v) for (auto& b : v) for (auto& s : st) for (auto tail : {"", " I"}) model_program(c, "10 FOR I=" + a + " TO " + b + s + "|20 PRINT I;:N=N+1:IF N>30 THEN PRINT \"many\":END|30 NEXT" + tail + "|40 PRINT \"done\";I;N");
    for (auto& a : v) for (auto& b : v) for (auto& s : st) model_session(c, "FOR I=" + a + " TO " + b + s + ":PRINT I;:N=N+1:IF N<20 THEN NEXT|PRINT \"done\";I;N|NEXT|FOR I=1 TO 2:PRINT I;:NEXT");
    for (auto& x : {"1E10", "1E300", "-1E300", "4294967296", "1E-300"}) model_program(c, std::string("10 FOR I=1 TO ") + x + "|20 N=N+1:IF N>3 THEN END|25 PRINT I|30 NEXT|40 PRINT \"d\";I"); }
  c.sec("bounds are taken once, the index is a variable");
  { VS bodies = {"L=L+1", "S=S+1", "L=1", "S=-S", "I=I+1", "I=I+.5", "I=L", "I=10", "L=L-1:S=2", "I=I", "I=-I", "GOSUB 100", "READ I", "I=I*2:L=I", "FOR L=1 TO 2:NEXT L", "FOR S=1 TO 1:NEXT", "FOR I=1 TO 2", "Q(I)=I:I=Q(1)", "IF I=2 THEN FOR I=5 TO 6"};
    for (auto& b : bodies) for (auto& b2 : bodies) for (auto f : {"FOR I=1 TO L STEP S", "FOR I=L TO 1 STEP -S", "FOR I=S TO L", "FOR I=I TO I+L", "FOR I=1 TO L-I STEP S+I"}) for (auto nx : {"NEXT", "NEXT I"}) model_program(c, std::string("10 L=4:S=1|20 ") + f + "|30 C=C+1:IF C>20 THEN PRINT \"C\":END|40 PRINT I;L;S;\",\";|50 " + b + "|60 " + b2 + "|70 " + nx + "|80 PRINT \"done\";I;L;S:END|90 DATA 3,1,2,5,7|100 I=I+1:RETURN"); }
  c.sec("how many loops fit");
  { const char* V[] = {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"};
    for (int n = 1; n <= 10; n++) for (int order = 0; order < 4; order++) for (int again = 0; again <= n; again++) {
      std::string p; int ln = 10;
      for (int i = 0; i < n; i++) { p += num(ln) + " FOR " + V[i] + "=1 TO 2:T=T+1|"; ln += 10; }
      if (again) { p += num(ln) + " FOR " + V[again - 1] + "=1 TO 2:T=T+1|"; ln += 10; }
      p += num(ln) + " K=K+1:IF K>400 THEN PRINT \"K\";T:END|"; ln += 10;
      for (int i = 0; i < n; i++) { p += num(ln) + (order == 0 ? " NEXT" : order == 1 ? std::string(" NEXT ") + V[n - 1 - i] : order == 2 ? std::string(" NEXT ") + V[i] : std::string(" NEXT ") + V[(i * 3) % n]) + "|"; ln += 10; }
      p += num(ln) + " PRINT T;K;A;B;C;D;E;F;G;H;I;J"; model_program(c, p); }
    for (int n = 1; n <= 10; n++) { std::string p = "10 "; for (int i = 0; i < n; i++) p += strf("FOR %s=%d TO %d:", V[i], i, i + 1); p += "PRINT A;B;C;D;E;F;G;H;I;J:T=T+1:IF T>40 THEN END"; std::string nx; for (int i = n; i--; ) nx += std::string(nx.empty() ? "" : ",") + V[i]; model_program(c, p + "|20 NEXT " + nx + "|30 PRINT \"d\";A;B;C"); } 
    // loops abandoned by jumps are still in progress
    for (int n = 1; n <= 12; n++) for (int k = 0; k <= n; k++) { std::string p; for (int i = 0; i < n; i++) p += num(10 + i * 10) + " FOR " + std::string(i == k ? "A" : V[i % 10]) + "=1 TO 3:IF " + V[i % 10] + "<3 THEN " + num(20 + i * 10) + "|"; p += num(10 + n * 10) + " Z=Z+1:IF Z>9 THEN END|" + num(20 + n * 10) + " PRINT A;B;C;D;E;F;G;H;I;J|" + num(30 + n * 10) + " NEXT A"; model_program(c, p); } }
  c.sec("loops in lines, conditions, subroutines and immediate statements");
  { VS P = {"10 FOR I=1 TO 3:PRINT I;:NEXT:PRINT \"e\"", "10 FOR I=1 TO 2:FOR J=1 TO 2:PRINT I;J;:NEXT J,I:PRINT \"e\"", "10 FOR I=1 TO 3:IF I=2 THEN NEXT:PRINT \"n\" ELSE PRINT \"x\";I:NEXT|20 PRINT \"end\";I", "10 IF 1 THEN FOR I=1 TO 3:PRINT I;:NEXT:PRINT \"a\" ELSE PRINT \"b\"", "10 FOR I=1 TO 2:GOSUB 100:NEXT:END|100 FOR J=1 TO 2:PRINT I;J:RETURN|110 PRINT \"no\"", "10 FOR I=1 TO 3:GOSUB 100:PRINT \"m\";I:END|100 NEXT:PRINT \"s\";I:RETURN", "10 GOSUB 100:NEXT:PRINT I:END|100 FOR I=1 TO 3:PRINT \"r\";I:RETURN", "10 FOR I=1 TO 4:ON I GOTO 20,30,20,30|20 PRINT \"a\";:NEXT|25 PRINT \"q\":END|30 PRINT \"b\";:NEXT|40 PRINT \"done\"", "10 FOR I=1 TO 3|20 FOR J=1 TO 3|30 IF J=2 THEN 50|40 NEXT J|50 PRINT I;J|60 NEXT I|70 NEXT J|80 PRINT \"z\";I;J", "10 NEXT", "10 NEXT I", "10 FOR I=1 TO 2:NEXT J", "10 FOR I=1 TO 2:NEXT:NEXT", "10 FOR I$=1 TO 2:NEXT", "10 FOR I(1)=1 TO 2:NEXT", "10 FOR I=1 TO 2:NEXT I$", "10 FOR I=\"1\" TO 2", "10 FOR I=1 TO 2 STEP \"1\"", "10 FOR I=1", "10 FOR I=1 TO 3:NEXT I,", "10 NEXT ,I", "10 FOR I=1 TO LOG(0)", "10 I=7:FOR I=LOG(0) TO 2|", "10 FOR I=1 TO 2:FOR I=5 TO 6:PRINT I:NEXT:NEXT", "10 FOR I=1 TO 2:DEF FNA(I)=I*10:PRINT FNA(7);I:NEXT:PRINT I", "10 DIM I(5):FOR I=1 TO 3:I(I)=I*I:NEXT:FOR I=1 TO 3:PRINT I(I):NEXT", "10 FOR I=1 TO 3:READ I:PRINT I:NEXT|20 DATA 1,2,3,4", "10 FOR II=1 TO 2:FOR I=1 TO 2:PRINT II;I:NEXT II:NEXT I", "10 FOR i=1 TO 2:PRINT I:NEXT I", "10 FOR I=1 TO 2:CLEAR:PRINT I:T=T+1:NEXT"};
    for (auto& p : P) { model_program(c, p); model_session(c, p + "|RUN|NEXT|PRINT I;J|NEXT I|FOR I=1 TO 2:PRINT I;:NEXT|PRINT I|GOTO 10|NEXT J"); }
    VS ev = {"FOR I=1 TO 3", "NEXT", "NEXT I", "GOTO 20", "GOTO 30", "RUN", "PRINT I;J", "FOR I=5 TO 6:PRINT I;:NEXT", "FOR J=1 TO 2:PRINT \"j\";J:GOTO 30", "NEXT J", "I=2", "GOSUB 30", "CLEAR", "50 REM"};
    c.histories({"-q"}, {"10 FOR I=1 TO 2", "20 PRINT \"body\";I:K=K+1:IF K>6 THEN END", "30 NEXT I", "40 PRINT \"end\";I:STOP"}, ev, {"PRINT I;J", "NEXT", "NEXT"}, c.thorough ? 5 : 4); }
}

G(C04) {
  c.sec("all programs of calls");
  { VS L = {"GOSUB 100:PRINT \"a\";", "GOSUB 200:GOSUB 100:PRINT \"b\";", "RETURN", "GOTO 40", "ON X GOSUB 100,200:PRINT \"c\";", "IF X=2 THEN GOSUB 100:PRINT \"t\"; ELSE GOSUB 200:PRINT \"e\";", "FOR I=1 TO 2:GOSUB 100:PRINT \"l\";:NEXT", "IF X<2 THEN GOSUB 20:PRINT \"rec\";", "IF X THEN RETURN", "END", "GOSUB 300:PRINT \"d\";", "IF X=1 THEN GOSUB 30:PRINT \"g\""};
    auto run = [&](int n) { sequences(L, n, n, [&](CVS v) { if (!c.take()) return; std::string p = "10 X=X+1:PRINT \"<\";X;\">\";:IF X>5 THEN PRINT \"limit\":END"; for (int i = 0; i < n; i++) p += "|" + num(20 + i * 10) + " " + v[i]; c.model(program(p + "|90 PRINT \"end\":END|100 PRINT 100;:RETURN|200 PRINT 200;:GOSUB 100:PRINT 201;:RETURN|300 GOTO 20")); }); };
    run(1); run(2); run(3); if (c.thorough) run(4); }
  c.sec("call depth");
  for (int n = 1; n <= 12; n++) for (auto kind : {"GOSUB 100", "ON 1 GOSUB 100", "ON N+1 GOSUB 100,100,100,100,100,100,100,100,100,100,100,100,100", "IF 1 THEN GOSUB 100"}) for (auto tail : {"", ":PRINT \"t\";N"}) {
    model_program(c, strf("10 M=%d|20 %s%s|30 PRINT \"back\";N:END|100 N=N+1:IF N<M THEN %s%s|110 PRINT \"ret\";N:N=N-1:RETURN", n, kind, tail, kind, tail));
    model_session(c, strf("10 M=%d|20 %s%s|30 PRINT \"back\";N:END|100 N=N+1:IF N<M THEN %s%s|110 PRINT \"ret\";N:N=N-1:RETURN|RUN|PRINT N|RETURN|PRINT N|N=0:M=%d:GOSUB 100:PRINT \"im\"|RETURN|RUN|RETURN|RETURN", n, kind, tail, kind, tail, n));
    if (c.take()) { Check k; k.oracle = "stderr"; k.param = n > 8 ? "GOSUB is nested too deeply" : "!nested too deeply"; k.cases.push_back(program(strf("10 M=%d|20 %s%s|30 PRINT \"back\";N:END|100 N=N+1:IF N<M THEN %s%s|110 PRINT \"ret\";N:N=N-1:RETURN", n, kind, tail, kind, tail))); c.run(k); }
  }
  c.sec("calls at every position of a line");
  { VS pre = {"", "PRINT \"p\";:", "IF 1 THEN ", "IF 0 THEN PRINT \"no\" ELSE ", "FOR I=1 TO 2:", "DATA 3:", ":", "X=1:IF X THEN IF X THEN ", "ON 1 GOTO 20:", "REM:"}, call = {"GOSUB 100", "ON 2 GOSUB 200,100", "ON 0 GOSUB 100", "ON 3 GOSUB 100,200", "GOSUB 200", "GOSUB 150", "ON 1.5 GOSUB 100", "ON 2 GOSUB 100,150", "GOSUB 100,200"}, post = {"", ":PRINT \"q\"", ":NEXT", " ELSE PRINT \"else\"", ":GOSUB 200:PRINT \"w\"", ":END", ":", ":REM x", ":RETURN", ":IF 1 THEN PRINT 7", ":GOSUB 100:GOSUB 100:PRINT \"3\"", ":STOP"};
    for (auto& a : pre) for (auto& b : call) for (auto& d : post) { model_program(c, "10 " + a + b + d + "|20 PRINT \"next\";I:C=C+1:IF C>3 THEN END|30 RETURN|100 PRINT 100;:RETURN|200 PRINT 200;:GOSUB 100:RETURN:PRINT \"no\""); model_session(c, "20 PRINT \"next\"|30 RETURN|100 PRINT 100;:RETURN|200 PRINT 200;:GOSUB 100:RETURN:PRINT \"no\"|" + a + b + d + "|PRINT \"p\"|RETURN|" + a + b + d + "|GOSUB 100:RETURN"); } }
  c.sec("return places");
  { VS R = {"RETURN", "IF 1 THEN RETURN", "IF 0 THEN PRINT ELSE RETURN", "FOR J=1 TO 3:RETURN", "FOR I=1 TO 2:NEXT:RETURN", "GOTO 900", "GOSUB 900:RETURN", "GOSUB 900:GOSUB 900:RETURN", "ON 1 GOTO 900", "ON 1 GOSUB 900:RETURN", "PRINT \"z\":RETURN:PRINT \"no\"", "END", "STOP", "PRINT 1/0:PRINT LOG(0):RETURN", "NEXT:RETURN", "RETURN:RETURN", "X=X+1:IF X<3 THEN GOSUB 100:RETURN ELSE RETURN", "X=X+1:IF X<3 THEN 100 ELSE RETURN", ""};
    for (auto& a : R) for (auto& b : R) for (auto m : {"GOSUB 100:PRINT \"m1\";:GOSUB 200:PRINT \"m2\"", "FOR I=1 TO 2:GOSUB 100:PRINT \"l\";I:NEXT", "ON 2 GOSUB 200,100:PRINT \"o\"", "IF 1 THEN GOSUB 100:PRINT \"i\":GOSUB 200:PRINT \"j\" ELSE PRINT \"x\"", "GOSUB 100:GOSUB 100:GOSUB 200"}) model_program(c, std::string("10 ") + m + "|20 PRINT \"end\";X:END|100 PRINT 100;:" + a + "|200 PRINT 200;:" + b + "|210 PRINT \"fall\":C=C+1:IF C>3 THEN END|900 PRINT 900;:RETURN"); }
  c.sec("call histories of a session");
  { VS ev = {"GOSUB 100:PRINT \"a\"", "GOSUB 200:PRINT \"b\"", "RETURN", "GOTO 300", "RUN", "GOSUB 300", "FOR I=1 TO 2:GOSUB 100:NEXT", "CONT", "5 REM", "CLEAR", "PRINT \"x\"", "GOSUB 150", "GOSUB 400:PRINT \"n\""};
    c.histories({"-q"}, {"10 GOSUB 200:PRINT \"main\":STOP", "20 RETURN", "100 PRINT 100;:RETURN", "200 PRINT 200;:GOSUB 100:RETURN", "300 PRINT 300:GOSUB 400:PRINT 301:RETURN", "400 STOP:PRINT 401:RETURN"}, ev, {"RETURN", "PRINT \"y\""}, c.thorough ? 5 : 4); }
}

G(C05) {
  c.sec("all placements of items and reads");
  { VS L = {"DATA 1,2", "DATA a b , \"c,d\"", "READ X:PRINT X;", "READ S$:PRINT \"[\";S$;\"]\";", "RESTORE", "RESTORE 30", "RESTORE 50", "READ X,S$:PRINT X;S$;", "GOTO 60", "DATA 7:READ X:PRINT X;:DATA 8", "IF X=1 THEN RESTORE 40", "REM DATA 9", "READ Q(X),X:PRINT Q(1);X;"};
    auto run = [&](int n) { sequences(L, n, n, [&](CVS v) { if (!c.take()) return; std::string p = "10 C=C+1:IF C>3 THEN END|15 REM"; for (int i = 0; i < n; i++) p += "|" + num(20 + i * 10) + " " + v[i]; c.model(program(p + "|80 READ Z$:PRINT Z$|85 GOTO 10|90 DATA 5,6,7,8,9")); }); };
    run(2); run(3); run(4); if (c.thorough) run(5); }
  c.sec("item forms");
  { int lim = c.thorough ? 6 : 5; static VS buf;
    strings({"a", "1", " ", "\"", ",", ":", "-", "E"}, lim, [&](const std::string& s) {
      buf.push_back(s); if (buf.size() < 16) return;
      if (c.take()) { Case k; k.argv = {"-q"}; for (auto& t : buf) { k.in.push_back("READ A$:PRINT \"[\";A$;\"]\";:READ B$:PRINT \"[\";B$;\"]\":DATA" + t + "\n"); k.in.push_back("READ A:PRINT A;:READ B:PRINT B:DATA " + t + "\n"); } c.model(k); }
      buf.clear(); });
    for (auto t : {"REM", "a REM b", "a'b", "END", "a:PRINT 9", "a ELSE b", "DATA", "a;b", "(a)", "a\tb", "\ta\t", "\"a\"b", "a\"b\"", "\"\"", "\"\",\"\"", ",", ",,", ",a,", "\"unterminated", "a,\"unterminated", "1.5E3", "-5", "+5", ".5", "1 2", "- 5", "0x1F", "inf", "1e400", "\"5\"", "\" 5 \"", "\"5x\"", "12:PRINT 8:DATA 13", "GOTO 10", "<>", "$", "%", "{}", "\\", "~", "\x7f", "a\x80" "b", "\"a\x80\"", "\x01", "\"\x01\"", "a\rb", "a\r", "\"a\"\r"}) for (auto r : {"READ A$,B$,C$:PRINT \"[\";A$;\"][\";B$;\"][\";C$;\"]\"", "READ A,B,C:PRINT A;B;C", "READ A$,B,C$:PRINT A$;B;C$"}) {
      model_program(c, std::string("10 ") + r + "|20 DATA " + t + "|30 DATA 2,3,4"); model_program(c, std::string("10 IF 0 THEN DATA ") + t + "|20 DATA 2,3,4|30 " + r); model_session(c, std::string("10 DATA ") + t + "|20 DATA 2,3,4|" + r + "|" + r + "|RESTORE|" + r + "|RESTORE 20:" + r + "|RUN|LIST"); } }
  c.sec("histories of a session");
  { VS ev = {"READ X:PRINT X", "READ S$:PRINT S$", "RESTORE", "RESTORE 20", "RESTORE 25", "RESTORE 30", "RESTORE 40", "RUN", "READ X,Y:PRINT X;Y:DATA 77,88", "READ X:READ Y:PRINT X;Y:DATA 66", "GOTO 50", "25 DATA 25", "10", "CLEAR", "RESTORE:READ X:PRINT X:DATA 55"};
    c.histories({"-q"}, {"10 DATA 1,2", "20 REM", "30 DATA x,3", "40 PRINT \"forty\":DATA 4", "50 READ A$:PRINT A$:IF A$=\"2\" THEN STOP"}, ev, {"READ Z$:PRINT Z$"}, c.thorough ? 5 : 4);
    VS ev2 = {"READ X:PRINT X", "READ X,Y$:PRINT X;Y$", "RESTORE 10", "RESTORE 30", "CONT", "RUN", "DATA 3", "READ X:DATA q", "20 DATA 20", "NEW", "30"};
    c.histories({"-q"}, {"10 DATA 1,b", "30 STOP:READ A,B$:PRINT A;B$:STOP", "40 DATA 4,d"}, ev2, {"READ Z$:PRINT Z$", "CONT"}, c.thorough ? 5 : 4); }
  c.sec("RESTORE to every line");
  for (int mask = 0; mask < 64; mask++) for (int t = 0; t <= 7; t++) { std::string p = "10 RESTORE " + num(t * 10 + 20) + "|15 READ A$:PRINT A$;:READ A$:PRINT A$"; for (int i = 0; i < 6; i++) p += "|" + num(20 + i * 10) + (mask >> i & 1 ? " DATA " + num(i) : " PRINT \"l\"" + num(i)); model_program(c, p); model_program(c, p + ",x" + num(mask)); }
  c.sec("many items");
  for (int n : {1, 2, 60, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 300, 600}) for (int per : {1, 3, 20}) { if (!c.take()) continue; std::string p = "1 FOR I=1 TO " + num(n) + ":READ A:S=S+A*I:IF A<>I*3 THEN PRINT \"bad\";I;A|2 NEXT:PRINT S:RESTORE " + num(10 + n / per / 2) + ":READ A:PRINT A:RESTORE:READ A:PRINT A|3 FOR I=2 TO " + num(n) + ":READ A:NEXT:READ A\n"; Case k = program(p); for (int i = 0; i < n; ) { k.files["P"] += num(10 + i / per) + " DATA "; for (int j = 0; j < per && i < n; j++, i++) k.files["P"] += (j ? "," : "") + num((i + 1) * 3); k.files["P"] += "\n"; } size_t q; while ((q = k.files["P"].find("\n\n")) != std::string::npos) k.files["P"].erase(q, 1); Check ck{"model", {k}, "long"}; c.run(ck); }
  for (int n = 120; n <= 132; n++) for (auto q : {"", "\""}) { model_program(c, std::string("10 READ A$,B$:PRINT A$;LEN(A$);B$|20 DATA ") + q + rep("d", n) + q + ",z"); model_program(c, std::string("10 READ A$,B$:PRINT A$;LEN(A$);B$|20 DATA   ") + q + rep("d", n - 3) + " e" + q + "   ,z"); }
}

G(C06) {
  c.sec("independent cells of small arrays");
  for (int m = 0; m <= 4; m++) for (int n = -1; n <= 4; n++) for (auto ty : {"", "$"}) for (int order = 0; order < 3; order++) for (int automatic = 0; automatic < 2; automatic++) {
    if (!c.take()) continue; std::string A = std::string("A") + ty, B = std::string("B") + ty, C = std::string("C") + ty;
    std::string d = n < 0 ? "(" + num(m) + ")" : "(" + num(m) + "," + num(n) + ")";
    std::string p = automatic ? "" : "DIM " + A + d + "," + B + d + "," + C + d + "|"; int k = 0; VS st;
    for (int i = 0; i <= m; i++) for (int j = 0; j <= (n < 0 ? 0 : n); j++) { std::string ix = n < 0 ? "(" + num(i) + ")" : "(" + num(i) + "," + num(j) + ")"; k++; auto v = [&](int x) { return *ty ? "\"v" + num(x) + "\"" : num(x); }; st.push_back(B + ix + "=" + v(k)); st.push_back(A + ix + "=" + v(k + 100)); st.push_back(C + ix + "=" + v(k + 200)); }
    if (order == 1) std::reverse(st.begin(), st.end());
    if (order == 2) { VS t; for (size_t i = 0; i < st.size(); i++) t.push_back(st[(i * 7 + 3) % st.size()]); if (st.size() % 7) st = t; }
    std::string dump; for (int i = 0; i <= m; i++) for (int j = 0; j <= (n < 0 ? 0 : n); j++) { std::string ix = n < 0 ? "(" + num(i) + ")" : "(" + num(i) + "," + num(j) + ")"; dump += "PRINT " + A + ix + ";\",\";" + B + ix + ";\",\";" + C + ix + "|"; }
    for (size_t i = 0; i < st.size(); i++) { p += st[i] + "|"; if (i == st.size() / 2) p += dump; }
    p += dump + "PRINT A;A$;B;B$|PRINT " + A + (n < 0 ? "(" + num(m + 1) + ")" : "(" + num(m + 1) + ",0)") + "|PRINT " + A + (n < 0 ? "(0,0)" : "(0," + num(n + 1) + ")") + "|" + dump + "PRINT 0"; c.model(session(p)); }
  c.sec("every subscript against every shape");
  { VS decl = {"", "DIM A(0)", "DIM A(1)", "DIM A(3)", "DIM A(10)", "DIM A(11)", "DIM A(3,2)", "DIM A(2,3)", "DIM A(0,0)", "DIM A(1,0)", "DIM A(12,12)", "A(5)=1", "A(12)=1", "A(2,2)=1", "A(12,3)=1", "A(3,12)=1", "PRINT A(15)", "DIM A(65535)", "DIM A(255,255)", "DIM A(1,32767)"};
    VS sub = {"0", "1", "2", "3", "4", "10", "11", "12", "13", "15", "16", "-1", "-0", ".5", "1.5", "2.999999", "255", "256", "32767", "32768", "65535", "65536", "4294967295", "4294967296", "4294967297", "1E10", "1E300", "-4294967295", "1E-300"};
    for (auto ty : {"", "$"}) { std::string val = *ty ? "\"v\"" : "7", A = std::string("A") + ty;
      for (auto d : decl) { if (*ty) { std::string e;
          for (size_t i = 0; i < d.size(); i++) { e += d[i]; if (d[i] == 'A' && i + 1 < d.size() && d[i + 1] == '(') e += "$"; } if (e.back() == '1' && e.find('=') != std::string::npos) { e.pop_back(); e += "\"1\""; } d = e; }
        for (auto& i : sub) { std::string s = d + "|" + A + "(" + i + ")=" + val + "|PRINT " + A + "(" + i + ")|PRINT " + A + "(0);" + A + "(1);" + A + "(2);" + A + "(10)|PRINT " + A + "(11)|PRINT " + A + "(1,1)|A(20)=1:PRINT A(20);A|PRINT " + A + "(" + i + ")"; model_session(c, s);
          model_session(c, d + "|X" + ty + "=" + A + "(" + i + "):PRINT X" + ty + "|PRINT " + A + "(10)|PRINT " + A + "(11)|PRINT " + A + "(0,0)");
          for (auto j : {"0", "2", "3", "10", "11", "12", "-1", ".5", "255", "256", "65536", "4294967296", "1E300"}) { model_session(c, d + "|" + A + "(" + i + "," + j + ")=" + val + "|PRINT " + A + "(" + i + "," + j + ")|PRINT " + A + "(0,0);" + A + "(2,2);" + A + "(10,2);" + A + "(2,10)|PRINT " + A + "(10)|PRINT " + A + "(11,0)|PRINT " + A + "(0,11)"); } }
        for (auto x : {"(1,1,1)", "(1,1,1,1)", "()", "(\"1\")", "(1,\"1\")", "(1,)", "(,1)", "(1", "(LOG(0))", "(1,LOG(0))", "(A(1))", "(1)(1)"}) model_session(c, d + "|" + A + x + "=" + val + "|PRINT " + A + x + "|DIM " + A + x + "|PRINT " + A + "(1)|PRINT " + A + "(10,10)"); } } }
  c.sec("sizes");
  { VS sz = {"0", "1", "10", "65534", "65535", "65536", "65537", "131071", "131072", "1000000", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967306", "1E10", "1E300", "-1", ".5", "65535.5", "-4294967296"}, s2 = {"0", "1", "2", "3", "255", "256", "32767", "32768", "65535", "65536", "4294967295", "4294967296", "-1", ".5", "1E300", "21844", "21845"};
    for (auto ty : {"", "$"}) { std::string A = std::string("A") + ty, v = *ty ? "\"v\"" : "5";
      for (auto& a : sz) model_session(c, "B" + std::string(ty) + "(3)=" + v + "|DIM " + A + "(" + a + ")|" + A + "(" + a + ")=" + v + "|PRINT " + A + "(" + a + ");" + A + "(0);B" + ty + "(3)|PRINT " + A + "(10)|PRINT " + A + "(11)|DIM " + A + "(2)|PRINT " + A + "(2)|PRINT " + A + "(3)");
      for (auto& a : s2) for (auto& b : s2) model_session(c, "DIM " + A + "(" + a + "," + b + ")|" + A + "(" + a + "," + b + ")=" + v + "|PRINT " + A + "(" + a + "," + b + ");" + A + "(0,0)|PRINT " + A + "(10,10)|DIM " + A + "(2)|PRINT " + A + "(2)"); 
      for (auto& a : s2) model_session(c, A + "(" + a + ",3)=" + v + "|PRINT " + A + "(10,10)|PRINT " + A + "(" + a + ",10)|PRINT " + A + "(" + a + ",11)|PRINT " + A + "(3," + a + ")"); } }
  c.sec("edges of large arrays");
  for (auto d : {"65535", "1000", "255,255", "32767,1", "1,32767", "99,99"}) for (int k = 0; k < 2; k++) { std::string p = "10 DIM A(" + std::string(d) + "),B(20)"; VS dd = split(d, ','); long m = atol(dd[0].c_str()), n = dd.size() > 1 ? atol(dd[1].c_str()) : -1;
    if (n < 0) p += strf("|20 FOR I=%ld TO 0 STEP -97:A(I)=I+1:NEXT|30 A(%ld)=-1:B(0)=3:B(20)=4|40 FOR I=0 TO %ld STEP 89:S=S+A(I)*I:NEXT:PRINT S;A(0);A(%ld);A(%ld);B(0);B(20)", m, m, m, m, m - 1);
    else p += strf("|20 FOR I=0 TO %ld STEP %ld:FOR J=0 TO %ld STEP %ld:A(I,J)=I*1000+J+1:NEXT J,I|30 FOR I=%ld TO 0 STEP %ld:FOR J=0 TO %ld STEP %ld:S=S+A(I,J)*(I+1):NEXT J,I:PRINT S;A(0,0);A(%ld,%ld);A(%ld,0);A(0,%ld)", m, m / 8 + 1, n, n / 8 + 1, m, -(m / 7 + 1), n, n / 7 + 1, m, n, m, n);
    if (k) { std::string q; for (size_t i = 0; i < p.size(); i++) q += p[i]; p = q + "|50 DIM A(3):PRINT A(3);A(0):A(4)=1"; }
    if (c.take()) c.run(Check{"model", {program(p)}, "long"}); }
  c.sec("histories of a session");
  { VS ev = {"DIM A(3)", "DIM A(3,2)", "A(2)=A(2)+1", "A(12)=5", "A(1,1)=3", "PRINT A(2)", "DIM A$(2)", "A$(2)=A$(2)+\"s\"", "A$(3)=\"t\"", "CLEAR", "RUN", "A=9:A$=\"q\"", "DIM A(LOG(0))", "DIM A(-1)", "B(A(2))=1", "NEW"};
    c.histories({"-q"}, {"10 DIM B(4):B(1)=B(1)+1:A(1)=A(1)+B(1)"}, ev, {"PRINT A(2);A(1)", "PRINT A$(2);A;A$;B(1)", "PRINT A(1,1)", "PRINT A(3)"}, c.thorough ? 5 : 3); 
    c.bfs({"-q"}, {"10 DIM B(4):B(1)=B(1)+1:A(1)=A(1)+B(1)"}, ev, {"PRINT A(2);A(1)", "PRINT A$(2);A;A$;B(1)", "PRINT A(1,1)", "PRINT A(3)"}, c.thorough ? 20000 : 1500, 9); }
  c.sec("references in expressions");
  { Batch b(c, {"FOR I=0 TO 10:A(I)=10-I:A$(I)=CHR$(65+I):B(I)=I*I:NEXT:FOR I=0 TO 3:FOR J=0 TO 3:M(I,J)=I*10+J:NEXT J,I"}, 30);
    VS ix = {"0", "1", "A(1)", "A(A(2))", "B(2)-1", "A(B(3)-1)", "M(0,1)", "M(M(0,1),M(0,2))-10", "LEN(A$(3))", "ASC(A$(2))-65", "I-3", "11", "-A(10)", "A(0)/4"};
    for (auto& x : ix) { b.add("?A(" + x + ");A$(" + x + ");B(" + x + ")+A(" + x + ")*2"); for (auto& y : ix) { b.add("?M(" + x + "," + y + ");M(" + y + "," + x + ")"); b.add("N(" + x + ")=A(" + y + "):?N(" + x + ");N(1);N(0)"); b.add("M(" + x + "," + y + ")=M(" + y + "," + x + "):?M(" + x + "," + y + ")"); b.add("A$(" + x + ")=A$(" + y + ")+A$(1):?A$(" + x + ");A$(1);A$(0)"); b.add("READ A(" + x + "),B(" + y + "):?A(1);B(1):DATA 1,2"); } } }
}

G(C08) {
  c.sec("histories of a session");
  { VS ev = {"DEF FNA(X)=X+Y", "DEF FNA(Y)=X*Y", "DEF FNA(X)=FNB(X)+1", "DEF FNB(Z)=LOG(Z)", "DEF FNB(X)=X*X", "DEF FNS$(X)=S$+STR$(X)", "X=X+1", "Y=5", "S$=S$+\"s\"", "PRINT FNA(3);X;Y", "PRINT FNB(-1)", "PRINT FNA(FNA(2))", "PRINT FNS$(X);FNS$(Y)", "RUN", "CLEAR", "15 REM", "X=FNB(4):PRINT X", "FOR X=1 TO 2:PRINT FNA(9);X;:NEXT", "PRINT FNA(1,2)", "NEW", "PRINT FNA(1)+FNB(2)"};
    VS probe = {"PRINT FNA(3)", "PRINT FNB(2)", "PRINT FNS$(1)", "PRINT X;Y;Z;S$"};
    c.histories({"-q"}, {"10 DEF FNB(X)=X+100", "20 Y=7:PRINT FNB(Y);X"}, ev, probe, c.thorough ? 4 : 3);
    c.bfs({"-q"}, {"10 DEF FNB(X)=X+100", "20 Y=7:PRINT FNB(Y);X"}, ev, probe, c.thorough ? 20000 : 2000, 7); }
  c.sec("all programs of definitions and calls");
  { VS L = {"DEF FNA(X)=X*2+Y", "DEF FNA(Y)=X-Y", "DEF FNB(X)=FNA(X)", "DEF FNC$(X)=LEFT$(T$,X)", "X=3:Y=4", "PRINT FNA(10);", "PRINT FNA(X)+FNA(Y);", "PRINT FNB(1);", "T$=\"hello\":PRINT FNC$(2);", "Y=FNA(FNA(1))", "GOSUB 100", "X=FNA(Q(1))", "IF FNA(2)>5 THEN PRINT \"big\"; ELSE PRINT \"small\";"};
    auto run = [&](int n) { sequences(L, n, n, [&](CVS v) { if (!c.take()) return; std::string p = "5 Q(1)=2"; for (int i = 0; i < n; i++) p += "|" + num(10 + i * 10) + " " + v[i]; c.model(program(p + "|80 PRINT X;Y;T$:END|100 DEF FNA(X)=X+1000:PRINT FNA(X);:RETURN")); }); };
    run(1); run(2); run(3); if (c.thorough) run(4); }
  c.sec("bodies");
  { VS body = {"X", "1", "X+1", "X*X+Y", "Y", "A(X)", "A(X)+A(1)", "RND(X)", "VAL(STR$(X))", "ABS(X)", "LEN(S$)+X", "X AND 3", "NOT X", "-X", "X=Y", "X<Y OR X>Z", "LOG(X)", "SQR(X)", "A(X,X)", "FNG(X)", "FNF(X)", "S$", "X$", "\"lit\"", "LEFT$(S$,X)", "S$+STR$(X)", "CHR$(X)", "Z(X)", "(((X)))", "X^2-X/2", "ASC(MID$(S$,X))", "INT(X/2)*2", "X+", "X,Y", "", "X:PRINT 9", "FNF(X)+1", "TAB(X)", "1/0", "EXP(1000)", "A$(X)"};
    VS arg = {"0", "1", "2", "-1", "Y", "X", "X+Y", "A(1)", "FNG(1)", "LEN(S$)", "S$", "1,2", "", ".5", "1E10", "LOG(0)", "RND(1)*0+2", "VAL(\"3\")"};
    for (auto& b : body) for (auto ty : {"", "$"}) for (auto par : {"X", "Y", "W"}) { if (!c.take()) continue; std::string F = std::string("FNF") + ty; std::string s = "X=5:Y=6:Z=7:S$=\"string\":FOR I=0 TO 10:A(I)=I+.25:NEXT|DEF FNG(X)=X+Y|DEF " + F + "(" + par + ")=" + b; for (auto& a : arg) s += "|PRINT " + F + "(" + a + ")|PRINT X;Y;Z;W"; s += "|W=3:X=" + F + "(4):PRINT X;W|PRINT " + F + "(1);" + F + "(2);" + F + "(1)|X=0:PRINT " + F + "(X);X"; c.model(session(s)); } }
  c.sec("parameter restored after a failure");
  { VS def = {"DEF FNA(X)=LOG(X)", "DEF FNA(X)=X+FNZ(1)", "DEF FNA(X)=Q(X)", "DEF FNA(X)=VAL(S$)+X", "DEF FNA(X)=LEN(L$+L$)+X", "DEF FNA(X)=X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+(X+X))))))))))))))))", "DEF FNA(X)=FNA(X)", "DEF FNA(X)=FNB(X)", "DEF FNA(X)=ASC(CHR$(X))", "DEF FNA(X)=(X OR .5)", "DEF FNA(X)=X+LEN(MID$(S$,X))"};
    VS call = {"PRINT FNA(-1)", "PRINT FNA(-1.5)+1", "Y=FNA(-2)", "Q(FNA(-1))=1", "IF FNA(-1) THEN PRINT 1", "FOR Y=FNA(-1) TO 3", "PRINT 1;FNA(-1);2", "X=FNA(-1)", "S$=STR$(FNA(-1))", "PRINT FNA(300)", "PRINT FNA(1)", "PRINT FNA(FNA(-1))", "PRINT \"a\"+STR$(FNA(-1))", "PRINT 2*(3+FNA(-1))", "DIM R(FNA(-1))", "READ Q(FNA(-1))", "ON FNA(-1) GOTO 10", "GOSUB 100"};
    for (auto& d : def) for (auto& k : call) for (auto& k2 : call) if (c.take()) c.model(session("10 PRINT \"ten\"|100 PRINT FNA(-1):RETURN|DEF FNB(Z)=Z+X|X=42:Y=1:FOR I=1 TO 200:L$=L$+\"l\":NEXT|" + d + "|" + k + "|PRINT X;Y|PRINT FNB(1)|" + k2 + "|PRINT X;Y;S$|PRINT FNB(2)|DEF FNA(X)=X*3|PRINT FNA(2);X|RUN")); }
  c.sec("names of functions");
  { Batch b(c, {"X=1"}, 12);
    for (auto n : {"FNA", "FN", "F", "FNA$", "A1", "DOUBLE", "ABS", "LEN", "CHR$", "SPC", "TAB", "RND", "VAL", "A B", "1A", "A$", "DEF", "TO", "FNA(1)", "\"A\"", "TIME$", "USR", "HEX$", "X"}) { std::string N = n, v = N.back() == '$' ? "\"v\"" : "X+1"; b.add({"DEF " + N + "(X)=" + v, "PRINT " + N + "(4)", N + "=" + v, "PRINT " + N, N + "(1)=" + v, "DIM " + N + "(4)", "PRINT " + N + "(4);X"}); }
    for (auto d : {"DEF FNA(X$)=1", "DEF FNA(1)=1", "DEF FNA()=1", "DEF FNA=1", "DEF FNA(X,Y)=1", "DEF FNA(X(1))=1", "DEF FNA(X)", "DEF FNA(X)=", "DEF FNA(X)=\"s\"", "DEF FNA$(X)=1", "DEF FNA(ABS)=1", "DEF FNA(X)=1+\"s\"", "DEF", "DEF (X)=1", "DEF FNA X=1", "DEF FNA(X)=1,2", "DEF FNA(X)=1 ELSE PRINT 2", "DEF FNA(X)=1:PRINT FNA(X)", "IF 1 THEN DEF FNA(X)=8:PRINT FNA(1) ELSE DEF FNA(X)=9", "IF 0 THEN DEF FNA(X)=8 ELSE DEF FNA(X)=9:PRINT FNA(1)", "FNA(X)=5", "DIM FNA(5)"}) b.add({std::string(d), "PRINT FNA(2)", "PRINT FNA(1);X"}); }
  c.sec("many definitions");
  for (int n : {1, 2, 10, 60, 64, 65, 128, 130, 260}) { if (!c.take()) continue; std::string p; for (int i = 0; i < n; i++) p += num(10 + i) + " DEF F" + num(i) + "(X)=X*" + num(i) + "+Y\n"; p += "900 Y=3:X=8:FOR I=1 TO 3\n"; for (int i = 0; i < n; i += (n > 20 ? n / 10 : 1)) p += num(1000 + i) + " PRINT F" + num(i) + "(I);\n"; p += "5000 NEXT:PRINT X;Y\n"; Case k; k.argv = {"-q", "P"}; k.files["P"] = p; c.model(k); }
}
