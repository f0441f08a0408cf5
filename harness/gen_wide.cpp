// A ninth group: every kind of statement in parts that are passed over; characters of every code at every place of
// strings that are compared; functions called with any number of values pending; stops at every depth of calls and loops
// and of DATA; every mistake after programs of any size; long numbers with something after them; statements that chain
// as far as a line goes.
#include "gen.h"
#define W(id) void wide_##id(Ctx& c)
static void wide2_C09(Ctx&);
static void wide2_C25(Ctx&);
static void wide2_C13(Ctx&);
static void wide2_C02(Ctx&);
static void wide2_C11(Ctx&);
static void wide2_C19(Ctx&);
static void wide2_C08(Ctx&);
static void wide2_C03(Ctx&);
static void wide2_C15(Ctx&);
static void wide2_C14(Ctx&);

// ---- parts that are passed over
static const VS KINDS = {"DATA", "DATA ", "DATA ,", "DATA \"\"", "DATA 5", "DATA ,,1", "DATA a,\"b\"", "DEF FNA(X)=X", "DEF FNA$(X)=\"f\"", "DIM Q(3)", "DIM Q(3),R$(2,2)", "PRINT", "PRINT ;", "PRINT ,", "PRINT \"\"", "PRINT TAB(3);", "A=1", "A$=\"\"", "A$=\"s\"", "Q(1)=2", "Q$(1)=\"\"", "LET A=2", "FOR I=1 TO 2", "FOR I=1 TO 2 STEP 0", "NEXT", "NEXT I", "NEXT I,J", "GOSUB 900", "GOTO 910", "ON A GOTO 910,910", "ON A GOSUB 900", "RETURN", "STOP", "END", "INPUT A", "INPUT \"\";A$", "INPUT \"p\";A,B$", "LINE INPUT A$", "READ A", "READ A,B$", "RESTORE", "RESTORE 920", "RANDOMIZE 5", "CLS", "CLEAR", "RUN 910", "LIST 910", "IF A THEN 910", "IF 0 THEN PRINT \"z\"", "IF 1 THEN PRINT \"z\"", "", "", " ", "NEW", "SAVE \"F\"", "LOAD \"none\"", "CONT", "RENUM"};
static void passed_over(Ctx& c, bool pairs) {
  const VS sh = {"IF 0 THEN PRINT 1:@:PRINT 2", "IF 0 THEN @:PRINT 2", "IF 0 THEN PRINT 1:@", "IF 0 THEN PRINT 1:@:PRINT 2 ELSE PRINT 3", "IF 0 THEN @:PRINT 2 ELSE PRINT 3", "IF 1 THEN PRINT 1 ELSE PRINT 2:@:PRINT 3", "IF 1 THEN PRINT 1 ELSE @:PRINT 3", "IF 1 THEN PRINT 1 ELSE @", "IF 0 THEN IF 1 THEN @:PRINT 2", "IF 1 THEN IF 0 THEN @:PRINT 2 ELSE PRINT 3", "IF 0 THEN IF 1 THEN PRINT 1 ELSE @:PRINT 2", "IF 0 THEN 910 ELSE @:PRINT 2", "IF 1 THEN 910 ELSE @:PRINT 2", "GOTO 910:@:PRINT 2", "GOSUB 900:PRINT 1:GOTO 910:@", "FOR Z=2 TO 1:@:NEXT Z:PRINT 2", "FOR Z=2 TO 1:PRINT 1:@:NEXT:PRINT 2", "ON 1 GOTO 910:@:PRINT 2", "END:@:PRINT 2", "RETURN:@", "IF A$=\"q\" THEN PRINT 1:@:@:PRINT 2 ELSE @:PRINT 3:@:PRINT 4", "REM x:@:PRINT 2", "STOP:@:PRINT 2"};
  auto go = [&](const std::string& f, const std::string& g) { for (auto& s : sh) for (int typed = 0; typed < 2; typed++) { if (typed && (!g.empty() || f == "NEW")) continue; if (!c.take()) continue; std::string st; int n = 0; for (char ch : s) if (ch == '@') { st += f; if (!g.empty() && !n++) st += ":" + g; } else st += ch;
    Case k; k.argv = {"-q"}; VS p = {"10 A=0:A$=\"k\":DEF FNA(X)=X+1", "30 PRINT \"next\";A;A$", "40 READ B$:PRINT B$;:READ B$:PRINT B$", "50 END", "900 PRINT \"sub\";:RETURN", "910 PRINT \"jump\";A;A$:READ B$:PRINT B$:END", "920 DATA d1,d2,d3"}; if (!typed) p.push_back("20 " + st);
    for (auto& l : p) k.in.push_back(l + "\n"); for (auto l : {"RUN", typed ? st.c_str() : "CONT", "PRINT A;A$;FNA(1)", "RUN", "5", "READ B$:PRINT B$"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } };
  for (auto& f : KINDS) go(f, "");
  if (pairs) for (auto& f : KINDS) for (auto& g : KINDS) if (f.size() && g.size() && g != " " && f != " " && (c.thorough || (f.size() * 7 + g.size()) % 4 == 0)) go(f, g);
}
W(C02) { wide2_C02(c); c.sec("every statement in parts that are passed over"); passed_over(c, true); }
W(C05) { c.sec("items in parts that are passed over"); passed_over(c, false); }
W(C03) { wide2_C03(c); c.sec("loops that are passed over");
  for (auto& f : KINDS) for (auto s : {"FOR Z=2 TO 1:@:NEXT Z:PRINT 2", "FOR Z=2 TO 1|@|NEXT Z|PRINT 2", "FOR Z=2 TO 1:FOR Y=1 TO 2:@:NEXT Y:PRINT 1:NEXT Z:PRINT 2", "FOR Z=2 TO 1|FOR Y=1 TO 2|@|NEXT Y|NEXT Z|PRINT 2", "FOR Z=2 TO 1|FOR Y=1 TO 2|@|NEXT Y,Z|PRINT 2", "FOR Z=1 TO 2|FOR Y=1 TO 0|@|NEXT|PRINT Z|NEXT", "FOR Z=2 TO 1|IF A THEN @|NEXT Z|PRINT 2"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string st; for (const char* x = s; *x; x++) if (*x == '@') st += f; else st += *x; VS p = {"10 A=0:A$=\"k\""}; long n = 20; for (auto& l : split(st)) { p.push_back(num(n) + " " + l); n += 10; } for (auto l : {"890 PRINT \"end\";Z;Y:END", "900 PRINT \"sub\";:RETURN", "910 PRINT \"jump\":END", "920 DATA d1,d2"}) p.push_back(l); for (auto& l : p) k.in.push_back(l + "\n"); for (auto l : {"RUN", "PRINT A;Z;Y", "CONT", "READ B$:PRINT B$"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } }

// ---- characters of every code at every place
W(C07) { const int CH[] = {1, 9, 31, 32, 34, 48, 57, 65, 90, 97, 122, 126, 127, 128, 129, 160, 200, 254, 255};
  c.sec("characters of every code compared at every place");
  for (int len = 1; len <= (c.thorough ? 40 : 24); len++) for (int pos = 0; pos < len; pos++) { if (!c.thorough && len > 9 && pos > 1 && pos < len - 2 && pos % 4) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; k.in = {"X$=\"" + rep("m", len) + "\"\n"};
    for (int a : CH) for (int b : {1, 65, 109, 127, 128, 255}) { if (c.index % 2 && b != 128 && b != 65) continue; k.in.push_back("A$=LEFT$(X$," + num(pos) + ")+CHR$(" + num(a) + ")+RIGHT$(X$," + num(len - pos - 1) + "):B$=LEFT$(X$," + num(pos) + ")+CHR$(" + num(b) + ")+RIGHT$(X$," + num(len - pos - 1) + ")\n"); k.in.push_back("PRINT A$<B$;A$>B$;A$=B$;A$<>B$;A$<=B$;A$>=B$;A$<X$;X$<A$;ASC(MID$(A$," + num(pos + 1) + ",1))\n"); } c.model(k); }
  c.sec("characters of every code beside characters of every code");
  for (int a = 1; a < 256; a++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int b = 1; b < 256; b += c.thorough ? 1 : (a % 3 ? 17 : 5)) k.in.push_back("A$=CHR$(" + num(a) + "):B$=CHR$(" + num(b) + "):PRINT A$<B$;A$=B$;A$>B$;A$+\"z\"<B$;\"z\"+A$<\"z\"+B$;\"zz\"+A$<=B$+\"z\";\"zzz\"+A$>=\"zzz\"+B$;\"zzzzz\"+A$<\"zzzzz\"+B$\n"); c.model(k); }
  c.sec("characters of every code as they are kept");
  for (int a = 1; a < 256; a++) { if (a == 10 || a == 13 || a == 26) continue; for (int how = 0; how < 5; how++) { if (!c.take()) continue; std::string ch(1, (char)a); if (ch == "\"" && how < 2) ch = "'"; Case k; k.argv = {"-q"}; std::string s = "ab" + ch + "cd" + ch;
    if (how == 0) k.in = {"10 A$=\"" + s + "\"\n"}; else if (how == 1) k.in = {"10 READ A$\n", "20 DATA \"" + s + "\"\n"}; else if (how == 2) k.in = {"10 LINE INPUT A$\n"}; else if (how == 3) { k.files["P"] = "10 A$=\"" + (ch == "\"" ? std::string("ab") : s) + "\"\n"; k.in = {"LOAD \"P\"\n"}; } else k.in = {"10 INPUT A$\n"};
    k.in.push_back("30 FOR I=1 TO LEN(A$):PRINT ASC(MID$(A$,I,1));:NEXT\n"); k.in.push_back("RUN\n"); if (how == 2 || how == 4) k.in.push_back(s + "\n"); for (auto l : {"PRINT A$;LEN(A$);A$<\"abd\";A$=LEFT$(A$,6);A$>\"ab\"", "LIST", "SAVE \"S\"", "NEW", "LOAD \"S\"", "LIST", "RUN"}) k.in.push_back(std::string(l) + "\n"); if (how == 2 || how == 4) k.in.push_back(s + "\n"); c.model(k); } }
}

// ---- functions called with any number of values pending
static void pending(Ctx& c) {
  const VS defs = {"DEF FNA(X)=X*2", "DEF FNA(X)=X+Y", "DEF FNA(X)=LEN(STR$(X))", "DEF FNA(X)=FNC(X)+X", "DEF FNA(X)=VAL(STR$(X)+\"1\")"};
  const VS sdefs = {"DEF FNA$(X)=STR$(X)", "DEF FNA$(X)=CHR$(X+64)+\"q\"", "DEF FNA$(X)=LEFT$(Z$,X)"};
  for (int t = 0; t < 2; t++) for (auto& d : t ? sdefs : defs) for (int s = 0; s <= 14; s++) for (int n = 0; n <= 14; n++) { if (!c.thorough && s && n && s < 12 && n < 12 && (s + 2 * n) % 5) continue; for (int def = 0; def < 3; def++) { if (!c.take()) continue;
    Case k; k.argv = {"-q"}; k.in = {"Z$=\"zyxw\":Y=4:DEF FNC(X)=X+100\n", d + "\n"}; if (def == 1) k.in.push_back("X=9:X$=\"old\"\n"); if (def == 2) k.in.push_back("X=9\n");
    std::string f = t ? "FNA$(3)" : "FNA(3)"; std::string nums, close; for (int i = 0; i < n; i++) { nums += num(i) + "+("; close += ")"; } std::string e, cl2; for (int i = 0; i < s; i++) { e += "\"" + std::string(1, (char)('a' + i)) + "\"+("; cl2 += ")"; }
    VS ls; if (t) ls = {"PRINT " + e + f + cl2 + ";X", "PRINT " + nums + "LEN(" + f + ")" + close + ";X", "A$=" + e + f + cl2, "PRINT " + nums + "LEN(" + e + f + cl2 + ")" + close};
    else ls = {"PRINT " + e + "STR$(" + f + ")" + cl2 + ";X", "PRINT " + nums + f + close + ";X", "PRINT " + nums + "LEN(" + e + "STR$(" + f + ")" + cl2 + ")" + close + ";X", "A=" + nums + f + close, "PRINT " + e + "CHR$(60+FNA(FNC(1)-100))" + cl2, "IF " + nums + f + close + ">" + num(n) + " THEN PRINT \"gt\";X", "Q(" + f + ")=" + nums + "1" + close};
    for (auto& l : ls) if (l.size() < 125) { k.in.push_back(l + "\n"); if (def == 2) k.in.push_back("X=X+1\n"); } k.in.push_back("PRINT X;X$;A;A$;Q(6)\n"); c.model(k); } }
}
W(C08) { wide2_C08(c); c.sec("functions called with any number of values pending"); pending(c); }
W(C17) { c.sec("functions with values pending, memory"); for (int s = 0; s <= 12; s += 1) for (auto f : {"FNA$(3)", "FNB$(FNA(2))", "STR$(FNA(3))", "FNA$(LOG(0))", "MID$(FNA$(2),2,1)", "STR$(FNA(LEN(FNA$(1))))", "FNZ$(1)"}) for (int x = 0; x < 2; x++) { if (!c.take()) continue; std::string e, cl; for (int i = 0; i < s; i++) { e += "\"a\"+("; cl += ")"; } c.run(Check{"mem", {session("DEF FNA(X)=X*2:DEF FNA$(X)=STR$(X)+\"f\":DEF FNB$(Y)=FNA$(Y)+FNA$(Y)|" + std::string(x ? "X=3:Y=2" : "REM") + "|PRINT " + e + f + cl + "|A$=" + e + f + cl + "|PRINT A$;X|PRINT " + e + f + "+\"q\"" + cl + "|NEW")}, ""}); } 
  c.sec("statements passed over, memory"); for (auto& f : KINDS) for (auto s : {"IF 0 THEN PRINT 1:@:PRINT 2", "IF 1 THEN PRINT 1 ELSE @", "IF A$=\"q\" THEN @ ELSE @", "FOR Z=2 TO 1:@:NEXT Z:PRINT 2"}) { if (!c.take()) continue; std::string st; for (const char* x = s; *x; x++) if (*x == '@') st += f; else st += *x; c.run(Check{"mem", {session("10 A=0:A$=\"k\"|20 " + st + "|30 PRINT \"n\"|900 RETURN|910 END|920 DATA 1|RUN|5|RUN|5|LIST|" + st + "|NEW")}, ""}); } }

// ---- what follows a line number in a file
W(C12) { c.sec("what follows a number of every length");
  const VS SEP = {"", " ", "\t", "  ", " \t", "\t ", "\t\t", "   ", " \t ", ":", ": ", " :", ",", ".", "-", "\f", "\v", "\r", "0 "}; const VS NUMS = {"1", "7", "10", "99", "100", "999", "1000", "9999", "10000", "32767", "32768", "65535", "65536", "99999", "100000", "999999", "1000000", "9999999", "10000000", "99999999", "100000000", "999999999", "1000000000", "4294967294", "4294967295", "4294967296", "9999999999", "01", "00010", "0000000010", "00000000000000000010"};
  for (auto& n : NUMS) for (auto& s : SEP) for (auto b : {"PRINT 5", "REM", "A=1", "", "1", "\"", "PRINT \"\t\"", "REM \t x"}) for (auto lead : {"", " ", "\t"}) { if (!c.thorough && lead[0] && (s.size() > 1 || n.size() % 3)) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; k.files["P"] = "5 PRINT 4\n" + (lead + n + s) + b + "\n"; k.in = {"LOAD \"P\"\n", "LIST\n", "RUN\n", "SAVE \"S\"\n", "NEW\n", "LOAD \"S\"\n", "LIST\n"}; if ((n + s + b).size() < 100 && s.find('\r') == std::string::npos) { k.in.push_back("NEW\n"); k.in.push_back(lead + n + s + b + "\n"); k.in.push_back("LIST\n"); } c.model(k); } }

// ---- stopped at every depth, with DATA half read
static void half_done(Ctx& c, CVS cmds, CVS probes) {
  for (auto end : {"STOP", "PRINT LOG(0)", "END", "INPUT Z9", "GOTO 77"}) for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (int d = 0; d <= 4; d += 2) { std::string e0(end); bool full = e0 == "STOP"; if (!c.thorough && ((!full && (f + g + d) % 4) || (full && f && g && f < 8 && g < 8 && (f + 2 * g) % 3))) continue;
    for (auto& cmd : cmds) { if (!c.take()) continue; Case k; k.argv = {"-q"}; VS p = {"1 REM"}; long n = 10; p.push_back("5 READ D0:PRINT \"d\";D0;X;A$;Q(1):X=X+1:A$=A$+\"a\":Q(1)=Q(1)+1"); if (g % 2) p.push_back("6 DEF FNA(X)=X+1"); for (int i = 0; i < d; i++) { p.push_back(num(n) + " READ D" + num(i)); n += 10; } for (int i = 0; i < f; i++) { p.push_back(num(n) + " FOR L" + num(i) + "=1 TO 2"); n += 10; } for (int i = 0; i < g; i++) { p.push_back(num(n) + " GOSUB " + num(n + 10)); n += 10; } p.push_back(num(n) + " " + end); n += 10; p.push_back(num(n) + " PRINT \"on\";X:READ D:PRINT D:END"); p.push_back("900 DATA 1,2,3,4,5,6,7,8,9"); for (auto& l : p) k.in.push_back(l + "\n"); k.in.push_back("RUN\n"); if (e0[0] == 'I') k.in.push_back("5\n"); for (auto& l : lines_of(cmd)) k.in.push_back(l); for (auto& l : probes) k.in.push_back(l + "\n"); c.model(k); } } 
}
W(C15) { wide2_C15(c); c.sec("begun again from every depth, with items read"); half_done(c, {"RUN", "CLEAR", "RUN 5", "RUN 900", "NEW", "RUN|RUN", "GOTO 5", "LOAD \"none\"", "5 PRINT \"edited\"|RUN", "CLEAR|RUN", "RENUM|RUN", "CLEAR|GOTO 5", "GOSUB 5", "X=7|RUN", "RESTORE|RUN", "DATA 1|RUN", "READ A:DATA 7|RUN"}, {"READ E:PRINT E", "PRINT X;A$;Q(1);L0;D0;FNA(1)", "NEXT", "RETURN", "CONT", "RUN"}); }
W(C14) { wide2_C14(c); c.sec("stopped at every depth, with items read"); half_done(c, {"CONT", "READ E:PRINT E|CONT", "RESTORE|CONT", "CLEAR|CONT", "READ E:PRINT E:DATA 7|CONT", "PRINT FNA(1)|CONT", "DEF FNA(X)=X|CONT", "77 PRINT 1|CONT", "LIST 5|CONT", "RESTORE 900:READ E:PRINT E|CONT|CONT"}, {"READ E:PRINT E", "PRINT X;L0;D0", "CONT", "NEXT", "RETURN"}); }
W(C16) { c.sec("failed at every depth, with items read"); half_done(c, {"PRINT 1", "READ E:PRINT E", "PRINT LOG(0)", "PRINT (", "RUN", "READ E,E,E,E,E,E,E,E,E"}, {"READ E:PRINT E", "PRINT X;L0;D0", "LIST 5", "RUN"}); }

// ---- every mistake after programs of any size
static const VS MISTAKES = {"PRINT 1 ELSE PRINT 2", "ELSE PRINT 2", "ELSE", "THEN 5", "IF 1", "IF 1 PRINT 2", "IF THEN 5", "IF A THEN PRINT 1 ELSE PRINT 2 ELSE PRINT 3", "GOTO", "GOTO A", "GOTO 5,6", "GOTO 1.5", "GOTO -1", "GOSUB", "GOSUB \"a\"", "GOSUB 5 6", "FOR", "FOR I", "FOR I=1", "FOR I=1 TO", "FOR I=1 TO 2 STEP", "FOR I$=1 TO 2", "FOR I(1)=1 TO 2", "FOR I=\"a\" TO 2", "FOR I=1 TO \"b\"", "NEXT 5", "NEXT I,", "NEXT I$", "NEXT I J", "RETURN 5", "ON A", "ON A GOTO", "ON A GOTO 5,", "ON A GOTO B", "ON \"a\" GOTO 5", "ON A PRINT", "DIM", "DIM A", "DIM A(", "DIM A()", "DIM A(1", "DIM A(1)B(2)", "DIM 5", "DIM A(B)", "DIM A(1,)", "READ", "READ 5", "READ A,", "READ A B", "READ \"a\"", "RESTORE A", "RESTORE \"a\"", "DEF", "DEF A", "DEF FNA", "DEF FNA(", "DEF FNA(X", "DEF FNA(X)", "DEF FNA(X)=", "DEF FNA(5)=1", "DEF FNA(X)=\"a\"", "DEF FNA$(X)=1", "INPUT", "INPUT 5", "INPUT \"p\"", "INPUT \"p\" A", "INPUT \"p\";", "INPUT A,", "INPUT A+1", "LINE", "LINE INPUT", "LINE INPUT A", "LINE INPUT A$,B$", "LINE A$", "LET", "LET 5=A", "LET A", "A", "A=", "A=1=", "A==1", "A 1", "A$=1", "A=\"a\"", "A=1 2", "A=(1", "A=1)", "A=()", "A=1+", "A=*1", "A=1 AND", "A=NOT", "A=\"a\"+1", "A=1+\"a\"", "A=-\"a\"", "A=LEN(1)", "A=LEN()", "A=LEN", "A=LEN(\"a\",1)", "A$=LEFT$(\"a\")", "A$=LEFT$(1,1)", "A$=MID$(\"a\")", "A$=CHR$(\"a\")", "A=SQR(\"a\")", "A=SQR()", "A=FNA", "A=FNA()", "A=FNA(\"a\")", "A=FNA(1,2)", "A(1)=\"a\"", "A$(1)=1", "A(\"a\")=1", "A(1=1", "A()=1", "PRINT (", "PRINT 1 2 )", "PRINT +", "PRINT TAB", "PRINT TAB(", "PRINT TAB(\"a\")", "PRINT @", "PRINT #", "@", "#1", "%", "&", "5", "\"a\"", "(A)=1", "=1", ",", ";", ")", "FOO", "FOO 1", "PRINT FOO(", "STOP 1", "END 1", "CLS 1", "RANDOMIZE \"a\"", "RANDOMIZE", "REMARK", "TO 5", "STEP 1", "USING", "FN", "SPC(1)", "TAB(1)", "LOAD", "LOAD 5", "SAVE", "SAVE A", "NEW 1", "CLEAR 1", "RUN A", "LIST A", "LIST 5-", "CONT 1", "RENUM A", "RENUM 5,", "PRINT \"a\" + ", "PRINT 1;;2;(", "A=1:B=", "PRINT 1:GOTO", "REM ok:("};
W(C18) { c.sec("every mistake after programs of any size");
  const VS FILL = {"A=A+1", "PRINT 1;2;3", "REM x", "A=1:B=2:C=3:D=4", "IF A THEN B=1 ELSE B=2"}; std::vector<int> N; for (int n : {0, 1, 2, 3, 5, 8, 12, 20, 30, 31, 32, 40, 50, 62, 63, 64, 65, 90, 100, 120, 127, 128, 130, 200, 255, 256, 257, 300, 400, 512, 700, 1000}) N.push_back(n);
  for (size_t m = 0; m < MISTAKES.size(); m++) for (size_t i = 0; i < N.size(); i++) for (size_t fl = 0; fl < FILL.size(); fl++) { if (!c.thorough && N[i] != 0 && N[i] != 100 && (m * 3 + i * 5 + fl) % 11) continue; if (!N[i] && fl) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; for (int j = 0; j < N[i]; j++) f += num(100 + j) + " " + FILL[fl] + "\n"; f += "5000 " + MISTAKES[m] + "\n6000 PRINT \"after\"\n"; k.in = {"LOAD \"P\"\n", "RUN\n", "5000\n", "6000\n", "PRINT A\n", MISTAKES[m] + "\n", "PRINT A\n"}; c.model(k); }
  c.sec("every mistake after statements on its line");
  for (auto& m : MISTAKES) for (int n : {0, 1, 2, 5, 10, 20, 24}) for (auto fl : {"A=1:", "PRINT 1:", ":", "REM:", "IF 1 THEN ", "IF 0 THEN PRINT 1 ELSE ", "DATA 1:", "FOR I=1 TO 1:NEXT:"}) { std::string l = rep(fl, n) + m; if (l.size() > 122 || (!c.thorough && n > 2 && (m.size() + n) % 3)) continue; if (!c.take()) continue; Case k = session("1 A=A|2 A=A"); k.in.push_back(l + "\n"); k.in.push_back("10 " + l + "\n"); for (auto x : {"RUN", "LIST", "10", "RUN"}) k.in.push_back(std::string(x) + "\n"); c.model(k); }
  c.sec("mistakes two at a time");
  for (size_t a = 0; a < MISTAKES.size(); a++) for (size_t b = 0; b < MISTAKES.size(); b++) { if (!c.thorough && (a * 7 + b * 3) % 5) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; k.in = {"10 " + MISTAKES[a] + "\n", "20 PRINT 1\n", "30 " + MISTAKES[b] + "\n", "RUN\n", "10\n", "RUN\n", "30\n", "RUN\n"}; c.model(k); } }
W(C11) { wide2_C11(c); c.sec("lines with mistakes are kept as they are"); for (size_t m = 0; m + 1 < MISTAKES.size(); m += c.thorough ? 1 : 2) for (int n : {0, 10, 130, 300}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; for (int j = 0; j < n; j++) f += num(100 + j) + " REM\n"; k.in = {"LOAD \"P\"\n", "50 " + MISTAKES[m] + "\n", "5000 " + MISTAKES[m] + "\n", "120 " + MISTAKES[m + 1] + "\n", "LIST\n", "RUN\n", "50\n", "LIST\n", "RUN\n", "RENUM\n", "LIST\n", "SAVE \"S\"\n", "NEW\n", "LOAD \"S\"\n", "LIST\n"}; c.model(k); } }

// ---- long numbers with something after them
W(C22) { c.sec("numbers of every length with something after them");
  const VS J = {"", " ", "\t", "  ", ".", ".5", ".5.", "..", "E", "E+", "E-", "E5", "E5E5", "E5.", "e5", "e", "D5", "-", "+", "-1", "x", "X1", ",", ",5", "$", "%", "&", "\"", " 5", " .", " x", "E 5", "!", "#", "0x", "INF", "NAN", "(", ")", ":", "\f"};
  for (int len = 1; len <= 60; len++) for (int pt = -1; pt <= len; pt++) { if (!c.thorough && pt > 1 && pt < len - 1 && (len > 24 || (pt + len) % 4)) continue; if (!c.take()) continue; std::string d; for (int i = 0; i < len; i++) { if (i == pt) d += '.'; d += (char)('0' + (i + 1) % 10); } if (pt == len) d += '.'; Case k; k.argv = {"-q"}; for (auto& j : J) { if (j != "\"" ) k.in.push_back("PRINT VAL(\"" + d + j + "\")\n"); if (len % 3 == 0 && j.find_first_of(":\"") == std::string::npos) k.in.push_back("PRINT " + d + j + "\n"); } if (len % 2) for (auto& j : J) { if (j.find_first_of(",:") != std::string::npos) continue; k.in.push_back("INPUT A\n"); k.in.push_back("-" + d + j + "\n"); k.in.push_back("7\n"); } for (auto& j : J) if (j.find_first_of("\",:") == std::string::npos && len < 40) k.in.push_back("READ A:PRINT A:DATA " + d + j + "\n"); c.model(k); } }

// ---- statements that chain as far as a line goes
struct Chain { const char *head, *mid, *core, *close, *tail; };
static const Chain CH[] = {
  {"", "IF 1 THEN ", "PRINT 5", "", ""}, {"", "IF 0 THEN ", "PRINT 5", "", ""}, {"", "IF 1 THEN ", "PRINT 5 ELSE PRINT 6", "", ""}, {"", "IF 1 THEN ", "PRINT 5", " ELSE PRINT 6", ""}, {"", "IF 0 THEN A=1 ELSE ", "PRINT 5", "", ""}, {"", "IF A THEN ", "5", "", ""}, {"", "IF 1 THEN ", "GOSUB 900", "", ":PRINT 6"}, {"", "IF1THEN ", "PRINT 5", "", ""},
  {"PRINT ", "-", "5", "", ""}, {"PRINT ", "- ", "5", "", ""}, {"PRINT ", "NOT ", "5", "", ""}, {"PRINT ", "(", "5", ")", ""}, {"PRINT ", "1+", "5", "", ""}, {"PRINT ", "1+(", "5", ")", ""}, {"PRINT ", "2^", "1", "", ""}, {"PRINT ", "1<", "5", "", ""}, {"PRINT ", "1 OR ", "5", "", ""}, {"PRINT ", "7 AND ", "5", "", ""}, {"PRINT ", "ABS(", "5", ")", ""}, {"PRINT ", "LEN(STR$(", "5", "))", ""}, {"PRINT ", "FNA(", "5", ")", ""}, {"PRINT ", "Q(", "1", ")", ""}, {"PRINT ", "Q(0,", "0", ")", ""}, {"PRINT ", "\"a\"+", "\"b\"", "", ""}, {"PRINT ", "LEFT$(", "\"abc\"", ",2)", ""}, {"PRINT ", "CHR$(ASC(", "\"a\"", "))", ""},
  {"PRINT ", "5;", "6", "", ""}, {"PRINT ", ";", "6", "", ""}, {"PRINT ", ",", "6", "", ""}, {"PRINT ", "\"a\"", "6", "", ""}, {"PRINT ", "TAB(9);", "6", "", ""}, {"PRINT ", "SPC(1)", "6", "", ""},
  {"", "A=A+1:", "PRINT A", "", ""}, {"", ":", "PRINT 5", "", ""}, {"", ": ", "PRINT 5", "", ""}, {"", "PRINT 5", "", "", ""}, {"", "PRINT:", "PRINT 5", "", ""}, {"", "GOSUB 900:", "PRINT 5", "", ""}, {"", "FOR I=1 TO 2:", "PRINT I;", ":NEXT", ""}, {"FOR I=1 TO 2:FOR J=1 TO 2:PRINT I;J:NEXT J", ",I", "", "", ""}, {"", "DATA 1:", "READ A", "", ":PRINT A"}, {"DATA 1", ",2", "", "", ":READ A,B:PRINT A;B"}, {"DATA ", ",", "1", "", ":READ A$,B$:PRINT A$;B$"}, {"RESTORE:READ A", ",A", "", "", ":PRINT A:DATA 1,2,3,4,5,6,7,8,9,10"}, {"RESTORE 920:READ A", ",A", "", "", ":PRINT A"}, {"ON 2 GOTO 5", ",5", "", "", ":PRINT 5"}, {"ON 20 GOSUB 900", ",900", "", "", ":PRINT 5"}, {"ON 3 GOSUB 900", ",900", "", "", ":PRINT 5"}, {"DIM Z1(2)", ",Z(2)", "", "", ""}, {"DIM Z(1", ",1", "", "", ")"}, {"DEF FNZ(X)=", "X+", "1", "", ":PRINT FNZ(2)"}, {"DEF FNZ(X)=", "(", "X", ")", ":PRINT FNZ(2)"}, {"DEF FNZ$(X)=", "STR$(X)+", "\"z\"", "", ":PRINT FNZ$(2)"}, {"REM ", "r", "", "", ""}, {"PRINT \"", "r", "", "", "\""}, {"A", "A", "", "", "=5:PRINT 5"}, {"A=", "1", "", "", ":PRINT A"}, {"A=.", "1", "", "", ":PRINT A"}, {"A=1E", "0", "1", "", ":PRINT A"}, {"A=", "0", "1", "", ":PRINT A"}, {"GOTO ", "0", "5", "", ""}, {"NEXT ", "I,", "I", "", ""}, {"", "IF A THEN B=1 ELSE ", "B=2", "", ":PRINT B"}, {"PRINT 1", " ", "", "", ""}, {"PRINT ", " ", "1", "", ""}, {"PRINT ", "\t", "1", "", ""}, {"PRINT ", "A$=A$=", "0", "", ""}, {"PRINT ", "A=", "0", "", ""}, {"", "LET A=1:", "PRINT A", "", ""}, {"INPUT A", ",A", "", "", ""}, {"INPUT \"", "p", "", "", "\";A"}, {"", "FOR I=1 TO 1:NEXT:", "PRINT I", "", ""}, {"", "PRINT 5:REM", "", "", ""}};
static void chains(Ctx& c, bool all) {
  size_t idx = 0; for (auto& x : CH) { idx++; for (int n = 0; n <= 250; n++) { std::string l = x.head + rep(x.mid, n) + x.core + rep(x.close, n) + x.tail; if (l.size() > 248) break; size_t ml = strlen(x.mid) + strlen(x.close); if (ml <= 2 && n > 12 && !c.thorough && n % 8 > 1 && l.size() < 112) continue; if (l.size() > 136 && !all && n % 3) continue; if (l.size() > 128 && ml == 1 && n % 7 > 1 && l.size() < 240) continue;
    for (int how = 0; how < 4; how++) { if ((how == 0 || how == 1) && l.size() > (how ? 123 : 126)) continue; if (how == 3 && !all && (n + idx) % 2) continue; if (!c.take()) continue; Case k; k.argv = how == 3 ? VS{"-q", "-k"} : VS{"-q"}; VS p = {"5 PRINT \"five\":END", "900 PRINT \"s\";:RETURN", "920 DATA 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30", "A=1:A$=\"k\":DEF FNA(X)=X+1"}; for (auto& y : p) k.in.push_back(y + "\n");
      std::string in; if (!strncmp(x.head, "INPUT A", 7)) { in = "7"; for (int i = 0; i < n; i++) in += ",8"; if (in.size() > 100) in = "7"; } else if (!strncmp(x.head, "INPUT", 5)) in = "7";
      auto put = [&](const std::string& s) { k.in.push_back(s + "\n"); if (!in.empty()) k.in.push_back(in + "\n"); };
      if (how == 0) put(l); else if (how == 1) { k.in.push_back("10 " + l + "\n"); put("RUN 10"); k.in.push_back("LIST 10\n"); } else { k.files["P"] = "5 PRINT \"five\":END\n7 A=1:A$=\"k\":DEF FNA(X)=X+1\n10 " + l + "\n20 PRINT \"next\":END\n900 PRINT \"s\";:RETURN\n920 DATA 1,2,3,4,5,6,7,8,9,10\n"; k.in = {"LOAD \"P\"\n"}; put("RUN 7"); k.in.push_back("LIST 10\n"); }
      for (auto y : {"PRINT A;A$;B;I;J", "NEXT", "PRINT \"alive\""}) k.in.push_back(std::string(y) + "\n"); c.model(k); } } }
}
W(C25) { wide2_C25(c); c.sec("chained as far as a line goes"); chains(c, true); }
W(C01) { c.sec("expressions chained as far as a line goes"); for (auto& x : CH) { if (strcmp(x.head, "PRINT ")) continue; for (int n = 0; n <= 120; n++) { if (!c.take()) continue; std::string l = x.head + rep(x.mid, n) + x.core + rep(x.close, n) + x.tail; if (l.size() > 246) break; Case k; k.argv = {"-q"}; k.files["P"] = "1 DEF FNA(X)=X+1\n10 " + l + "\n20 A=1:B$=\"k\":PRINT 7+2*3\n"; k.in = {"LOAD \"P\"\n", "RUN\n", "PRINT A;B$\n"}; c.model(k); } } }
W(C13) { wide2_C13(c); c.sec("lines that grow to every length when renumbered");
  const VS sh = {"PRINT \"@\":GOTO 5", "GOTO 5:PRINT \"@\"", "REM @ GOTO 5", "IF A THEN 5 ELSE 5:REM @", "ON A GOTO 5,5,5,5:PRINT \"@\":GOTO 5", "A$=\"@\":GOSUB 5:GOSUB 7:RESTORE 5", "PRINT \"@\";5:IF A=5 THEN 5"};
  for (auto& s : sh) for (auto to : {"1,5", "40000", "99990", "1000000", "4000000000", "60000,1", "1,1", "4294967290,1"}) for (int len = 60; len <= 254; len++) { if (!c.thorough && len % 9 && (len < 112 || len > 130) && len < 235) continue; if (!c.thorough && (len + to[0]) % 2) continue; if (!c.take()) continue; std::string l; size_t base = 3 + s.size() - 1; if ((int)base > len) continue; for (char ch : s) if (ch == '@') { std::string w = rep("x", len - base); if (s.find('"') != std::string::npos) for (size_t z = 90; z + 10 < w.size(); z += 93) w.replace(z, 3, "\"+\""); l += w; } else l += ch; // (a string is no longer than 127)
    Case k; k.argv = {"-q"}; k.files["P"] = "5 A=A+1:PRINT A:IF A>3 THEN END\n7 REM\n9 " + l + "\n"; k.in = {"LOAD \"P\"\n", std::string("RENUM ") + to + "\n", "LIST\n", "RUN\n", "SAVE \"S\"\n", "NEW\n", "LOAD \"S\"\n", "LIST\n", "RUN\n", "RENUM 5\n", "LIST\n"}; c.model(k); } }
W(C26) { c.sec("the time of day"); // every second of the minutes and hours at which something turns
  auto go = [&](long t) { if (!c.take()) return; Case k = session("PRINT TIME$;TIME$|A$=TIME$:PRINT LEN(A$);LEFT$(A$,2);MID$(A$,4,2);RIGHT$(A$,2);A$<TIME$;VAL(TIME$)|10 PRINT TIME$|RUN|RUN"); k.now = t; c.model(k); };
  for (int h = 0; h < 24; h++) for (int m = 0; m < 60; m++) { if (!c.thorough && m > 1 && m < 58 && (h * 60 + m) % 7) continue; for (int s : {0, 7, 9, 58, 59}) { if (!c.thorough && s < 58 && (m + s + h) % 3) continue; go(1700000000L / 86400 * 86400 + h * 3600 + m * 60 + s); } }
  for (long d : {0L, 1L, 59L, 60L, 364L, 365L, 366L, 10956L, 11016L, 18262L, 19782L, 19783L, 24855L, 24856L, 50000L, 100000L}) for (long s : {0L, 1L, 43199L, 43200L, 86395L, 86399L}) go(d * 86400 + s); }

// ---- every reply over a small alphabet
#define W2(id) static void wide2_##id(Ctx& c)
W2(C09) { c.sec("every reply over a small alphabet");
  for (auto vars : {"A$,B$,C$,D$", "A$,B$", "A$", "A,B$,C", "B$,A,C$", "Q$(1),A$,Q$(2)", "A$,B$,C$", "A,B", "A,A$,B,B$,C"}) { std::string v(vars); Case k; int n = 0; std::string show; for (auto& x : split(v, ',')) show += (show.empty() ? "" : ";\"|\";") + x;
    auto flush = [&]() { if (n && c.take()) { k.in.push_back("END\n"); for (int i = 0; i < 6; i++) k.in.push_back("1,1,1,1,1\n"); k.in.push_back("PRINT 1\n"); c.model(k); } n = 0; };
    strings({"a", ",", " ", "1", "\""}, c.thorough ? 7 : 6, [&](const std::string& s) { if (!c.thorough && s.size() == 6 && std::count(s.begin(), s.end(), ',') < 2) return; if (!n) { k = Case(); k.argv = {"-q"}; k.in = {"10 INPUT " + v + "\n", "20 PRINT " + show + "\n", "30 GOTO 10\n", "RUN\n"}; } k.in.push_back(s + "\n"); if (++n >= 60) flush(); }); flush(); } }
// ---- line numbers at every distance from each other
static void steps(Ctx& c, bool edits) {
  c.sec("line numbers at every distance");
  for (int s = 1; s <= 3300; s++) for (int n : {3, 9, 20, 33, 80, 300, 1000}) { if ((long)s * (n + 1) > 65000) continue; if (s > 1100 && !c.thorough && s % 3) continue; if ((n == 3 || n == 9) && s % 16 && !c.thorough) continue; if (n == 80 && s % 8 && !c.thorough && s != 397) continue; if (n > 80 && s % 32 && !c.thorough && s != 397) continue; if (!c.take()) continue;
    int m = 7; while (n % m == 0) m += 2; Case k; k.argv = {"-q"}; std::string& f = k.files["P"]; // a cycle through all the lines
    for (int i = 1; i <= n; i++) { int nx = (i - 1 + m) % n + 1; f += num((long)i * s) + " PRINT " + num(i) + ";:" + (nx == 1 ? "END" : i % 3 ? "GOTO " + num((long)nx * s) : "IF 1 THEN " + num((long)nx * s)) + "\n"; }
    k.in = {"LOAD \"P\"\n", "RUN\n", "GOTO " + num((long)n * s) + "\n", "GOTO " + num((long)(n / 2 + 1) * s) + "\n", "GOTO " + num((long)n * s + 1) + "\n"}; if (edits) { k.in.push_back("RENUM\n"); k.in.push_back("RUN\n"); k.in.push_back("GOTO " + num((n / 2 + 1) * 10) + "\n"); k.in.push_back("RENUM " + num(s) + ",1," + num(s) + "\n"); k.in.push_back("LIST\n"); k.in.push_back(num(s) + "\n"); k.in.push_back("GOTO " + num(s) + "\n"); k.in.push_back("GOTO " + num(2 * s) + "\n"); } c.model(k); } }
W2(C25) { steps(c, false); }
W2(C13) { steps(c, true); }
W2(C02) { steps(c, false); }
W2(C11) { c.sec("lines entered in every order at every distance"); // entered from the middle outwards, from the end, and from the beginning
  for (int s = 1; s <= 400; s++) for (int n : {8, 30, 120}) for (int how = 0; how < 4; how++) { if (!c.thorough && (s + n / 4 + how) % 7) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) { int j = how == 0 ? n - 1 - i : how == 1 ? (i & 1 ? n / 2 - 1 - i / 2 : n / 2 + i / 2) : how == 2 ? (i * 7) % n : i; if (how == 2 && n % 7 == 0) j = i; k.in.push_back(num((long)(j + 1) * s) + " PRINT " + num(j) + ";:" + (j + 2 <= n ? "GOTO " + num((long)(j + 2) * s) : "END") + "\n"); if (i % 13 == 5) k.in.push_back("RUN\n"); } for (int i = 0; i < n; i += 5) { k.in.push_back("RUN\n"); k.in.push_back(num((long)(i + 1) * s) + "\n"); k.in.push_back("GOTO " + num((long)(i + 1) * s) + "\n"); if (i + 2 <= n) k.in.push_back("GOTO " + num((long)(i + 2) * s) + "\n"); if (i % 10) k.in.push_back(num((long)(i + 1) * s) + " PRINT \"n\";:GOTO " + num((long)(i + 2) * s) + "\n"); } k.in.push_back("LIST\n"); c.model(k); } }
// ---- names that hold keywords, typed with any number of loops and calls pending
W2(C19) { c.sec("names that hold keywords at every depth");
  const VS typed = {"SCORE=5:PRINT SCORE", "TOTAL=1:PRINT TOTAL", "PRINTER=3:PRINT PRINTER", "ANDY=2:PRINT ANDY", "NOTE=4:FORMAT=5:PRINT NOTE+FORMAT", "IFFY$=\"a\":PRINT IFFY$", "A=1ANDB", "PRINTA", "FORI=1TO2:PRINTI:NEXTI", "IFA=0THENPRINT1ELSEPRINT2", "GOTO900", "PRINT NOTA", "LETA=5", "ONE=1:PRINT ONE", "STOPPED=1", "REMARK", "DATATYPE=3:PRINT DATATYPE", "DIMPLE(1)=2:PRINT DIMPLE(1)", "INPUTS=1:PRINT INPUTS", "RUNS=1:PRINT RUNS", "ENDING=2:PRINT ENDING"};
  for (int k9 = 0; k9 < 2; k9++) for (int f = 0; f <= 8; f++) for (int g = 0; g <= 8; g++) for (size_t t = 0; t < typed.size(); t++) { if (!c.thorough && f && g && (f + 2 * g + t) % 5) continue; if (!c.take()) continue; Case k; k.argv = k9 ? VS{"-q", "-k"} : VS{"-q"}; long n = 10; for (int i = 0; i < f; i++, n += 10) k.in.push_back(num(n) + " FOR L" + num(i) + "=1 TO 2\n"); for (int i = 0; i < g; i++, n += 10) k.in.push_back(num(n) + " GOSUB " + num(n + 10) + "\n"); k.in.push_back(num(n) + " STOP\n"); k.in.push_back(num(n + 10) + " " + typed[t] + "\n"); k.in.push_back(num(n + 20) + " END\n"); k.in.push_back("900 PRINT \"jump\":END\n"); for (auto l : {"RUN", typed[t].c_str(), "CONT", typed[t].c_str(), "PRINT SCORE;A", "LIST", "RUN", "CONT"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } }
// ---- values forgotten while something still uses them
static const VS LOSE = {"CLEAR", "I=5", "DEF FNA(I)=I*2", "PRINT FNA(7);I", "PRINT FNA(7)", "CONT", "NEXT", "RUN", "J=I+1:PRINT J", "DIM Q(2)", "A$=\"new\"", "NEXT I", "FOR I=1 TO 2", "RETURN", "PRINT A$;Q(1);J"};
static void lose(Ctx& c, int d) { c.sec("values forgotten while something still uses them");
  for (auto p : {"10 DEF FNA(I)=I+1|20 FOR I=1 TO 3|30 STOP|40 PRINT \"i\"|50 NEXT|60 PRINT \"done\";I", "10 DEF FNA(I)=I+1|20 FOR I=1 TO 3|30 A$=A$+\"x\":Q(1)=Q(1)+I:STOP|40 PRINT \"i\";I;A$;Q(1);J:PRINT FNA(10)|50 NEXT|60 PRINT \"done\";I", "10 FOR I=1 TO 2|15 FOR J=I TO 3|20 GOSUB 100|30 NEXT J,I|40 PRINT \"done\";I;J:END|100 A$=A$+\"s\":STOP:PRINT I;J;A$;FNA(2):RETURN"}) {
    VS setup = split(p); setup.push_back("RUN"); sequences(LOSE, 1, d, [&](CVS s) { if (d > 3 && s.size() > 3 && (s[0] == "RUN" || s[0] == "CONT")) return; if (!c.take()) return; Case k; k.argv = {"-q"}; for (auto& l : setup) k.in.push_back(l + "\n"); for (auto& l : s) k.in.push_back(l + "\n"); for (auto l : {"CONT", "PRINT I;J;A$;Q(1)", "CONT", "NEXT", "RUN"}) k.in.push_back(std::string(l) + "\n"); c.model(k); }); } }
W2(C08) { lose(c, c.thorough ? 4 : 3); }
W2(C03) { lose(c, c.thorough ? 4 : 3); }
W2(C15) { lose(c, c.thorough ? 4 : 3); }
W2(C14) { lose(c, c.thorough ? 4 : 3); }
W(C09) { wide2_C09(c); }
W(C19) { wide2_C19(c); }
