// Three axes that cut across every property: the value (numbers of every size, sign and fraction wherever a number is
// taken), the name (names of every letter, length and resemblance to a keyword) and the line number (every digit count).
#include "gen.h"
#define V(id) void vals_##id(Ctx& c)

static std::string lower(std::string s) { for (char& ch : s) ch = (char)tolower(ch); return s; }
static std::string put(const std::string& t, const std::string& body) { std::string o; for (char ch : t) if (ch == '%') o += body; else o += ch; return o; }
// numbers that rounding, narrowing, truncating or comparing with a tolerance would change
static const VS SV = { "0", "-0", "1", "-1", "2", "-2", "3", ".5", "-.5", ".49999999999", ".9999999", ".99999999999999989", "1.0000001", "1.0000000000000002", "1.5", "1.9999999", "2.5", "2.9999999", "-.9999999", "-1E-9", "1E-9", "1E-30", "1E-45", "1E-46", "-1E-46", "1E-60", "-1E-60", "1E-300", "-1E-305", "1E-320", "4.94E-324", "-4.94E-324",
  "127", "128", "255", "256", "257", "-255", "-256", "32767", "32768", "-32768", "-32769", "65535", "65536", "65537", "65538", "131073", "-65535", "16777216", "16777217", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "4294967298", "-4294967295", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617",
  "1E10", "1E15", "1E16", "1E30", "1E38", "1E39", "-1E39", "1E300", "1E308", "-1E308", "1E308*10", "-1E308*10", "1E308*10-1E308*10", "1/3", "-1/3", "100/3", ".1", ".1+.2", ".3", "999999", "999999.5", "1000000", "123456.789" };
// every statement with every value, written there or held in a variable or an array, in a program and in a session
static void values(Ctx& c, CVS st, CVS setup = {}, CVS vals = SV) {
  for (auto& s : st) {
    { Batch b(c, setup, 24); for (auto& l : {"500 PRINT \"s500\";:RETURN", "600 PRINT \"s600\":END", "700 DATA 1,2,3,4"}) b.prefix.push_back(l);
      for (auto& v : vals) { b.add(put(s, v)); b.add("V=" + v + ":" + put(s, "V")); b.add("V(2)=" + v + ":" + put(s, "(V(2))")); b.add("V=" + v + ":W=V:" + put(s, "W+0")); } }
    for (auto& v : vals) { if (!c.take()) continue; std::string p; long n = 1; for (auto& x : setup) p += num(n++) + " " + x + "|"; c.model(program(p + "10 FOR K9=1 TO 2:V=" + v + ":" + put(s, c.index & 1 ? "V" : v) + ":PRINT \"a\"|20 NEXT:PRINT \"e\":END|500 PRINT \"s500\";:RETURN|600 PRINT \"s600\";:IF K9=1 THEN GOTO 20 ELSE END|700 DATA 1,2,3,4")); }
  }
}
static void two_values(Ctx& c, CVS st, CVS setup = {}) {
  for (auto& s : st) { Batch b(c, setup, 40); for (auto& v : SV) for (auto& w : SV) { std::string o; for (char ch : s) if (ch == '%') o += v; else if (ch == '@') o += w; else o += ch; b.add(o); } }
}
V(C01) { c.sec("operators on every pair of values"); VS st; for (auto o : {"^", "*", "/", "+", "-", "=", "<>", "<", ">", "<=", ">="}) st.push_back(std::string("?(%)") + o + "(@)"); if (c.thorough) for (auto o : {" AND ", " OR "}) st.push_back(std::string("?(%)") + o + "(@)"); two_values(c, st);
  values(c, {"?NOT %", "?-%", "?--%", "?% AND 255", "?3 OR %", "?(%)+1-1", "?%=%", "?%<>0", "?1/(%)", "?%*1", "?(%)^2", "?2^(%)", "?-1 AND %", "?NOT NOT %"}); }
V(C02) { c.sec("conditions and selectors of every value"); values(c, {"IF % THEN PRINT \"t\"", "IF % THEN PRINT \"t\" ELSE PRINT \"f\"", "IF % THEN 600", "IF % THEN 600 ELSE 500", "IF (%)=0 THEN PRINT \"z\" ELSE PRINT \"nz\"", "IF % THEN IF % THEN PRINT \"tt\" ELSE PRINT \"tf\"", "ON % GOTO 600,600", "ON % GOTO 600", "ON % GOTO 600,600,600,600,600", "IF NOT % THEN PRINT \"n\"", "IF % AND 1 THEN PRINT \"odd\" ELSE PRINT \"even\"", "IF %<1 THEN PRINT \"lt\" ELSE PRINT \"ge\"", "IF -% THEN PRINT \"m\" ELSE PRINT \"o\""}); }
V(C03) { c.sec("loops over every value"); values(c, {"FOR I=% TO 2:PRINT I;:N=N+1:IF N<5 THEN NEXT ELSE N=0", "N=0:FOR I=1 TO %:PRINT I;:N=N+1:IF N<5 THEN NEXT", "N=0:FOR I=1 TO 3 STEP %:PRINT I;:N=N+1:IF N<5 THEN NEXT", "N=0:FOR I=1 TO -2 STEP %:PRINT I;:N=N+1:IF N<5 THEN NEXT", "N=0:FOR I=% TO %:PRINT I;:N=N+1:NEXT:PRINT I;N"}); }
V(C04) { c.sec("selectors of every value"); values(c, {"ON % GOSUB 500,500", "ON % GOSUB 500", "ON % GOSUB 500,500,500,500:PRINT \"b\"", "IF % THEN GOSUB 500 ELSE PRINT \"no\""}); }
V(C05) { c.sec("items of every value"); for (auto& v : SV) for (auto r : {"READ A:PRINT A;A=0;STR$(A)", "READ A$:PRINT \"[\";A$;\"]\";LEN(A$)", "READ A,B,A$:PRINT A;B;A$"}) { if (c.take()) c.model(program(std::string("10 ") + r + "|20 DATA " + v + "," + v + "," + v)); model_session(c, std::string(r) + ":DATA " + v + ", " + v + " ," + v); } }
V(C06) { c.sec("indexes and bounds of every value"); values(c, {"Q(%)=5:PRINT Q(%);Q(0);Q(1)", "PRINT Q(%)", "Q$(%)=\"s\":PRINT Q$(%);Q$(2)", "R(%,1)=3:PRINT R(%,1);R(1,1)", "R(1,%)=4:PRINT R(1,%);R(1,0)", "READ Q(%):RESTORE:PRINT Q(1)", "CLEAR:DIM Q(%):PRINT Q(0)", "CLEAR:DIM R(%,2):PRINT R(0,2)", "CLEAR:DIM R(2,%):PRINT R(2,0)", "CLEAR:DIM Q$(%):PRINT Q$(0)", "CLEAR:DIM Q(%):Q(%)=3:PRINT Q(%);Q(1)", "CLEAR:DIM Q$(%,%)"});
  two_values(c, {"CLEAR:DIM R(%,@):PRINT R(0,0)", "PRINT R(%,@)"}); }
V(C07) { c.sec("lengths, positions and codes of every value"); values(c, {"PRINT \"[\";LEFT$(\"abc\",%);\"]\"", "PRINT \"[\";RIGHT$(\"abc\",%);\"]\"", "PRINT \"[\";MID$(\"abc\",%);\"]\"", "PRINT \"[\";MID$(\"abc\",%,2);\"]\"", "PRINT \"[\";MID$(\"abc\",2,%);\"]\"", "PRINT \"[\";LEFT$(\"\",%);\"]\"", "A$=CHR$(%):PRINT LEN(A$);ASC(A$)", "PRINT \"[\";STR$(%);\"]\";LEN(STR$(%))", "PRINT LEN(\"abc\")=%;ASC(\"a\")=%", "A$=STR$(%):PRINT LEFT$(A$,1);\"|\";MID$(A$,2);VAL(A$)", "PRINT VAL(STR$(%))=%;STR$(%)=STR$(-(%))"}); }
V(C08) { c.sec("arguments of every value"); values(c, {"PRINT FNA(%);X", "PRINT FNB(%);X", "PRINT FNC$(%);X", "PRINT FNA(%)=%;FNA(FNA(%))", "X=%:PRINT FND(X);X", "PRINT FNE(%)"}, {"DEF FNA(X)=X:DEF FNB(X)=X*2+Y:DEF FNC$(X)=STR$(X)", "DEF FND(Y)=X-Y:DEF FNE(X)=NOT X=0:Y=.5"}); }
V(C10) { c.sec("columns of every value"); VS small; for (auto& v : SV) if (v.find_first_not_of("-.0123456789") != std::string::npos || strtod(v.c_str(), 0) < 3000) small.push_back(v);
  values(c, {"PRINT \"ab\";TAB(%);\"c\"", "PRINT \"ab\";SPC(%);\"c\",\"d\"", "PRINT %,\"c\"", "PRINT %;TAB(20);\"c\"", "PRINT \"x\";%;TAB(3);%;\"c\"", "PRINT %;%;%,%", "PRINT TAB(%);TAB(%);\"t\";SPC(%)"}, {}, small); }
V(C16) { c.sec("values that fail, in the middle of things"); values(c, {"PRINT \"a\";LOG(%);\"b\"", "GOSUB 500:PRINT SQR(%)", "FOR I=1 TO 2:PRINT MID$(\"abc\",%):NEXT", "ON % GOTO 500", "DIM Z(%):PRINT \"d\"", "PRINT CHR$(%)"}, {}, {"0", "-1", "1", "-1E-60", "1E-60", "256", "255", "1.5", "65536", "4294967297", "1E308*10", "1E308*10-1E308*10", "-.5", ".5"}); }
V(C22) { c.sec("every value shown, kept and read back"); values(c, {"PRINT %;-(%);\"|\"", "A$=STR$(%):PRINT A$;VAL(A$)", "PRINT VAL(\"%\")", "PRINT VAL(\"%\")=(%)", "PRINT VAL(\" %x\");VAL(\"+%\");VAL(\"-%\")", "PRINT (%)*1000000;(%)/1000000"});
  for (auto& v : SV) if (c.take()) { Case k = program("10 INPUT A:PRINT A;STR$(A)|20 INPUT B$:PRINT VAL(B$)=A|30 IF A=" + v + " THEN PRINT \"same\"|40 READ C:PRINT C=A|50 DATA " + v); k.in = {v + "\n", v + "\n", "7\n"}; c.model(k); } }
V(C23) {
  c.sec("what RND is given does not matter");
  VS args = SV; for (auto x : {"A", "A(1)", "-A", "-A(1)", "LEN(A$)", "ASC(\"a\")", "-RND(1)", "RND(0)", "(-1)", "1-2", "-1*1", "FNA(1)", "-FNA(-2)", "VAL(\"-3\")", "-(2)", "NOT 0", "1=1", "1=2", "ABS(-5)", "INT(-.5)"}) args.push_back(x);
  auto same = [&](const std::string& a, const std::string& b, const char* tail) { if (!c.take()) return; auto mk = [&](const std::string& s) { return program("10 A=5:A(1)=-2:A$=\"q\":DEF FNA(X)=X|20 " + s + "|90 PRINT \"=\"|100 " + tail); }; c.run(Check{"tail", {mk(a), mk(b)}, "=\n"}); };
  for (auto seed : {"REM", "RANDOMIZE 9", "X=RND(1)"}) for (auto& a : args) { int n = a.find("RND") != std::string::npos ? 2 : 1; std::string one_, two; for (int i = 0; i < n; i++) one_ += "X=RND(1):"; for (int i = 0; i < n * 2; i++) two += "X=RND(1):"; std::string s(seed); bool rem = s == "REM"; std::string pre = rem ? "" : s + ":";
    same(pre + "X=RND(" + a + ")", pre + one_, "PRINT RND(1),RND(1),RND(1)"); same(pre + "X=RND(" + a + ")+RND(" + a + ")", pre + two, "PRINT RND(1),RND(1)"); same(pre + "PRINT RND(" + a + ")", pre + "PRINT RND(1):" + (n > 1 ? "X=RND(1)" : ""), "PRINT RND(1),RND(1)");
    if (n == 1) for (auto u : {"PRINT RND(%),RND(%)", "FOR I=1 TO 3:PRINT RND(%):NEXT:PRINT RND(1)", "PRINT INT(RND(%)*1000)+1;INT(RND(%)*6)", "Q(RND(%)*9)=1:FOR I=0 TO 9:PRINT Q(I);:NEXT", "IF RND(%)<.5 THEN PRINT \"h\",RND(1) ELSE PRINT \"t\",RND(1)", "ON INT(RND(%)*2)+1 GOTO 110|105 PRINT \"two\"|110 PRINT RND(%)"}) { if (!c.take()) continue; auto mk = [&](const std::string& x) { return program("10 A=5:A(1)=-2:A$=\"q\":DEF FNA(X)=X|20 " + pre + "REM|90 PRINT \"=\"|100 " + put(u, x)); }; c.run(Check{"tail", {mk(a), mk("1")}, "=\n"}); } }
  c.sec("seeds of every value");
  for (auto& v : SV) for (auto form : {"RANDOMIZE %", "V=%:RANDOMIZE V", "IF 1 THEN RANDOMIZE %", "GOSUB 200|25 GOTO 90|200 RANDOMIZE %:RETURN"}) { if (v[0] == '-' || v.find('.') != std::string::npos || v.find("E") != std::string::npos || v.find("/") != std::string::npos || strtod(v.c_str(), 0) > 4294967295.0) continue;
    for (auto h : {"REM", "X=RND(1)", "RANDOMIZE 3:X=RND(1)", "FOR I=1 TO 40:X=RND(I):NEXT"}) { if (!c.take()) continue; auto mk = [&](const std::string& h) { Case k = program("10 " + h + "|20 " + put(form, v) + "|90 PRINT \"=\"|100 PRINT RND(1),RND(2),RND(3):END"); if (std::string(form).find("|200") != std::string::npos) k = program("10 " + h + "|20 GOSUB 200|90 PRINT \"=\"|100 PRINT RND(1),RND(2),RND(3):END|200 RANDOMIZE " + v + ":RETURN"); return k; }; c.run(Check{"tail", {mk(h), program("20 RANDOMIZE " + v + "|90 PRINT \"=\"|100 PRINT RND(1),RND(2),RND(3):END")}, "=\n"}); } }
  values(c, {"RANDOMIZE %", "X=RND(%):PRINT X>=0;X<1", "PRINT RND(%)<1"});
}

// ---- line numbers of every digit count, everywhere a line number is written or shown
static const VS LN = { "1", "9", "10", "99", "100", "255", "256", "999", "1000", "9999", "10000", "32767", "32768", "65535", "65536", "65537", "99999", "100000", "131072", "999999", "1000000", "9999999", "10000000", "16777217", "99999999", "100000000", "999999999", "1000000000", "2147483647", "2147483648", "4294967294", "4294967295" };
static void line_numbers(Ctx& c, CVS st, bool list = false) { // % the line itself, @ a second line
  for (size_t i = 0; i < LN.size(); i++) for (size_t j = 0; j < LN.size(); j++) { if (i == j || (!c.thorough && (i + j) % 2 == 0 && i + 1 != j && j + 1 != i)) continue;
    for (auto& s : st) { if (!c.take()) continue; std::string o; for (char ch : s) if (ch == '%') o += LN[i]; else if (ch == '@') o += LN[j]; else o += ch; Case k; k.argv = {"-q"}; for (auto& l : lines_of(o)) k.in.push_back(l); c.model(k); } }
}
V(C11) { c.sec("line numbers of every size"); line_numbers(c, {"% PRINT \"a\";|@ PRINT \"b\"|LIST|RUN|LIST %|LIST @|LIST -%|LIST %-|LIST %-@|%|LIST|@ REM|LIST|RUN", "% REM first|@ REM second|% REM again|LIST|@|LIST|%|LIST"}); }
V(C12) { c.sec("line numbers of every size through files"); line_numbers(c, {"% PRINT \"a\"|@ REM b|SAVE \"F\"|NEW|LOAD \"F\"|LIST|RUN|SAVE \"G\"|NEW|LOAD \"G\"|LIST"}); }
V(C13) { c.sec("line numbers of every size renumbered"); line_numbers(c, {"% GOTO @:GOSUB %|@ ON X GOTO %,@|LIST|RENUM|LIST|RENUM %|LIST|RENUM %,10,@|LIST|RENUM 1,1,%|LIST", "% IF X THEN @ ELSE %|@ RESTORE %|RENUM @|LIST|RENUM %,%|LIST|RENUM @,20,%|LIST"}); }
V(C18) {
  c.sec("line numbers of every size in messages"); line_numbers(c, {"% PRINT (|@ X=|RUN|COMPILE|GOTO %|LIST", "% PRINT LOG(0)|@ GOTO 5:PRINT 1|RUN|GOTO @|COMPILE"});
  c.sec("lists of every kind of element");
  { VS el = {"X", "X$", "Q(1)", "Q$(1)", "R(1,2)", "R$(X,1)", "FNA(1)", "FNA$", "LEN(X$)", "5", "-5", "\"s\"", "X+1", "(X)", "PRINT", "", "Q()", "Q(1,2,3)", "Q(X", "X Y", "1.5", "TAB(2)", "TO", "A=1"};
    VS kw = {"DIM ", "READ ", "INPUT ", "INPUT \"p\";", "NEXT ", "PRINT ", "DATA ", "LINE INPUT ", "ON X GOTO ", "ON X GOSUB ", "LET ", "RESTORE ", "GOTO ", "CLEAR ", "RANDOMIZE ", "IF X THEN DIM ", "DEF FNA(X)=", "DEF FNB$(X)=", "FOR I=", "FOR ", "RUN ", "LIST ", "NEW ", "CONT ", "X=", "X$=", "STOP ", "END ", "RETURN ", "CLS ", "REM "};
    auto go = [&](const std::string& l) { if (!c.take()) return; if (l.size() > 120) return; Case k = program("5 PRINT \"b\"|10 " + l + "|20 PRINT \"a\""); k.in = {"1\n", "2\n", "3\n", "4\n"}; c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); };
    for (auto& k : kw) sequences(el, 1, 3, [&](CVS v) { if (v.size() == 3 && !c.thorough) { bool odd = false; for (auto& x : v) odd = odd || x.empty() || x == "Q()" || x == "Q(X"; if (odd || k.size() > 7) return; } go(k + join(v, ",")); if (v.size() == 2) { go(k + v[0] + ";" + v[1]); go(k + v[0] + ":" + v[1]); } });
    for (auto& k : kw) for (auto& x : el) for (auto& k2 : kw) go(k + x + ":" + k2 + x); }
}
V(C20) {
  c.sec("--list of every line number");
  for (size_t i = 0; i < LN.size(); i++) for (size_t j = i + 1; j < LN.size(); j++) for (auto m : {"-l", "--list", "-n", "-p", "-t", "-c", "-f", "-k"}) { if (!c.take()) continue; if (m[1] == 'c') continue; Case k; k.argv = {"-q", m, "P"}; k.files["P"] = LN[i] + " PRINT \"a\";X\n" + LN[j] + " FOR I=1 TO 1:NEXT:GOTO " + LN[j] + "0\n"; c.model(k); }
  c.sec("names listed");
  for (char a = 'A'; a <= 'Z'; a++) { for (int form = 0; form < 2; form++) { VS n; std::string A(1, a);
      for (char b = 'A'; b <= 'Z'; b++) n.push_back(A + b); for (char b = '0'; b <= '9'; b++) n.push_back(A + b); for (int l = 1; l <= 30; l++) { n.push_back(rep(A, l)); n.push_back(A + rep("Z", l)); n.push_back(A + rep("9", l)); }
      for (size_t i = 0; i < n.size(); i += 5) for (auto st : {"%=1", "%$=\"s\"", "%(1)=2", "PRINT %;", "READ %", "FOR %=1 TO 2", "NEXT %", "DIM %$(2)", "INPUT %", "DEF FN%(%)=1", "PRINT FN%(1)", "x=%$+%"}) { if (!c.take()) continue; std::string p; for (size_t q = i; q < i + 5 && q < n.size(); q++) p += num(10 + q) + " " + put(st, form ? lower(n[q]) : n[q]) + "\n"; for (auto m : {"-n", "--list-names"}) { Case k; k.argv = {"-q", m, "P"}; k.files["P"] = p; c.model(k); if (c.thorough) { k.argv.insert(k.argv.begin(), "-k"); c.model(k); } } } } }
}
// ---- names of every kind in every use
V(C21) {
  c.sec("names of every kind in every use");
  VS kw = {"PRINT", "FOR", "TO", "IF", "ON", "OR", "AND", "NOT", "GOTO", "NEXT", "LEN", "DEF", "FN", "END", "READ", "DATA", "LET", "REM", "TAB", "SPC", "THEN", "ELSE", "STEP", "RUN", "LIST", "NEW", "LOAD", "SAVE", "CONT", "CLS", "DIM", "INPUT", "LINE", "STOP", "RND", "INT", "ABS", "VAL", "ASC", "SQR", "CHR", "STR", "MID", "LEFT", "RIGHT", "RENUM", "COMPILE", "CLEAR", "RESTORE", "RETURN", "GOSUB", "RANDOMIZE", "SIN", "COS", "TAN", "ATN", "EXP", "LOG", "SGN"};
  VS names; for (auto& k : kw) { for (auto s : {"X", "S", "1", "A1"}) names.push_back(k + s); for (auto s : {"X", "A1", "Z"}) names.push_back(s + k); names.push_back(k.substr(0, k.size() - 1)); names.push_back(k + k); }
  for (char a = 'A'; a <= 'Z'; a++) { std::string A(1, a); names.push_back(A); for (auto s : {"0", "9", "A", "Z", "99", "AB1", "1A"}) names.push_back(A + s); } for (int l = 2; l <= 60; l++) names.push_back(rep("A", l)); for (int l = 1; l < 40; l += 3) names.push_back("N" + rep("ABC", l));
  VS uses = {"%=3:PRINT %;%*2", "%$=\"s\":PRINT %$;%", "%(2)=4:PRINT %(2);%;%(1)", "%$(2)=\"t\":PRINT %$(2);%$", "FOR %=1 TO 2:PRINT %;:NEXT %", "READ %:PRINT %:DATA 5", "DEF FN%(%)=%+1:PRINT FN%(3);%", "DIM %(3),%$(2):%(3)=1:PRINT %(3)", "IF %=0 THEN %=7:PRINT %", "%=1:%(1)=2:%$=\"c\":%$(1)=\"d\":PRINT %;%(1);%$;%$(1)", "X=%:PRINT X;-%;NOT %;%+%", "PRINT%;%", "LET %=1:PRINT %=1"};
  for (auto& n : names) for (auto& u : uses) { std::string l = put(u, n); if (l.size() > 110 || n.empty()) continue; if (c.take()) { Case k = program("10 " + l + "|20 PRINT \"e\""); c.model(k); } if (c.take()) c.model(session(l + "|" + put("PRINT %;%$", n) + "|LIST")); if (c.take()) { Case k = program("10 " + lower(l) + "|20 print \"e\";" + n); c.model(k); } if (c.thorough && c.take()) { Case k = program("10 " + l + "|20 PRINT \"e\""); k.argv = {"-q", "-k", "P"}; c.model(k); } }
  c.sec("every pair of names that resemble each other");
  VS pn = {"A", "A1", "A2", "A10", "AA", "AB", "B", "B1", "AAA", "AAB", "NUMBER", "NUMBERS", "NUMBER1", "NUMBE", "COUNTER1", "COUNTER2", "ABCDEFGHIJKLMNOP", "ABCDEFGHIJKLMNOQ", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEF", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEG", "X0", "X00", "X01", "FNA", "FN", "F", "N", "I", "L", "O", "O0", "OO", "Z", "ZZ"};
  for (auto& a : pn) for (auto& b : pn) { if (a == b) continue; for (int f = 0; f < 6; f++) { if (!c.take()) continue; std::string x = a + (f == 1 || f == 3 ? "$" : ""), y = b + (f == 1 || f == 4 ? "$" : ""); if (f == 2) { x += "(1)"; y += "(1)"; } std::string vx = x.find('$') != std::string::npos ? "\"one\"" : "1", vy = y.find('$') != std::string::npos ? "\"two\"" : "2"; std::string l = f == 5 ? "10 DEF FN" + a + "(Q)=Q+1:DEF FN" + b + "(Q)=Q+2|20 PRINT FN" + a + "(1);FN" + b + "(1)" : "10 " + x + "=" + vx + ":" + y + "=" + vy + "|20 PRINT " + x + ";" + y + "|30 " + x + "=" + x + "+" + vx + "|40 PRINT " + x + ";" + y; c.model(program(l)); c.model(session(l + "|RUN|PRINT " + y + ";" + x)); } }
}
V(C17) {
  c.sec("programs of every size with a line put in everywhere");
  std::vector<int> sz; for (int i = 0; i <= 10; i++) sz.push_back(i); for (int b : {16, 32, 64, 128, 256, 512, 1024}) for (int d = -2; d <= 2; d++) sz.push_back(b + d);
  for (int n : sz) { if (!c.thorough && n > 520) continue; std::vector<int> at = {0, 1, n / 2, n - 2, n - 1, n}; for (int p : at) { if (p < 0 || p > n) continue; for (auto how : {"I", "F", "D", "R"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; std::string t; for (int i = 0; i < n; i++) { std::string l = num(10 + i * 10) + " REM " + num(i) + "\n"; if (*how == 'F') t += l; else k.in.push_back(l); } if (*how == 'F') { k.files["F"] = t; k.in.push_back("LOAD \"F\"\n"); }
      for (int r = 0; r < 3; r++) { k.in.push_back(num(5 + p * 10 + r) + " PRINT " + num(r) + "\n"); if (*how == 'D') k.in.push_back(num(10 + p * 10) + "\n"); if (*how == 'R') { k.in.push_back(num(10 + p * 10) + " REM changed to something longer\n"); k.in.push_back("RENUM 10,0,10\n"); } }
      k.in.push_back("LIST\n"); k.in.push_back("RUN\n"); c.run(Check{"mem", {k}, "long"}); } } }
  c.sec("values that are taken as sizes and places");
  for (auto& v : SV) for (auto st : {"DIM Q(%):Q(0)=1", "Q(%)=1:PRINT Q(%)", "R(%,%)=1", "DIM R(1,%)", "PRINT LEFT$(\"abc\",%);RIGHT$(\"abc\",%);MID$(\"abc\",%);MID$(\"abc\",%,%);MID$(\"abc\",1,%)", "PRINT CHR$(%);STR$(%)", "ON % GOTO 10", "ON % GOSUB 10", "RANDOMIZE %:PRINT RND(%)", "PRINT INT(%);SQR(%);EXP(%);SIN(%);%^%", "READ Q$(%)", "INPUT Q(%)", "PRINT % AND %;% OR 1;NOT %", "FOR I=% TO %:NEXT"}) if (c.take()) c.run(Check{"mem", {session(std::string("10 RETURN|") + put(st, v) + "|V=" + v + ":" + put(st, "V") + "|10 DATA 4|RUN|" + put(st, v))}, ""});
}
