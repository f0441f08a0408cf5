// Three more axes that cut across every property: the text (every character, and pieces that a format, an escape or a
// separator could be made of, wherever text is kept or shown), the count (of names, items, functions, lines, around the
// sizes at which tables grow), and the way a number is written (every number of digits in each of its parts).
#include "gen.h"
#define A(id) void axes_##id(Ctx& c)

static std::string put(const std::string& t, const std::string& body) { std::string o; for (char ch : t) if (ch == '\x01') o += body; else o += ch; return o; }
static std::string at(std::string t, const std::string& body) { for (char& ch : t) if (ch == '@') ch = '\x01'; return put(t, body); }
// every character, alone and between others, and what could be mistaken for something else
static const VS& texts(bool quote) {
  static VS t[2];
  for (int q = 0; q < 2; q++) if (t[q].empty()) {
    for (int i = 1; i < 256; i++) { if (i == '\n' || i == '\r' || (i == '"' && !q) || i == 26) continue; std::string ch(1, (char)i); t[q].push_back(ch); t[q].push_back("a" + ch + "b"); if (!isalnum(i)) t[q].push_back(ch + ch); if (!isalnum(i) && i < 128) t[q].push_back(" " + ch + "1"); }
    for (auto s : {"%d", "%s", "%n", "%%", "100%", "%c%c%c", "%5d|", "%x%x%x%x", "\\n", "\\", "\\t", "\\0", "\\\\", "a  b", " a", "a ", "  ", "a\tb", "REM", "GOTO 10", ":PRINT", "ELSE", "THEN", "a:b", "a,b", "a;b", "'", "a'b", "0", "-1", "+1", "1E5", "1e5", ".", "-", "12abc", "&H10", "1.5.5", "Aa", "zZ", "?", "$", "(", ")", "a=b", "<>", "STOP", "10 PRINT", "*x", "{}[]", "~`^_|" }) t[q].push_back(s);
    for (int n = 10; n <= 90; n += 10) t[q].push_back(rep("0123456789", n / 10));
  }
  return t[quote];
}
// each template with each text; @ marks the place
static void text(Ctx& c, CVS sessions, CVS programs, bool quote = false, const VS& in = {}) {
  auto& T = texts(quote); size_t max = 120;
  for (size_t i = 0; i < T.size(); i++) {
    for (auto& s : sessions) { if (!c.take()) continue; Case k; k.argv = {"-q"}; bool fits = true; for (auto& l : split(s)) { std::string x = at(l, T[i]); fits = fits && x.size() < max; k.in.push_back(x + "\n"); } if (fits) c.model(k); }
    for (auto& p : programs) { if (!c.take()) continue; Case k; k.argv = {"-q", "P"}; for (auto& l : split(p)) k.files["P"] += at(l, T[i]) + "\n"; for (auto& l : in) k.in.push_back(at(l, T[i]) + "\n"); c.model(k); }
  }
}
static std::vector<int> counts(int top) { std::vector<int> v; for (int i = 1; i <= 12; i++) v.push_back(i); for (int b = 16; b <= top; b *= 2) for (int d = -2; d <= 2; d++) v.push_back(b + d); for (int d : {20, 25, 40, 50, 75, 100, 200, 300, 500, 1000}) if (d <= top) v.push_back(d); return v; }
static std::string name(int i) { return std::string(1, 'A' + i % 26) + (i >= 26 ? num(i / 26) : ""); }

A(C01) { c.sec("any number of signs, NOTs and brackets");
  for (auto u : {"-", "NOT ", "(", "- ", "-NOT ", "NOT -", "(-", "-(", "NOT("}) for (int n = 0; n <= 110; n++) for (auto v : {"5", "0", "A", "Q(1)", "2^2", "\"s\"=A$"}) { std::string t = rep(u, n) + v; for (char ch : rep(u, n)) if (ch == '(') t += ")"; if (t.size() > 110) continue; if (c.take()) c.model(session("A=3:Q(1)=-2:A$=\"s\"|PRINT " + t + "|X=1-" + t + ":PRINT X|10 PRINT " + t + "+1|RUN")); }
  c.sec("comparisons of every text"); text(c, {"A$=\"@\":B$=\"b\":?A$=\"@\";A$<B$;A$>B$;A$<=\"@\";A$<>\"@\";\"@\"<\"\";\"\"<A$;\"@\"=\"@\"+\"\"", "?\"@\"<\"A\";\"@\"<\"a\";\"@\"<\"0\";\"@\"<\" \";\"@\"<\"~\";\"@\">\"@@\";\"@\"+\"x\">\"@\"+\"y\""}, {}); }
A(C02) { c.sec("conditions on every text"); text(c, {"IF \"@\"=\"@\" THEN PRINT \"@\" ELSE PRINT \"x\"", "IF \"@\">\"a\" THEN PRINT 1:PRINT \"@\" ELSE PRINT 2:PRINT \"@\""}, {"10 IF A$=\"\" THEN A$=\"@\":GOTO 10 ELSE PRINT A$|20 REM @|30 ON LEN(\"@\") GOTO 40,50,60|35 END|40 PRINT \"@4\":GOTO 20 REM @|50 PRINT \"@5\":REM @|60 PRINT \"@6\""}); }
A(C05) { c.sec("items of every text");
  text(c, {"READ A$,B$:PRINT \"[\";A$;\"][\";B$;\"]\":DATA @,\"@\"", "READ A$,B$,C$:PRINT A$;B$;C$:DATA \"@\",@,x"}, {"10 READ A$:PRINT \"[\";A$;\"]\";LEN(A$):GOTO 10|20 DATA @|30 DATA x@y, @ ,\"@\"|40 DATA \"@\",\"@\":PRINT \"@\"|50 DATA z"}, true);
  c.sec("any number of items");
  for (int n : counts(c.thorough ? 1024 : 260)) for (int form = 0; form < 5; form++) { if (!c.take()) continue; std::string p = "10 FOR I=1 TO " + num(n) + ":READ A$:PRINT A$;\";\";:NEXT:RESTORE:READ B$:PRINT B$:RESTORE " + num(100 + n / 2) + ":READ C$:PRINT C$|20 READ D$"; for (int i = 0; i < n; i++) { std::string v = form & 1 ? "\"" + num(i) + "s\"" : num(i); p += "|" + num(100 + i) + (form < 2 ? " DATA " : form == 2 ? (i % 3 ? " DATA " : " REM ") : form == 3 ? " PRINT:DATA " : (i % 2 ? " DATA x," : " DATA ")) + v; } c.model(program(p)); } }
A(C06) { c.sec("elements of every text"); text(c, {"Q$(1)=\"@\":Q$(2)=Q$(1)+\"@\":PRINT Q$(1);Q$(2);LEN(Q$(2));Q$(0)", "DIM R$(1,1):R$(0,1)=\"@\":R$(1,0)=R$(0,1):R$(0,1)=\"\":PRINT R$(1,0);R$(0,1);R$(1,1)"}, {});
  c.sec("any number of arrays");
  for (int n : counts(c.thorough ? 512 : 130)) for (int form = 0; form < 4; form++) { if (!c.take()) continue; VS v = {"-"}; std::string p = "1 REM"; auto nm = [&](int i) { return name(i) + (form == 1 || (form == 3 && i % 2) ? "$" : ""); }; auto val = [&](int i) { return form == 1 || (form == 3 && i % 2) ? "\"s" + num(i) + "\"" : num(i); };
    for (int i = 0; i < n; i++) { if (form >= 2) p += "|" + num(10 + i) + " DIM " + nm(i) + "(" + num(3 + i % 5) + (i % 3 ? "" : ",2") + ")"; p += "|" + num(2000 + i) + " " + nm(i) + "(" + num(i % 4) + (form >= 2 && i % 3 == 0 ? ",1" : "") + ")=" + val(i); }
    for (int i = 0; i < n; i += 1 + n / 40) p += "|" + num(5000 + i) + " PRINT " + nm(i) + "(" + num(i % 4) + (form >= 2 && i % 3 == 0 ? ",1" : "") + ");"; p += "|8000 IF Z9=0 THEN CLEAR:Z9=1:GOTO 5000"; c.model(program(p)); } }
A(C07) { c.sec("functions of every text"); text(c, {"A$=\"@\":PRINT LEN(A$);ASC(A$);\"[\";LEFT$(A$,1);\"][\";RIGHT$(A$,1);\"][\";MID$(A$,2);\"][\";MID$(A$,2,1);\"]\"", "PRINT CHR$(ASC(\"@\"))=LEFT$(\"@\",1);\"@\"+\"@\";VAL(\"@\")", "A$=\"@\"+CHR$(9)+\"@\":PRINT LEN(A$);A$;ASC(RIGHT$(A$,1));MID$(A$,LEN(\"@\")+1)", "PRINT VAL(\"1@\");VAL(\"-@5\");VAL(\"1E@\");VAL(\"@1\")"}, {}); }
A(C08) { c.sec("functions with every text"); text(c, {"DEF FNA$(X)=\"@\"+STR$(X)+\"@\":PRINT FNA$(1);LEN(FNA$(2))|DEF FNA$(X)=\"\"|PRINT FNA$(1)"}, {"10 DEF FNA$(X)=LEFT$(\"@\",X)+A$:A$=\"@\"|20 PRINT FNA$(1);FNA$(2)|30 DEF FNA$(X)=A$|40 PRINT FNA$(1)"});
  c.sec("every kind of term at every place of a function of any length");
  VS term = {"LEN(\"\")", "LEN(\"ab\")", "Q(1)", "LEN(S$)", "FNB(2)", "-X", "Y", "VAL(\"3\")", "1.5", "ABS(Y)", "LEN(LEFT$(\"xyz\",X))", "ASC(\"a\")", "(\"p\"=S$)", "R(0,X)", "LEN(TIME$)", "RND(1)*0", "SQR(X)", "SGN(X)", "INT(X)", "EXP(0)", "LOG(X)", "SIN(0)", "COS(0)", "TAN(0)", "ATN(0)", "LEN(CHR$(X))", "LEN(RIGHT$(S$,X))", "LEN(MID$(S$,X,1))", "LEN(MID$(S$,X))", "LEN(STR$(X))", "(X AND 3)", "(X OR 1)", "(NOT X)", "(X<>1)", "(X>=1)", "(S$<>\"a\")", "X^2", "X/2", "(1)"};
  for (auto& t : term) for (int n = 0; n <= 50; n += c.thorough ? 1 : 1 + n / 12) for (int k = 0; k <= n; k += c.thorough ? 1 : n < 10 ? 1 : n / 5) { std::string e; for (int i = 0; i <= n; i++) e += std::string(i ? "+" : "") + (i == k ? t : (i & 1) ? "1" : "X"); if (e.size() > 95) continue; if (!c.take()) continue; c.model(session("10 Y=4:S$=\"ab\":Q(1)=6:R(0,2)=8:DEF FNB(Z)=Z*Y|20 DEF FNA(X)=" + e + "|30 PRINT FNA(1);FNA(2);X;FNA(FNA(1))|40 DEF FNA(X)=X|50 PRINT FNA(5)|RUN|DEF FNA(Z)=" + e + "|PRINT FNA(2)|RUN|NEW|PRINT Y")); }
  VS sterm = {"\"\"", "\"ab\"", "S$", "STR$(X)", "FNT$(1)", "Q$(1)", "LEFT$(\"abc\",X)", "CHR$(65+X)", "MID$(S$,X)"};
  for (auto& t : sterm) for (auto& u : sterm) for (int n = 1; n <= 24; n += 1 + n / 8) { std::string e; for (int i = 0; i <= n; i++) e += std::string(i ? "+" : "") + (i == n / 2 || i == n ? t : u); if (e.size() > 92) continue; if (c.take()) c.model(session("10 S$=\"pq\":Q$(1)=\"r\":DEF FNT$(Z)=S$+\"t\"|20 DEF FNA$(X)=" + e + "|30 PRINT FNA$(1);LEN(FNA$(2))|40 DEF FNA$(X)=S$|50 PRINT FNA$(5)|RUN|NEW|RUN")); }
  c.sec("any number of functions");
  for (int n : counts(c.thorough ? 512 : 260)) for (int form = 0; form < 3; form++) { if (!c.take()) continue; std::string p = "5 S$=\"s\""; for (int i = 0; i < n; i++) p += "|" + num(10 + i) + " DEF FN" + name(i) + (form == 1 ? "$(X)=S$+STR$(X+" + num(i) + ")" : "(X)=X*2+" + (form == 2 && i ? "FN" + name(i - 1) + "(0)-" : std::string()) + num(i)); for (int i = 0; i < n; i += 1 + n / 40) p += "|" + num(3000 + i) + " PRINT FN" + name(i) + (form == 1 ? "$" : "") + "(3);X;"; p += "|9000 IF Z9=0 THEN Z9=1:GOTO 10 ELSE CLEAR:PRINT FNA(1)"; c.model(program(p)); } }
A(C09) { c.sec("prompts and responses of every text");
  text(c, {"INPUT \"@\";A$|@|PRINT \"[\";A$;\"]\"", "LINE INPUT \"@\";A$|@|PRINT \"[\";A$;\"]\"", "INPUT A,B$|@|1,@|PRINT A;B$|2,x|PRINT A;B$|3,y"}, {"10 INPUT \"@\";A$,B|20 PRINT A$;B|30 LINE INPUT A$|40 PRINT A$;LEN(A$)|50 INPUT A$|60 PRINT A$;LEN(A$)"});
  auto& T = texts(true); for (auto& t : T) for (auto f : {"@", "@,5", "5,@", "\"@\",1", " @ , 2 ", "\"@\" x,1", "1@,2"}) for (auto p : {"10 INPUT A$,B|20 PRINT \"[\";A$;\"]\";B", "10 INPUT A,B$|20 PRINT A;\"[\";B$;\"]\"", "10 LINE INPUT A$|20 PRINT \"[\";A$;\"]\"", "10 INPUT A$|20 PRINT \"[\";A$;\"]\""}) { if (!c.thorough && t.size() > 1 && t.size() < 3 && f[0] != '@') continue; if (!c.take()) continue; Case k = program(p); std::string l = at(f, t); if (l.size() > 120) continue; k.in = {l + "\n", "7,8\n", "9\n"}; c.model(k); }
  c.sec("any number of variables");
  for (int n = 1; n <= 30; n++) for (int form = 0; form < 5; form++) for (int given = -2; given <= 2; given++) { if (n + given < 1) continue; if (!c.take()) continue; std::string l = "10 INPUT ", r, pr = "20 PRINT "; for (int i = 0; i < n; i++) { std::string v = form == 0 ? name(i) : form == 1 ? name(i) + "$" : form == 2 ? "Q(" + num(i) + ")" : form == 3 ? (i & 1 ? name(i) + "$" : name(i)) : "A"; if (form == 2 && i > 10) v = "Q"; l += (i ? "," : "") + v; pr += v + ";"; } for (int i = 0; i < n + given; i++) r += (i ? "," : "") + std::string(form == 1 || (form == 3 && (i & 1)) ? "s" : "") + num(i); if (l.size() > 122 || r.size() > 120) continue; Case k = program(l + "|" + pr); k.in = {r + "\n", r + "\n", "99,98,97\n"}; c.model(k); } }
A(C10) { c.sec("every text printed"); text(c, {"PRINT \"@\";\"x\",\"@\";TAB(40);\"@\"", "?\"@\":?TAB(LEN(\"@\"));\"^\"", "A$=\"@\":PRINT A$;1;A$,2;SPC(2);A$:PRINT \"<@>\"", "PRINT \"@@\",\"y\""}, {"10 PRINT \"@\";|20 PRINT \"@\",\"z\"|30 PRINT STR$(1)+\"@\";TAB(30);1"}); }
A(C11) { c.sec("lines of every text");
  text(c, {"10 REM @|20 PRINT \"@\":REM@|30 DATA @,\"@\"|LIST|LIST 20|RUN|20|LIST", "10 @|LIST|10|LIST", "10 A$=\"@\" @|LIST|5 @@|LIST", "LIST @|10 REM|LIST @-|LIST 1@", "1@ REM x|LIST|1@|LIST", "@1 REM x|LIST"}, {}, true);
}
A(C12) { c.sec("lines of every text through files"); text(c, {"10 REM @|20 PRINT \"@\"|30 DATA @|SAVE \"F\"|NEW|LOAD \"F\"|LIST|RUN", "10 @|SAVE \"F\"|NEW|LOAD \"F\"|LIST"}, {"10 PRINT \"@\"|20 REM @"}, true);
  c.sec("names of files of every text"); { auto& T = texts(true); for (auto& t : T) { if (t.find('/') != std::string::npos || t.size() > 60) continue; for (auto s : {"10 PRINT 1|SAVE \"@\"|NEW|LOAD \"@\"|LIST", "10 PRINT 1|SAVE @|NEW|LOAD @|LIST", "10 PRINT 1|LOAD \"@\"|LIST|LOAD @|LIST|LOAD \"no@\"", "10 REM|SAVE \"x@\"|NEW|LOAD \"x@\"|LIST|NEW|LOAD \"x\"|LIST"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (auto& l : split(s)) k.in.push_back(at(l, t) + "\n"); c.model(k); } } } }
A(C13) { c.sec("lines of every text renumbered"); text(c, {"7 REM @ 9|8 PRINT \"@9\":GOTO 9|9 DATA @,9|RENUM|LIST", "7 REM@|8 IF A$=\"@\" THEN 9 ELSE 7|9 DATA \"@\",7:GOSUB 8|RENUM 100,7,5|LIST|RENUM|LIST", "7 GOTO 9@|9 GOSUB @7|RENUM|LIST"}, {}, true);
  c.sec("any number of references");
  for (int n : counts(c.thorough ? 512 : 130)) for (int form = 0; form < 4; form++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) { int to = form == 0 ? i : form == 1 ? n - 1 - i : form == 2 ? (i * 7) % n : (i + 1) % n; k.in.push_back(num(3 + i * 3) + (form == 3 ? " ON X GOTO " + num(3 + to * 3) + "," + num(3) + "," + num(3 + (n - 1) * 3) : i % 2 ? " GOTO " + num(3 + to * 3) : " IF A THEN " + num(3 + to * 3) + " ELSE " + num(3 + i * 3)) + "\n"); } for (auto l : {"RENUM\n", "LIST\n", "RENUM 1,0,1\n", "LIST\n"}) k.in.push_back(l); c.model(k); }
  for (int n = 1; n <= 40; n++) for (auto w : {"GOTO ", "GOSUB "}) for (auto to : {"100,200", "200", "100,5,200"}) { if (!c.take()) continue; std::string l; VS t = split(to, ','); for (int i = 0; i < n; i++) l += (i ? "," : "") + t[i % t.size()]; if (l.size() > 95) continue; c.model(session("100 ON X " + std::string(w) + l + "|200 ON X " + w + l + ":PRINT 200:GOTO 100|RENUM 1000,0,1000|LIST|RENUM 7,0,7|LIST|RENUM 30000,0,20000|LIST")); } }
A(C14) { c.sec("any number of names kept over a stop");
  for (int n : counts(c.thorough ? 512 : 130)) for (auto mid : {"PRINT 1", "Z9=1", "PRINT (", "PRINT LOG(0)", "LIST 10", "NEWNAME=3:NEWNAME$=\"n\"", "DIM W9(3)", "SAVE \"F\""}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) { std::string f = i % 4 == 0 ? "=" + num(i) : i % 4 == 1 ? "$=\"s" + num(i) + "\"" : i % 4 == 2 ? "(1)=" + num(i) : "$(2)=\"e" + num(i) + "\""; k.in.push_back(num(10 + i) + " " + name(i) + f + "\n"); } k.in.push_back("2000 FOR I9=1 TO 2:STOP:NEXT\n"); int q = 0; for (int i = 0; i < n; i += 1 + n / 24) k.in.push_back(num(3000 + q++) + " PRINT " + name(i) + (i % 4 == 0 ? "" : i % 4 == 1 ? "$" : i % 4 == 2 ? "(1)" : "$(2)") + ";\n"); for (auto l : {"RUN", mid, "CONT", mid, "CONT", "RUN", "CONT", "CONT"}) k.in.push_back(std::string(l) + "\n"); c.model(k); } }
A(C15) { c.sec("any number of names cleared");
  for (int n : counts(c.thorough ? 512 : 130)) for (int form = 0; form < 6; form++) for (auto how : {"CLEAR", "RUN", "NEW", "GOTO 5", "8000 REM", "LOAD \"F\""}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; k.files["F"] = "5 REM\n"; auto kind = [&](int i) { return form < 5 ? form : i % 5; };
    auto use = [&](int i) { int f = kind(i); return (f == 4 ? "FN" : "") + name(i) + (f == 1 ? "$" : f == 2 ? "(1)" : f == 3 ? "$(2)" : f == 4 ? "(1)" : ""); };
    k.in.push_back("5 REM\n"); for (int i = 0; i < n; i++) k.in.push_back((kind(i) == 4 ? "DEF FN" + name(i) + "(X)=X+" + num(i) : use(i) + "=" + (kind(i) & 1 ? "\"s" + num(i) + "\"" : num(i + 1))) + "\n"); auto show = [&] { std::string l = "PRINT "; for (int i = 0; i < n; i++) { l += use(i) + ";"; if (l.size() > 90 || i + 1 == n || kind(i) == 4) { k.in.push_back(l + "\n"); l = "PRINT "; } } }; show(); k.in.push_back(std::string(how) + "\n"); show(); k.in.push_back("CLEAR\n"); if (n < 70) show(); c.model(k); } }
A(C16) { c.sec("errors among every text"); text(c, {"10 PRINT \"@\":REM @|20 A$=\"@\":PRINT A$:PRINT LOG(0)|RUN|CONT|PRINT A$", "PRINT \"@\";LOG(0)|PRINT \"@\""}, {"10 GOSUB 30|20 REM @|30 PRINT \"@\";:A$=\"@\"+MID$(\"@\",-1)|40 PRINT \"@\""}); }
A(C18) { c.sec("errors about every text"); text(c, {"@|PRINT 1", "A@|A@1=1|@A=1|A @|PRINT @|PRINT A@", "10 @|RUN|COMPILE|10 PRINT @|RUN|10 A@=1|RUN", "PRINT \"@|PRINT \"@\"\"@\"|PRINT \"@\"@|A=\"@\"|A$=1@", "GOTO @|ON @|FOR I=@|DIM @|DEF FN@|READ @|INPUT @", "LOAD \"@\"|SAVE @|LOAD @|RENUM @|LIST @|NEW @|CONT @|COMPILE @|BYE@"}, {"10 PRINT 1|20 @|30 A=@", "10 PRINT 1|@ 20 PRINT 2", "@10 PRINT", "10 REM@|20 PRINT 1:REM@"}, true); }
A(C19) { c.sec("every text packed"); { auto& T = texts(true); for (auto& t : T) for (auto p : {"10 PRINT@", "10 PRINT\"@\";A@", "10 IFA@THENPRINT1", "10 A@=1:PRINTA@", "10 FORI@=1TO2:PRINTI@:NEXTI@", "10 READA$:PRINTA$:DATA@", "10 REM@", "10 PRINT\"@\"@\"@\"", "10 A=1@2:PRINTA", "10 GOTO20@|20 PRINT1"}) for (auto o : {"-k", "-q"}) { if (!c.take()) continue; Case k; k.argv = {"-q", o, "P"}; for (auto& l : split(p)) k.files["P"] += at(l, t) + "\n"; c.model(k); } } }
A(C20) { c.sec("listings of every text"); { auto& T = texts(true); for (auto& t : T) for (auto p : {"10 PRINT \"@\"\n20 REM @\n30 DATA @\n", "10 A$=\"@\":IF A$=\"@\" THEN 10 ELSE PRINT \"@\"\n", "10 @\n20 PRINT 1\n"}) for (auto m : {"-l", "-t", "-n", "-p", "-f"}) { if (!c.take()) continue; Case k; k.argv = {"-q", m, "P"}; k.files["P"] = at(p, t); c.model(k); } }
  c.sec("names of files given"); { auto& T = texts(true); for (auto& t : T) { if (t.find('/') != std::string::npos || t[0] == '-' || t.size() > 60) continue; if (!c.take()) continue; Case k; k.argv = {"-q", t}; k.files[t] = "10 PRINT \"found\"\n"; c.model(k); Case l; l.argv = {"-q", t + "no"}; c.model(l); } } }
A(C21) { c.sec("every character in a name"); text(c, {"A@=3:PRINT A@", "A@1=3:PRINT A@1;A", "A$@=\"s\":PRINT A$@", "@A=3:PRINT @A", "A@$=\"s\":PRINT A@$;A$", "A@(1)=3:PRINT A@(1)", "FN@A=1:DEF FNA@(X)=1:PRINT FNA@(1)"}, {}, true); }
A(C22) {
  c.sec("every number of digits in every part of a number");
  VS ip = {"", "0", "00", "1", "01", "001", "12", "012"}, fp = {"", ".", ".0", ".5", ".50", ".05", ".005", ".000"}, ep = {"", "E0", "E1", "E+1", "E-1", "E01", "E001", "E-001", "E+0001", "E00002", "E-00002", "E000003", "E0000000000004", "e2", "E10", "E010", "E-10", "E", "E+", "E-", "e-", "E1.5", "E 2", " E2", "E+-2", "EE2", "E2E2", "F2", "D2"};
  for (int n : {5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 25, 40}) { ip.push_back(std::string("1234567890123456789012345678901234567890", n)); ip.push_back(rep("0", n) + "7"); ip.push_back(rep("9", n)); ip.push_back("1" + rep("0", n)); fp.push_back("." + std::string("1234567890123456789012345678901234567890", n)); fp.push_back("." + rep("0", n) + "7"); fp.push_back("." + rep("9", n)); fp.push_back(".5" + rep("0", n)); }
  { Batch b(c, {}, 24); size_t j = 0; for (auto& i : ip) for (auto& f : fp) for (auto& e : ep) { if (i.empty() && f.empty()) continue; if (!c.thorough && i.size() > 3 && f.size() > 4 && e.size() > 3 && j++ % 4) continue; std::string t = i + f + e; if (t.size() > 60) continue; b.add("?" + t); if (t.size() < 40 && (c.thorough || j++ % 3 == 0)) { b.add("?VAL(\"" + t + "\");VAL(\"-" + t + "x\")"); b.add("READ A:?A:DATA " + t); b.add("?-" + t + ";STR$(" + t + ")=\"\""); } } }
  for (auto& i : ip) for (auto& f : fp) for (auto& e : ep) { if (i.size() > 8 || f.size() > 8) continue; std::string t = i + f + e; if (!c.take()) continue; Case k = program("10 INPUT A:PRINT A|20 READ A:PRINT A|30 DATA " + t); k.in = {t + "\n", "-" + t + "\n", "1\n"}; c.model(k); }
}
A(C23) {
  c.sec("seeds and times that differ in any bit");
  auto differ = [&](Case x, Case y) { if (c.take()) c.run(Check{"tail", {x, y}, "!=\n"}); };
  const char* T = "|20 PRINT \"=\"|30 PRINT RND(1),RND(1),RND(1),RND(1)";
  for (long s : {2L, 3L, 1000L, 12345L, 65535L, 65536L, 1700000000L, 16777216L}) for (int b = 0; b < 32; b++) { long t = s ^ (1L << b); if (t < 2 || s < 2) continue;
    differ(program("10 RANDOMIZE " + num(s) + T), program("10 RANDOMIZE " + num(t) + T)); for (auto how : {"R", "z"}) { Case x = program(std::string(*how == 'R' ? "10 RANDOMIZE" : "10 REM") + T), y; if (*how == 'z') x.argv.insert(x.argv.begin(), "-z"); y = x; x.now = s; y.now = t; differ(x, y); } }
  for (long s : {1700000000L, 86400L}) for (long d : {1L, 2L, 10L, 59L, 60L, 100L, 1000L, 3600L, 32768L, 65535L, 65536L, 65537L, 86400L, 604800L, 1000000L, 16777216L, 31536000L}) for (auto how : {"R", "z"}) { Case x = program(std::string(*how == 'R' ? "10 RANDOMIZE" : "10 REM") + T), y; if (*how == 'z') x.argv.insert(x.argv.begin(), "-z"); y = x; x.now = s; y.now = s + d; differ(x, y); }
}

// ---- programs so large that a place in them does not fit in 8 or 16 bits: # is the number of the first line after the rest
static int giant_base(int filler) { return filler <= 65000 ? 65000 : filler <= 65440 ? 65440 : 200000; } // a reference reaches no further than 65535
static std::string numbered(const std::string& t, int filler) { std::string o; for (size_t i = 0; i < t.size(); i++) if (t[i] == '#') { o += num(giant_base(filler) + atoi(t.c_str() + i + 1)); i += 2; } else o += t[i]; return o; }
static std::string giant(const std::string& body, int filler, int kind) {
  std::string t; t.reserve(filler * 30 + 400); if (giant_base(filler) < 65536) t = "1 GOTO " + num(giant_base(filler) + 10) + "\n";
  static const char* F[] = {"REM", "X=X+1:Y=Y+X*2-X:Z=X+Y", "DATA 9", "PRINT \"f\":A$=\"g\"+B$"};
  for (int i = 0; i < filler; i++) { t += num(i + 2); t += ' '; t += F[kind]; t += '\n'; }
  for (auto& l : split(body)) t += numbered(l, filler) + "\n";
  return t;
}
static bool refers(const std::string& body) { for (auto& l : split(body)) if (l.find('#', 1) != std::string::npos) return true; return false; }
static void giants(Ctx& c, CVS bodies, CVS sessions = {}) {
  c.sec("in programs of any size");
  std::vector<std::pair<int, int>> f; for (int n : {100, 240, 246, 250, 254, 255, 256, 4090, 32740, 32760, 32766, 65000, 65430, 65440, 65520, 65525, 65530, 65534, 65535, 65536, 65600, 131060}) f.push_back({n, 0}); for (int n : {2000, 2300, 2335, 2339, 2341, 2343, 4676, 4678, 4680, 4682, 4690, 9400}) f.push_back({n, 1}); f.push_back({32760, 2}); f.push_back({65430, 2}); f.push_back({65534, 2}); f.push_back({9000, 3});
  if (c.thorough) { for (int n = 65480; n <= 65540; n++) f.push_back({n, 0}); for (int n = 32740; n < 32770; n++) f.push_back({n, 0}); for (int n = 4600; n < 4700; n++) f.push_back({n, 1}); for (int n = 2300; n < 2350; n++) f.push_back({n, 1}); }
  for (auto& x : f) { bool big = giant_base(x.first) > 65535;
    for (auto& b : bodies) { if (big && refers(b)) continue; if (!c.take()) continue; Case k; k.argv = {"-q", "P"}; k.files["P"] = giant(b, x.first, x.second); k.in = {"5\n", "6\n", "7\n"}; c.run(Check{"model", {k}, "long"}); }
    for (auto& b : sessions) { VS v = split(b, '~'); if (big && refers(v[0])) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; k.files["P"] = giant(v[0], x.first, x.second); k.in.push_back("LOAD \"P\"\n"); for (auto& l : split(v[1])) k.in.push_back(numbered(l, x.first) + "\n"); c.run(Check{"model", {k}, "long"}); } }
}
#define GIANT(id) void giant_##id(Ctx& c)
GIANT(C02) { giants(c, {"#10 I=I+1:IF I<3 THEN #30 ELSE #20|#20 PRINT \"e\";I:IF I=3 THEN PRINT \"three\":GOTO #40 ELSE PRINT \"not\"|#30 PRINT \"t\";I:GOTO #10|#40 ON I GOTO #10,#20,#50|#50 IF 0 THEN PRINT 1|#60 PRINT \"end\":GOTO #80|#70 PRINT 70|#80 PRINT 80:END|#90 PRINT 90"}); }
GIANT(C03) { giants(c, {"#10 FOR I=1 TO 3:PRINT I;|#20 FOR J=1 TO 2|#30 PRINT J;:NEXT J|#40 NEXT:PRINT I;J", "#10 FOR I=1 TO 3:PRINT I;:FOR J=1 TO 2|#20 PRINT J;:NEXT J|#30 NEXT:PRINT I;J", "#10 FOR I=3 TO 1 STEP -1|#20 GOSUB #50|#30 NEXT I|#40 END|#50 FOR K=1 TO 2:PRINT I;K;:NEXT:RETURN"}); }
GIANT(C04) { giants(c, {"#10 GOSUB #40:PRINT \"a\";:ON 2 GOSUB #40,#50:PRINT \"b\"|#20 GOSUB #60:PRINT \"c\":END|#30 PRINT 30|#40 PRINT \"s40\";:RETURN|#50 GOSUB #40:PRINT \"s50\";:RETURN|#60 GOSUB #50:GOSUB #40:RETURN"}); }
GIANT(C05) { giants(c, {"#10 READ A,B$:PRINT A;B$:READ C:PRINT C|#20 RESTORE:READ A:PRINT A|#40 DATA 1,two|#50 DATA 3,4", "#10 READ A,B$:PRINT A;B$:RESTORE #50:READ C:PRINT C:RESTORE:READ D:PRINT D|#20 READ B$,E:PRINT B$;E:READ F:PRINT F|#30 READ G|#40 DATA 1,two|#50 DATA 3"}); }
GIANT(C06) { giants(c, {"#10 DIM Q(20),R$(3,3):Q(15)=4:R$(2,3)=\"r\":T(4)=1|#20 PRINT Q(15);R$(2,3);T(4);T(0):Q(21)=1"}); }
GIANT(C08) { giants(c, {"#10 DEF FNA(X)=X*2+Y:DEF FNS$(X)=\"s\"+STR$(X)|#20 Y=5:X=3:PRINT FNA(4);X;FNS$(2);FNA(FNA(1)+1)|#30 DEF FNA(X)=LOG(X):PRINT FNA(1)|#40 PRINT X:PRINT FNA(0)"}); }
GIANT(C09) { giants(c, {"#10 INPUT A|#20 PRINT A:INPUT \"b\";B$|#30 LINE INPUT C$:PRINT B$;C$:INPUT D"}); }
GIANT(C11) { giants(c, {}, {"#10 PRINT \"a\"|#20 REM b~LIST #10|LIST #10-|#15 PRINT \"c\"|LIST #00-#18|#10|RUN|LIST #10-", "#10 PRINT \"a\"~LIST 32767-32769|LIST 65534-65538|65536|LIST 65530-65540|5|LIST -8|RUN"}); }
GIANT(C12) { giants(c, {}, {"#10 PRINT \"a\"|#20 REM b~SAVE \"Q\"|NEW|LOAD \"Q\"|RUN|LIST #10-|LIST 65535-65537"}); }
GIANT(C13) { giants(c, {}, {"#10 PRINT \"a\"|#20 REM~RENUM|RUN|LIST 1310000-|LIST -30|RENUM 1,1,1|LIST 65500-65900|LIST 131000-|RUN", "#10 PRINT \"a\":GOTO #30|#20 ON X GOSUB #10,#30|#30 RESTORE #10:END~RENUM|RUN|LIST 654000-657000|LIST 40000-42000|LIST 1310000-|LIST -10|RENUM 1,1,1|LIST 65500-65900|LIST 131000-|RUN", "#10 PRINT \"a\":GOTO #30|#30 IF 0 THEN #10 ELSE #40|#40 END~RENUM 500000,#10,7|LIST 500000-|RUN"}); }
GIANT(C14) { giants(c, {}, {"#10 A=5:STOP:PRINT \"b\";A|#20 FOR I=1 TO 2:STOP|#30 PRINT I:NEXT~RUN|CONT|PRINT A;I|CONT|CONT|CONT", "#10 A=5:STOP:PRINT \"b\";A|#20 GOSUB #40:PRINT \"r\"|#30 END|#40 FOR I=1 TO 2:STOP:PRINT I:NEXT:RETURN~RUN|CONT|PRINT A;I|CONT|CONT|CONT", "#10 STOP|#20 PRINT LOG(0)~RUN|CONT|CONT"}); }
GIANT(C15) { giants(c, {}, {"#10 A=A+1:A$=A$+\"x\":Q(1)=Q(1)+1:PRINT A;A$;Q(1)~RUN|RUN|PRINT A|CLEAR|PRINT A|GOTO #10|NEW|PRINT A"}); }
GIANT(C16) { giants(c, {"#10 PRINT \"a\";LOG(0)", "#10 GOSUB #30|#20 PRINT CHR$(-1)|#30 PRINT \"s\":RETURN", "#10 DEF FNA(X)=LOG(X)|#20 PRINT FNA(1)|#30 PRINT FNA(0)", "#10 GOTO #11", "#10 READ A$:NEXT"}, {"#10 PRINT CHR$(300)|#20 RETURN~RUN|GOTO #20|PRINT LOG(0)|GOSUB #10"}); }
GIANT(C18) { giants(c, {"#10 PRINT 1|#20 PRINT (", "#10 A$=1", "#10 X=A(1)|#20 A(1,2,=3"}); }
GIANT(C20) { c.sec("in programs of any size"); for (int n : {254, 255, 256, 32767, 65430, 65440}) for (auto m : {"-l", "-n", "-t", "-p"}) { if (!c.take()) continue; Case k; k.argv = {"-q", m, "P"}; k.files["P"] = giant("#10 FOR I=1 TO 2:PRINT I;:NEXT|#20 GOSUB #40|#30 END|#40 RETURN", n, 0); c.run(Check{"model", {k}, "long"}); } }
GIANT(C25) { giants(c, {"#10 FOR I=1 TO 2:GOSUB #30:NEXT:PRINT \"e\"|#20 READ A,B$:PRINT A;B$:RESTORE #40:READ A:PRINT A:END|#30 PRINT \"s\";I:RETURN|#40 DATA 1,b", "#10 DEF FNA(X)=X+1:IF FNA(1)=2 THEN #30 ELSE #20|#20 END|#30 ON 2 GOTO #20,#40|#40 PRINT LOG(0)"}, {"#10 A=A+1:STOP|#20 PRINT A:GOSUB #30:END|#30 PRINT \"s\":STOP:RETURN~RUN|CONT|CONT|PRINT A|#20|RUN|CONT|3|RUN"}); }
