// C18 acceptance, C19 case and spacing, C21 names
#include "gen.h"
static const VS VALID = {
  "CLEAR", "CLS", "DATA 1,abc,\"q\"", "DEF FNA(X)=X+1", "DEF G$(X)=CHR$(X)", "DIM Q(3)", "DIM Q(3),R$(2,A)", "END", "FOR I=1 TO 3", "FOR I=A TO 3 STEP -1", "GOSUB 10", "GOTO 10", "IF A THEN 10", "IF A=1 THEN PRINT 1 ELSE 10", "IF A$=\"x\" THEN GOTO 10 ELSE PRINT 2",
  "IF A THEN IF B THEN 10 ELSE 20 ELSE 30", "INPUT A", "INPUT \"p\";A$,Q(1)", "LET A=1", "LET A$=\"x\"", "A=1", "Q(1,2)=3", "LINE INPUT A$", "LINE INPUT \"p\";A$", "NEXT", "NEXT I", "NEXT I,J", "ON A GOTO 10,20", "ON A+1 GOSUB 10", "PRINT", "?", "PRINT 1;A$,2", "PRINT TAB(3);SPC(2)",
  "RANDOMIZE", "RANDOMIZE 5", "READ A", "READ A$,Q(1),B", "REM any ( text", "RESTORE", "RESTORE 10", "RETURN", "STOP", "", "A=1:B=2", "PRINT -A^2*3/(4-B)", "PRINT A AND B OR NOT C=D", "PRINT LEFT$(A$,2)+MID$(A$,1,1)", "PRINT (A<>B)+(A$<=\"z\")", "PRINT FNA(1)", "PRINT RND(1)", "PRINT ABS(-1)", "PRINT LEN(\"\")" };
static std::string with(const VS& t) { std::string s; for (auto& x : t) { if (!s.empty() && isalnum((unsigned char)s.back()) && isalnum((unsigned char)x[0])) s += ' '; s += x; } return s; }
static VS tokens_of(const std::string& s, bool kw = false) { VS v; for (auto& t : mdl::lex_all(s, kw)) { if (t.t == mdl::T_EOL || t.t == mdl::T_ERR) break; v.push_back(s.substr(t.pos, t.end - t.pos)); } return v; }
// is the text after DATA or REM, where every character counts?
static size_t verbatim_from(const std::string& s) { for (auto& t : mdl::lex_all(s, false)) { if (t.t == mdl::T_EOL || t.t == mdl::T_ERR) break; if (t.t >= mdl::T_KW && (!strcmp(mdl::KEYWORDS[t.t - mdl::T_KW], "REM") || !strcmp(mdl::KEYWORDS[t.t - mdl::T_KW], "DATA"))) return t.end; } return s.size(); }
G(C18) {
  VS T = {"CLEAR", "CLS", "DATA", "DEF", "DIM", "ELSE", "END", "FOR", "GOSUB", "GOTO", "IF", "INPUT", "LET", "LINE", "NEXT", "NOT", "ON", "AND", "OR", "PRINT", "RANDOMIZE", "READ", "REM", "RESTORE", "RETURN", "STEP", "STOP", "THEN", "TO", "A", "B$", "F(", "LEN", "CHR$", "RND", "TAB", "(", ")", "10", "1.5", "\"s\"", "=", "<", "+", "-", "^", ",", ";", ":", "?", "#"};
  c.sec("every sequence of tokens");
  { int n = 30; Batch b(c, {}, n * 2);
    sequences(T, 1, c.thorough ? 4 : 3, [&](CVS v) { b.add({"10 " + with(v), "COMPILE"}); }); }
  c.sec("every change of one token");
  { VS U = T; for (auto x : {"0", "65535", "65536", "1E3", "A$", "Q(1)", "Q$(1,2)", "FNA", "ABS", "%", "'", "."}) U.push_back(x);
    Batch b(c, {}, 40);
    auto add = [&](const VS& t) { b.add({"10 " + with(t), "COMPILE"}); };
    for (auto& s : VALID) { VS t = tokens_of(s);
      add(t);
      for (size_t i = 0; i < t.size(); i++) { VS u = t; u.erase(u.begin() + i); add(u); if (i + 1 < t.size()) { u = t; std::swap(u[i], u[i + 1]); add(u); } u = t; u.resize(i + 1); add(u); u = t; u.insert(u.begin() + i, t[i]); add(u); }
      for (auto& x : U) for (size_t i = 0; i <= t.size(); i++) { VS u = t; u.insert(u.begin() + i, x); add(u); if (i < t.size()) { u = t; u[i] = x; add(u); } }
      if (c.thorough) for (auto& x : T) for (auto& y : T) for (size_t i = 0; i < t.size(); i++) { VS u = t; u[i] = x; if (i + 1 < t.size()) u[i + 1] = y; else u.push_back(y); add(u); } } }
  c.sec("every change of one character");
  { VS ch = {"", "A", "1", "$", "(", ")", "\"", ",", ":", " ", "=", ".", "-", ";", "#", "\x80"}; Batch b(c, {}, 40);
    for (auto& s : VALID) for (size_t i = 0; i <= s.size(); i++) for (auto& x : ch) { std::string u = s; u.insert(i, x);
      auto add = [&](const std::string& t) { if (t.find("REM\x80") == std::string::npos) b.add({"10 " + t, "COMPILE"}); }; // whether this is remarked upon is not specified
      add(u); if (i < s.size()) { u = s; u.replace(i, 1, x); add(u); } } }
  c.sec("a bad line at every place");
  { VS bad = {"PRINT (", "A$=1", "NEXT 5", "\"x", "IF A", "GOTO", "FOO", "THEN", "PRINT LEN(1)", "READ", "FOR I", "LEN=2", "DIM A(1)=2", "ELSE 10", "IF 1 THEN PRINT 1 ELSE PRINT 2 ELSE PRINT 3", "A(1)=1:A(1,2)=\"s\"", "PRINT \x80"};
    for (auto& x : bad) for (int n = 1; n <= 5; n++) for (int at = 0; at < n; at++) for (int second = 0; second <= n; second++) {
      std::string p; for (int i = 0; i < n; i++) p += (i ? "|" : "") + num(10 * (i + 1)) + " " + (i == at ? x : i == second ? bad[0] : "PRINT " + num(i) + ":A=A+1");
      if (!c.take()) continue;
      Case k = program(p); c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); k.argv = {"-q", "--parse", "P"}; c.model(k); k.argv = {"--parse", "-q", "P"}; c.model(k);
      c.model(session(p + "|RUN|PRINT A|COMPILE|GOTO 10|PRINT A|" + num(10 * (at + 1)) + " PRINT \"good\"|RUN|PRINT A"));
      Case l = session("LOAD \"P\"|COMPILE|RUN|PRINT A|CONT"); l.files = k.files; c.model(l); } }
  c.sec("lines in every combination");
  { VS ln = {"PRINT 1", "IF A=0 THEN PRINT 1", "IF A=0 THEN 30", "IF A THEN PRINT 1 ELSE PRINT 2", "ELSE PRINT 4", "PRINT 3 ELSE PRINT 4", "IF A THEN IF B THEN PRINT 1", "IF A=0 THEN IF B THEN PRINT 1 ELSE PRINT 2", "PRINT 5:PRINT 6 ELSE PRINT 7", "IF A=0 THEN 30 ELSE 40", "REM x", "DATA 1", "DEF FNA(X)=X", "FOR I=1 TO 2", "NEXT", "IF A=0 THEN", "GOTO 30 ELSE 40", "ELSE 30", "IF A=0 THEN GOTO 30 ELSE 40", "", ":", "IF A THEN ELSE PRINT 2", "IF A=0 THEN PRINT 1:PRINT 2 ELSE PRINT 3:PRINT 4", "IF A THEN 30 ELSE PRINT 2", "ON 1 GOTO 30 ELSE 40", "END ELSE 40", "A=A+1:IF A>3 THEN END"};
    sequences(ln, 1, 3, [&](CVS v) { if (!c.take()) return; std::string p; for (size_t i = 0; i < v.size(); i++) { if (v[i].empty()) continue; p += (p.empty() ? "" : "|") + num(10 + 10 * (long)i) + " " + v[i]; } p += (p.empty() ? "" : "|") + std::string("50 END"); c.model(program("1 Z=Z+1:IF Z>50 THEN END|" + p)); });
    sequences(ln, 2, 3, [&](CVS v) { if (!c.take()) return; std::string p; for (size_t i = 0; i < v.size(); i++) p += (i ? ":" : "") + v[i]; c.model(program("1 Z=Z+1:IF Z>50 THEN END|10 " + p + "|30 Z=Z+1:IF Z>50 THEN END|40 A=A+1|50 END")); }); }
  c.sec("--parse, COMPILE and RUN agree");
  { auto trio = [&](const std::string& s) { if (!c.take()) return; Case k = program("10 PRINT \"ran\"|20 " + s + "|30 END"); c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); Case l = session("LOAD \"P\"|COMPILE|RUN"); l.files = k.files; c.model(l); k.argv = {"-q", "-c", "P"}; Case q = k; q.argv = {"-q", "-p", "P"}; c.run(Check{"status", {k, q}, ""}); };
    for (auto& s : VALID) trio(s);
    sequences(T, 1, 2, [&](CVS v) { trio(with(v)); });
    for (auto& s : VALID) { VS t = tokens_of(s); for (size_t i = 0; i < t.size(); i++) { VS u = t; u.erase(u.begin() + i); trio(with(u)); for (auto& x : T) { u = t; u[i] = x; trio(with(u)); } } }
    for (auto& s : VALID) for (auto& u : VALID) { trio(s + ":" + u); trio("IF A THEN " + s + " ELSE " + u); trio(s + " ELSE " + u); } }
  c.sec("line numbers in statements");
  { Batch b(c, {}, 20); for (auto s : {"GOTO %", "GOSUB %", "IF A THEN %", "IF A THEN 5 ELSE %", "ON A GOTO %", "ON A GOSUB 5,%", "RESTORE %"}) for (auto n : {"0", "1", "00", "007", "65534", "65535", "65536", "4294967295", "4294967296", "4294967297", "1E3", "1E5", "10.0", "10.", "1.5", ".5", "-1", "A", "\"10\"", "99999999999999999999", "1E99", "", "10 20", "10A", "(10)", "1E400"}) { std::string x; for (const char* q = s; *q; q++) if (*q == '%') x += n; else x += *q; b.add({"10 " + x, "COMPILE"}); } }
  c.sec("types of names within one program");
  { VS use = {"A=1", "A$=\"x\"", "A(1)=2", "A$(1)=\"x\"", "A(1,2)=3", "DIM A(3)", "DIM A(2,3)", "DIM A$(3)", "DEF A(X)=X", "DEF A$(X)=\"q\"", "PRINT A", "PRINT A(1)", "PRINT A$(1)", "PRINT A(1,2)", "DEF B(A)=A", "FOR A=1 TO 2:NEXT A", "READ A(1)", "INPUT A$", "DEF A(A)=A", "PRINT A(1,2,3)", "NEXT A", "PRINT A$(1)+A$"};
    sequences(use, 1, c.thorough ? 4 : 3, [&](CVS v) { if (!c.take()) return; std::string p; for (size_t i = 0; i < v.size(); i++) p += (i ? "|" : "") + num(10 + 10 * (long)i) + " " + v[i]; Case k = program(p + "|90 DATA 1"); k.in = {"5\n"}; c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); }); }
}

static const VS PROGS = {
  "10 FOR I=1 TO 3 STEP 1:PRINT I;:NEXT I|20 PRINT \"Mixed Case\"|30 A=5:a=A+1:PRINT A;a",
  "10 DATA Abc, d e F ,\"Q r\",7|20 READ A$,B$,C$,N|30 PRINT A$;B$;C$;N|40 RESTORE 10:READ X$:PRINT X$",
  "10 INPUT \"Name\";N$:PRINT \"hi \";N$|20 LINE INPUT L$:PRINT L$;LEN(L$)|30 INPUT A,B:PRINT A*B",
  "10 DEF FNA(X)=X*2+Y|20 Y=3:PRINT FNA(4)|30 DIM Q(5),R$(2,2)|40 Q(3)=FNA(1):R$(1,2)=\"Zz\":PRINT Q(3);R$(1,2)",
  "10 X=X+1:IF X>5 THEN PRINT \"done\":END ELSE PRINT X;|20 ON X GOSUB 100,200|30 GOTO 10|100 PRINT \"s1\":RETURN|200 PRINT \"s2\":RETURN",
  "10 IF NOT 0 AND 1 OR 0 THEN PRINT \"t\" ELSE PRINT \"f\"|20 IF 1<>2 THEN 40|30 PRINT \"no\"|40 PRINT (1<=2)+(3>=4)+(\"a\"<\"B\")",
  "10 PRINT LEFT$(\"hello\",2);MID$(\"World\",2,3);RIGHT$(\"abc\",1);CHR$(65);ASC(\"a\");VAL(\"1E2\");STR$(5)|20 PRINT TAB(9);\"x\";SPC(3);\"y\",1.5E3;1e3",
  "10 RANDOMIZE 5:A=RND(1):RANDOMIZE 5:B=RND(1):PRINT A=B|20 REM Any Text:PRINT 9|30 CLEAR:PRINT A|40 LET Z=2^-1:PRINT Z;-Z^2",
  "10 GOSUB 50:PRINT \"back\"|20 FOR J=3 TO 1 STEP -1:FOR K=1 TO 2:PRINT J;K;:NEXT K,J|30 PRINT|40 END|50 PRINT \"sub\"|60 RETURN",
  "10 PRINT 1/0|20 PRINT LOG(0)|30 PRINT 3",
  "10 A$=\"x\":B$=A$+A$:IF B$=\"xx\" THEN PRINT LEN(B$) ELSE PRINT \"no\"|20 PRINT SQR(4);INT(-1.5);ABS(-3);SGN(-2)|30 CLS:PRINT SIN(0);COS(0);EXP(0);ATN(0);TAN(0)" };
static std::string casing(const std::string& s, int how) { // outside strings, DATA and REM
  std::string o; bool q = false; size_t stop = verbatim_from(s); int n = 0;
  for (size_t i = 0; i < s.size(); i++) { char ch = s[i]; if (ch == '"') q = !q; if (!q && i < stop && isalpha((unsigned char)ch)) { n++; ch = how == 0 ? tolower(ch) : how == 1 ? toupper(ch) : how == 2 ? (n % 2 ? tolower(ch) : toupper(ch)) : how == 3 ? (n % 3 ? tolower(ch) : toupper(ch)) : ch; } o += ch; }
  return o;
}
// the gaps between tokens get the given blanks; -1: as few as possible
static std::string spacing(const std::string& s, const std::function<std::string(int gap, bool needed)>& f, bool kw = false) {
  size_t stop = verbatim_from(s); std::string head = s.substr(0, stop), o; std::vector<mdl::Tok> t = mdl::lex_all(head, kw); int g = 0;
  for (size_t i = 0; i < t.size(); i++) { if (t[i].t == mdl::T_EOL || t[i].t == mdl::T_ERR) break; std::string x = head.substr(t[i].pos, t[i].end - t[i].pos);
    bool needed = !o.empty() && (isalnum((unsigned char)o.back()) || o.back() == '.') && (isalnum((unsigned char)x[0]) || x[0] == '.'); o += f(g++, needed); o += x; }
  return o + s.substr(stop);
}
static Case from(const VS& lines) { Case k; k.argv = {"-q", "P"}; int n = 0; (void)n; for (auto& l : lines) k.files["P"] += l + "\n"; k.in = {"Bob,x\n", "Bob\n", "a Line, here\n", "3,4\n"}; return k; }
static VS map_lines(const std::string& p, const std::function<std::string(const std::string&, int)>& f) { VS v; int i = 0; for (auto& l : split(p)) { size_t s = l.find(' '); v.push_back(l.substr(0, s) + " " + f(l.substr(s + 1), i++)); } return v; }
G(C19) {
  auto same = [&](const Case& a, const Case& b) { if (!c.take()) return;
    for (auto& f : b.files) for (auto& l : split(f.second, '\n')) if (l.size() > 254) return; // too long for a line
    for (auto& f : a.files) if (f.second.find("STOP") != std::string::npos) { c.model(a); c.model(b); return; } // shows its own line
    c.run(Check{"same", {a, b}, ""}); c.model(b); };
  VS progs = PROGS; for (auto& s : VALID) progs.push_back("5 A=1:B=2:I=3:A$=\"mX\"|10 " + s + "|20 PRINT A;B;I;A$;:N=N+1:IF N>4 THEN END|30 RETURN");
  c.sec("case of whole programs and lines");
  for (auto& p : progs) { Case a = from(split(p));
    for (int how = 0; how < 4; how++) { same(a, from(map_lines(p, [&](const std::string& s, int) { return casing(s, how); }))); for (int l = 0; l < 6; l++) same(a, from(map_lines(p, [&](const std::string& s, int i) { return i == l ? casing(s, how) : s; }))); } }
  c.sec("case of every word");
  for (auto& p : progs) { Case a = from(split(p)); VS L = split(p);
    for (size_t l = 0; l < L.size(); l++) { size_t sp = L[l].find(' '); std::string body = L[l].substr(sp + 1); size_t stop = verbatim_from(body); bool q = false;
      for (size_t i = 0; i < stop; i++) { if (body[i] == '"') q = !q; if (q || !isalpha((unsigned char)body[i])) continue; std::string u = body; u[i] ^= 32; VS v = L; v[l] = L[l].substr(0, sp + 1) + u; same(a, from(v)); } } }
  c.sec("blanks");
  for (auto& p : progs) { Case a = from(split(p));
    VS fill = {"", " ", "  ", "\t", " \t ", "     "};
    for (auto& f : fill) same(a, from(map_lines(p, [&](const std::string& s, int) { return spacing(s, [&](int, bool need) { return f.empty() && need ? std::string(" ") : f; }); })));
    for (int g = 0; g < 30; g++) for (auto& f : fill) { bool any = false; VS v = map_lines(p, [&](const std::string& s, int) { return spacing(s, [&](int k, bool need) { if (k == g) { any = true; return f.empty() && need ? std::string(" ") : f; } return std::string(need ? " " : ""); }); }); if (any) same(a, from(v)); } }
  c.sec("trailing blanks and blanks after the number");
  for (auto& p : progs) { Case a = from(split(p)); bool data = p.find("DATA") != std::string::npos || p.find("REM") != std::string::npos; for (auto t : {" ", "\t", "   ", "\r", " \r"}) { if (!data) same(a, from(map_lines(p, [&](const std::string& s, int) { return s + t; }))); same(a, from(map_lines(p, [&](const std::string& s, int) { return t + s; }))); } 
    Case b = a; b.files["P"].clear(); for (auto& l : split(p)) { size_t sp = l.find(' '); b.files["P"] += l.substr(0, sp) + l.substr(sp + 1) + "\n"; } bool digit = false; for (auto& l : split(p)) { size_t sp = l.find(' '); if (sp + 1 < l.size() && isdigit((unsigned char)l[sp + 1])) digit = true; } if (!digit) same(a, b); }
  c.sec("keywords anywhere");
  for (auto& p : progs) { Case a = from(split(p)); Case ak = a; ak.argv = {"-q", "-k", "P"}; same(a, ak); ak.argv = {"--keywords-anywhere", "-q", "P"}; same(a, ak);
    for (int how = -1; how < 4; how++) { Case b = from(map_lines(p, [&](const std::string& s, int) { std::string t = spacing(s, [&](int, bool) { return std::string(); }); return how < 0 ? t : casing(t, how); })); b.argv = {"-q", "-k", "P"};
      // numbers next to each other, or a number and a name which begins with E, cannot be told apart
      same(a, b);
      for (int g = 0; g < 20; g++) { Case b2 = from(map_lines(p, [&](const std::string& s, int) { return spacing(s, [&](int k, bool) { return std::string(k == g ? " " : ""); }); })); b2.argv = {"-q", "-k", "P"}; if (how < 0) same(a, b2); } } }
  c.sec("pairs of words without blanks");
  { VS W = {"FOR", "TO", "IF", "THEN", "ELSE", "PRINT", "A", "B1", "X$", "1", "2.5", "=", "+", "(", ")", "\"s\"", "AND", "OR", "NOT", "NEXT", "GOTO", "10", "STEP", "LEN(\"ab\")", ",", ";", ":", "ON", "STORE", "TOTAL", "ANDY", "SCORE", "FORK", "PRINTER", "IFFY"};
    sequences(W, 1, c.thorough ? 4 : 3, [&](CVS v) { static VS g; std::string s; for (auto& x : v) s += x; g.push_back("10 " + s); g.push_back("COMPILE"); if (g.size() < 40) return; VS l; l.swap(g); if (!c.take()) return; Case k; k.argv = {"-q"}; for (auto& x : l) k.in.push_back(x + "\n"); c.model(k); k.argv = {"-q", "-k"}; c.model(k); });
    for (auto& a : W) for (auto& b : W) for (auto& d : W) { if (!c.take()) continue; Case k; k.files["P"] = "10 " + a + b + d + "\n20 PRINT \"two\"\n"; k.argv = {"-q", "-k", "P"}; c.model(k); k.argv = {"-q", "P"}; c.model(k); k.argv = {"-q", "-k", "-n", "P"}; c.model(k); } }
  c.sec("names containing keywords");
  { VS names; for (int i = 0; i < mdl::NKEYWORDS; i++) for (auto f : {"X%", "%X", "X%Y", "%1", "X%$", "%X$", "%%", "%S", "1%"}) { std::string s; for (const char* x = f; *x; x++) if (*x == '%') s += mdl::KEYWORDS[i]; else s += *x; names.push_back(s); }
    for (auto& n : names) { bool str = n.back() == '$'; std::string val = str ? "\"v\"" : "7"; 
      for (auto& m : {n, casing(n, 0), casing(n, 2)}) { std::string p = "10 " + m + "=" + val + "|20 PRINT " + n + "|30 X=1:PRINT X;" + m + ";X|40 IF " + n + "=" + val + " THEN PRINT \"same\""; if (!c.take()) continue; Case k = program(p); c.model(k); k.argv = {"-q", "-k", "P"}; c.model(k); k.argv = {"-q", "-n", "P"}; c.model(k); k.argv = {"-q", "-n", "-k", "P"}; c.model(k); } } }
  c.sec("long names next to keywords");
  for (int n = 1; n <= 60; n++) for (int form = 0; form < 4; form++) { std::string nm = form == 0 ? rep("X", n) : form == 1 ? rep("X", n) + "1" : form == 2 ? "X" + rep("9", n) : rep("XY", n); if (nm.size() > 70) continue;
    for (auto kw : {"AND", "OR"}) { if (!c.take()) continue; Case k; k.files["P"] = "10 " + nm + "=5:IF" + nm + "THENPRINT" + nm + kw + "4ELSEPRINT0\n20 FORI=" + nm + "TO" + nm + "+2STEP" + nm + ":PRINTI:NEXTI\n30 ON" + nm + "-4GOTO50\n40 PRINT0\n50 PRINT" + nm + ";NOT" + nm + ":REM\n"; k.argv = {"-q", "-k", "P"}; c.model(k); k.argv = {"-q", "-n", "-k", "P"}; c.model(k); k.argv = {"-q", "P"}; c.model(k); } }
  c.sec("PRINT and ?");
  { VS items = {"", "1", "A$", "1;2", "1,2", "\"x\";", "TAB(3);\"y\"", "1,", "(1)", "-1", "LEN(A$)"};
    for (auto& x : items) for (auto& y : items) for (auto f : {"10 A$=\"mX\"|20 %1:%2|30 %2", "10 IF 1 THEN %1 ELSE %2|20 %2", "10 IF 0 THEN %1 ELSE %2|20 IF 1 THEN %2"}) {
      auto make = [&](const std::string& pr) { std::string s; for (const char* q = f; *q; q++) if (*q == '%') { s += pr + (*++q == '1' ? x : y); } else s += *q; return program(s); };
      same(make("PRINT "), make("?")); same(make("PRINT "), make("? ")); same(make("?"), make("print ")); } }
  c.sec("commands in every case");
  { VS cmds = {"LIST", "RUN", "LIST 10", "SAVE \"F\"", "LOAD \"F\"", "CONT", "RENUM", "RENUMBER 5", "COMPILE", "NEW", "LISTP"};
    for (auto& x : cmds) for (auto& y : cmds) for (int how = 0; how < 3; how++) { Case a = session("10 PRINT \"a\":STOP:PRINT \"b\"|20 GOTO 30|30 PRINT \"c\"|RUN|" + x + "|" + y + "|LIST"), b = a; for (size_t i = 3; i < b.in.size(); i++) b.in[i] = casing(b.in[i], how); same(a, b); for (auto& l : b.in) l = " " + l; same(a, b); } }
}

G(C21) {
  VS names = {"A", "a", "A$", "a$", "AB", "aB", "AB$", "A1", "A1$", "B", "B$", "BA", "A11", "AA"};
  VS objs; for (auto& n : names) { objs.push_back(n); objs.push_back(n + "(1)"); }
  auto val = [](const std::string& o, int k) { return o.find('$') != std::string::npos ? "\"v" + num(k) + "\"" : num(100 + k); };
  c.sec("every pair and triple of names");
  { Batch b(c, {"CLEAR"}, 60); for (auto& x : objs) for (auto& y : objs) { b.add({"CLEAR", x + "=" + val(x, 1), y + "=" + val(y, 2), "?" + x + ";" + y, x + "=" + val(x, 3), "?" + y + ";" + x}); }
    b.flush();
    VS few = {"A", "a$", "A(1)", "AB", "Ab", "A$(1)", "a(1)", "A1", "A(2)"}; for (auto& x : few) for (auto& y : few) for (auto& z : few) for (auto& w : few) b.add({"CLEAR", x + "=" + val(x, 1), y + "=" + val(y, 2), z + "=" + val(z, 3), w + "=" + val(w, 4), "?" + x + ";" + y + ";" + z + ";" + w}); }
  c.sec("names in a program");
  for (auto& x : objs) for (auto& y : objs) for (auto& z : objs) model_program(c, "10 " + x + "=" + val(x, 1) + "|20 " + y + "=" + val(y, 2) + "|30 " + z + "=" + val(z, 3) + "|40 PRINT " + x + ";" + y + ";" + z);
  c.sec("every short name");
  { // all names of up to three characters, all alive at once
    VS first, more; for (char ch = 'A'; ch <= 'Z'; ch++) { first.push_back(std::string(1, ch)); more.push_back(std::string(1, ch)); } for (char ch = '0'; ch <= '9'; ch++) more.push_back(std::string(1, ch)); more.push_back("");
    VS all; for (auto& a : first) for (auto& b : more) { all.push_back(a + b); }
    for (int kind = 0; kind < 3; kind++) for (int order = 0; order < 4; order++) { if (!c.take()) continue; Case k; k.argv = {"-q", "P"}; std::string& p = k.files["P"]; long ln = 1; size_t n = all.size();
      auto at = [&](size_t i) { return order == 0 ? all[i] : order == 1 ? all[n - 1 - i] : order == 2 ? all[i * 397 % n] : all[i * 293 % n]; };
      auto obj = [&](const std::string& s) { return kind == 0 ? s : kind == 1 ? s + "$" : s + "(1)"; };
      VS kept; for (size_t i = 0; i < n; i++) { std::string s = at(i), u = s + (kind == 1 ? "$" : ""); bool kw = false; for (int j = 0; j < mdl::NKEYWORDS; j++) if (s == mdl::KEYWORDS[j]) kw = true; for (int j = 0; j < mdl::NBUILTINS; j++) if (u == mdl::BUILTINS[j]) kw = true; if (!kw) kept.push_back(obj(s)); }
      for (size_t i = 0; i < kept.size(); i++) p += num(ln++) + " " + kept[i] + "=" + (kind == 1 ? "\"" + num(i) + "\"" : num(i)) + "\n";
      for (size_t i = 0; i < kept.size(); i += 1) p += num(ln++) + " PRINT " + kept[i * 7 % kept.size()] + ";\n";
      c.run(Check{"model", {k}, "long"}); } }
  c.sec("names with equal hashes");
  { // names of two letters and a digit which share their slot in tables of the usual sizes, for the usual hash functions
    VS cand; for (char a = 'A'; a <= 'Z'; a++) for (char b = 'A'; b <= 'Z'; b++) for (char d = '0'; d <= '9'; d++) cand.push_back(std::string{a, b, d});
    auto h0 = [](const std::string& s, unsigned m, int f) { unsigned h = f == 1 ? 5381 : f == 2 ? 2166136261u : 0; for (unsigned char ch : s) { switch (f) { case 0: h = h * 31 + ch; break; case 1: h = h * 33 ^ ch; break; case 2: h = (h ^ ch) * 16777619u; break; case 3: h += ch; break; case 4: h = (h << 4) + ch; { unsigned g = h & 0xf0000000; h = (h ^ (g >> 24)) & ~g; } break; default: h = h * 65599 + ch; } } return h % m; };
    for (int f = 0; f < 6; f++) for (unsigned m : {61u, 79u, 97u, 101u, 127u, 128u, 256u, 293u, 397u, 512u}) for (unsigned slot : {0u, 1u, 60u}) { VS g; for (auto& s : cand) if (h0(s, m, f) == slot) { g.push_back(s); if (g.size() >= 12) break; } if (g.size() < 2) continue;
      if (!c.take()) continue; std::string s = "CLEAR"; for (size_t i = 0; i < g.size(); i++) s += "|" + g[i] + "=" + num(i + 1) + ":" + g[i] + "$=\"" + num(i) + "\":" + g[i] + "(2)=" + num(i + 50); for (auto& x : g) s += "|?" + x + ";" + x + "$;" + x + "(2)"; c.model(session(s));
      Case k; k.argv = {"-q", "-n", "P"}; long n = 10; for (auto& x : g) { k.files["P"] += num(n += 10) + " " + x + "=" + x + "$+" + casing(x, 0) + "\n"; } c.model(k); } }
  c.sec("hundreds of names in a session");
  for (int n : {10, 60, 64, 65, 100, 128, 129, 200, 256, 257, 300, 400, 512, 513, 600}) for (int form = 0; form < 6; form++) { if (!c.take()) continue; Case k; k.argv = {"-q"};
    auto name = [&](int i) { return form == 0 ? "V" + num(i) : form == 1 ? "V" + num(i) + "$" : form == 2 ? "V" + num(i) + "(1)" : form == 3 ? std::string(1, 'A' + i % 26) + num(i / 26) : form == 4 ? rep("L", 1 + i % 100) + num(i) : "N" + num(i * 37 % 1009); };
    for (int i = 0; i < n; i++) k.in.push_back(name(i) + "=" + val(name(i), i) + "\n"); for (int i = 0; i < n; i++) { std::string x = name(i); k.in.push_back("?" + (i % 3 ? x : casing(x, 0)) + "\n"); }
    for (int i = 0; i < n; i += 5) k.in.push_back(casing(name(i), 0) + "=" + val(name(i), i + 1000) + "\n"); for (int i = 0; i < n; i += 3) k.in.push_back("?" + name(n - 1 - i) + "\n");
    c.run(Check{"model", {k}, "long"}); }
  c.sec("functions and arrays of the same name");
  { VS ev = {"A=1", "A$=\"s\"", "A(1)=2", "A$(1)=\"t\"", "DEF A(X)=X+10", "DEF A$(X)=STR$(X)", "DIM A(2)", "DIM A$(2)", "DEF FNA(A)=A*2", "PRINT FNA(5);A", "a=9", "a(1)=8", "PRINT A;A$;", "PRINT a(1)", "PRINT A$(1)"};
    sequences(ev, 1, c.thorough ? 5 : 4, [&](CVS v) { if (!c.take()) return; std::string p; for (size_t i = 0; i < v.size(); i++) p += (i ? "|" : "") + num(10 + 10 * (long)i) + " " + v[i]; c.model(program(p + "|90 PRINT A;A$")); }); }
  c.sec("words that cannot be names");
  { VS W; for (int i = 0; i < mdl::NKEYWORDS; i++) W.push_back(mdl::KEYWORDS[i]); for (int i = 0; i < mdl::NBUILTINS; i++) W.push_back(mdl::BUILTINS[i]); for (auto x : {"TAB", "SPC", "LIST", "RUN", "FN", "FNA", "PI", "MOD", "XOR", "ABSX", "XABS", "LEN$", "ASC$", "CHR", "LEFT", "MID", "STR", "TIM", "GETS", "USING", "STRING$", "LN", "CINT", "FRE", "POS", "PEEK", "POKE"}) W.push_back(x);
    for (auto& w0 : W) for (auto& w : {w0, casing(w0, 0)}) { bool str = w.back() == '$'; std::string v = str ? "\"v\"" : "5"; if (!c.take()) continue; Batch b(c, {}, 2);
      for (auto& s : VS{w + "=" + v, "LET " + w + "=" + v, "?" + w, w + "(1)=" + v, "DIM " + w + "(3)", "DEF " + w + "(X)=" + (str ? "\"d\"" : "X+1"), "DEF FNZ(" + w + ")=1", "FOR " + w + "=1 TO 2:NEXT", "READ " + w, "NEXT " + w, "?" + w + "(1)", "?" + w + "(\"a\")", "?" + w + "()", w + "=" + v + ":?" + w, "INPUT " + w, "LINE INPUT " + w}) {
        { Case k = program("10 " + s + "|20 PRINT \"next\"|30 DATA 1"); k.in = {"3\n"}; c.model(k); k.argv = {"-q", "-p", "P"}; c.model(k); } } } }
  c.sec("--list-names");
  { sequences(objs, 1, 3, [&](CVS v) { if (!c.take()) return; Case k; k.argv = {"-q", "-n", "P"}; for (size_t i = 0; i < v.size(); i++) k.files["P"] += num(10 * (long)i + 10) + " PRINT " + v[i] + "+LEN(" + v[0] + "):REM zz\n"; c.model(k); }); }
}
