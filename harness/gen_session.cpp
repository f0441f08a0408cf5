// C09 input, C10 print, C11 editing, C12 files, C13 renumbering, C14 stop and continue, C15 shared environment, C16 errors
#include "gen.h"
#include <cstring>
#include <algorithm>
static Case prog_in(const std::string& p, const VS& in) { Case k = program(p); for (auto& l : in) k.in.push_back(l + "\n"); return k; }

G(C09) {
  c.sec("every short line for every item list");
  { VS st = {"INPUT A", "INPUT A,B", "INPUT A$", "INPUT A$,B", "INPUT A,B$", "INPUT \"p\";A$,B$", "INPUT I,Q(I)", "INPUT \"p\",A,B,C", "LINE INPUT A$", "LINE INPUT \"p\";Q$(1)", "INPUT Q$(1),Q(2)"};
    VS al = {"1", "a", ",", " ", "-", ".", "\"", "E"};
    for (auto& s : st) strings(al, c.thorough ? 6 : 4, [&](const std::string& t) { if (c.take()) c.model(prog_in("10 A=5:B=6:C=7:A$=\"k\":B$=\"m\"|20 " + s + ":PRINT A;B;C;I;Q(1);Q(2);\"[\";A$;\"][\";B$;\"][\";Q$(1);\"]\"|30 INPUT Z$:PRINT \"<\";Z$;\">\"", {t, "1,2,3", "next", "x"})); });
    VS al2 = {"1", ",", "x", "\t", "\r", ";", "+", "(", "\x80", "\x01"};
    for (auto& s : st) strings(al2, c.thorough ? 4 : 3, [&](const std::string& t) { if (c.take()) c.model(prog_in("20 " + s + ":PRINT A;B;C;I;Q(1);Q(2);\"[\";A$;\"][\";B$;\"][\";Q$(1);\"]\"|30 INPUT Z$:PRINT \"<\";Z$;\">\"", {t, "1,2,3", "next", "x"})); });
    c.sec("sequences of lines");
    VS ln = {"", "1", "1,2", "1,2,3", "x", "1,x", ",", "x,1", "a,b", " 1 , 2 ", "1,,2", "1e3,-4", "1,2,", ",5"};
    for (auto& s : st) for (auto t : {":PRINT A;B;C;A$;B$", ":INPUT C,A$:PRINT A;B;C;A$;B$"}) sequences(ln, 0, c.thorough ? 4 : 3, [&](CVS v) { if (c.take()) c.model(prog_in("10 PRINT \"a\";:" + s + t + "|20 LINE INPUT Z$:PRINT \"<\";Z$;\">\"", v)); }); }
  c.sec("long lines");
  for (auto s : {"INPUT A$", "LINE INPUT A$", "INPUT A", "INPUT A,B", "INPUT A$,B$", "INPUT Q$(1),A"}) for (int n : {120, 124, 125, 126, 127, 128, 129, 130, 250, 252, 253, 254, 255, 256, 300, 380, 381, 382, 508}) for (int form = 0; form < 6; form++) {
    std::string l = form == 0 ? rep("7", n) : form == 1 ? rep(" ", n - 1) + "5" : form == 2 ? rep("a,", n / 2) + rep("z", n % 2) : form == 3 ? "1,2" + rep(" ", n - 3) : form == 4 ? "1," + rep("b", n - 2) : rep("0", n - 3) + "1,2";
    if (c.take()) c.model(prog_in(std::string("10 ") + s + ":PRINT A;B;A$;LEN(A$);B$;LEN(B$);Q$(1)|20 LINE INPUT Z$:PRINT \"<\";Z$;\">\"", {l, "3,4", "next", "more"}));
    if (c.take()) { Case k = session(std::string(s) + "|" + l + "|3,4|PRINT 1|PRINT A;B;A$;B$|INPUT A$|" + l + "|PRINT A$"); c.model(k); } }
  c.sec("end of input at every point");
  { VS st = {"INPUT A", "INPUT A,B", "INPUT A$", "LINE INPUT A$", "INPUT \"q\";A$,B", "INPUT Q(1),Q(2)"};
    for (auto& s : st) for (auto t : {"", "1", "1,", "1,x", "x", ",", "1,2", "1,2,3", "abc", "  ", "1\n", "x\n", "1,2\n", "x\n1", "x\ny\n", "1\n2", "1\n2\n3"}) for (auto p : {"10 %:PRINT A;A$:%:PRINT B;A$:%:PRINT 9", "10 FOR I=1 TO 3:%:PRINT I;A;A$:NEXT", "10 GOSUB 100:GOSUB 100|20 END|100 %:PRINT A;B;A$:RETURN", "10 IF 1 THEN %:PRINT A ELSE PRINT 5|20 %"}) {
      std::string q; for (const char* x = p; *x; x++) if (*x == '%') q += s; else q += *x;
      if (c.take()) { Case k = program(q); k.in = {t}; c.model(k); }
      if (c.take()) { Case k; k.argv = {"-q"}; for (auto& l : lines_of(q)) k.in.push_back(l); k.in.push_back("RUN\n"); std::string tt = t; if (!tt.empty() && tt.back() != '\n') tt += "\n"; if (!tt.empty()) k.in.push_back(tt); c.model(k); } } }
  c.sec("input in the course of a program");
  { VS st = {"INPUT I,Q(I)", "INPUT Q(I),I", "INPUT Q(99)", "INPUT Q(-1),A", "INPUT A,Q(1,1)", "INPUT Q(LOG(0))", "INPUT A,A", "INPUT A$,A$", "INPUT Q(Q(1)),Q(Q(2))", "INPUT Q$(I),I,Q$(I)", "LINE INPUT Q$(I)", "LINE INPUT Q$(99)", "INPUT FNA(1)", "INPUT 1", "INPUT", "INPUT \"p\"", "INPUT \"p\";", "INPUT A;B", "INPUT ABS", "LINE INPUT A", "LINE INPUT A$,B$", "LINE A$", "INPUT A+B", "INPUT \"p\" A", "INPUT \"p\",,A", "INPUT \"\";A", "INPUT A$;", "INPUT A,", "INPUT (A)", "INPUT \"a\";\"b\";A"};
    for (auto& s : st) for (auto in : {"1,2", "2,x", "x,2", "1,2,3", "99,1", "1", "", "3,4,5"}) { if (c.take()) c.model(prog_in("10 DIM Q(5):I=1:Q(1)=2:Q(2)=3|20 " + s + "|30 PRINT I;A;A$;Q(0);Q(1);Q(2);Q(3);Q(4);Q(5);\"[\";Q$(1);\"]\"|40 LINE INPUT Z$:PRINT Z$", {in, "4,5,6", "1,1", "z"}));
      if (c.take()) { Case k = session("DIM Q(5)|I=1:Q(1)=2:Q(2)=3"); k.in.push_back(s + "\n"); for (auto x : {in, "REM,5,6", "PRINT I;A;A$;Q(0);Q(1);Q(2);Q(3)", "INPUT A,B", "8,9", "PRINT A;B"}) k.in.push_back(std::string(x) + "\n"); c.model(k); } } 
    VS ev = {"INPUT A", "INPUT A$,B", "LINE INPUT A$", "1", "x", "5,6", "RUN", "CONT", "PRINT A;A$;B", "", "STOP,1", "7,7,7"};
    c.histories({"-q"}, {"10 INPUT A:STOP:INPUT A$,B:PRINT A;A$;B", "20 LINE INPUT A$:PRINT A$"}, ev, {"1", "1,2", "PRINT A;A$;B"}, c.thorough ? 5 : 4); }
  c.sec("input and the print column");
  for (auto p : {"PRINT \"abc\";:INPUT A$:PRINT ,\"x\"", "INPUT A$:PRINT TAB(5);\"x\"", "PRINT \"abc\";:INPUT \"prompt\";A:PRINT TAB(5);\"x\";:INPUT B:PRINT ,\"y\"", "PRINT \"abcdefghi\";:LINE INPUT A$:PRINT ,\"z\"", "INPUT A,B:PRINT ,\"w\"", "PRINT 1,:INPUT A:PRINT A,B"}) for (auto in : {"5", "x", "1,2", "longer line of text", ""}) if (c.take()) c.model(prog_in(std::string("10 ") + p, {in, "6,7", "8,9"}));
}

G(C10) {
  VS items = {"1", "-12", "\"ab\"", "A$", "N$", "TAB(3)", "TAB(20)", "SPC(0)", "SPC(5)", ",", ";", "\"\"", "8^9", "CHR$(10)", "\"abcdefgh\"", "X"};
  VS pre = {"A$=\"x\"+CHR$(10)+\"yz\":N$=\"12345678\"+CHR$(10):X=.5"};
  c.sec("all lists");
  { int n = c.thorough ? 5 : 4; Batch b(c, pre, 40);
    sequences(items, 0, n, [&](CVS v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i && isalnum((unsigned char)s.back()) && isalnum((unsigned char)v[i][0])) s += " "; s += v[i]; } b.add("?" + s + ":?\"|e\""); }); }
  c.sec("sequences of statements");
  { VS st = {"?1", "?\"ab\";", "?,", "?1,2", "?TAB(6);\"t\";", "?A$;", "?N$;", "?", "?SPC(3);", "?\"abcdefg\",", "?TAB(10)", "CLS", "?CHR$(13);\"r\";", "?CHR$(9);", "X=X+1", "GOSUB 100", "?\"a\",\"b\",\"c\",\"d\",\"e\",\"f\";", "IF X THEN ?\"i\"; ELSE ?\"j\","};
    sequences(st, 1, c.thorough ? 5 : 4, [&](CVS v) { if (!c.take()) return; std::string p = "10 A$=\"x\"+CHR$(10)+\"yz\":N$=\"12345678\"+CHR$(10)"; for (size_t i = 0; i < v.size(); i++) p += "|" + num(20 + (long)i * 10) + " " + v[i]; Case k = program(p + "|80 ?TAB(9);\"x\";:?,\"y\";TAB(40);\"z\"|90 END|100 ?\"sub\",:RETURN"); k.sysret = v.size() & 1; c.model(k); });
    VS ev; for (auto& s : st) if (s != "GOSUB 100") ev.push_back(s);
    for (auto x : {"?LOG(0)", "?\"abc\";LOG(0)", "?\"abc\";:STOP", "RUN", "CONT", "LIST", "+", "10 ?\"q\";", "*true", "?1;2;A$;TAB(3)"}) ev.push_back(x);
    c.histories({"-q"}, {"10 ?\"prog\";:STOP:?TAB(8);\"p\",1;:STOP:?,2"}, ev, {"?TAB(9);\"x\";:?,\"y\"", "CONT", "CONT"}, 3); }
  c.sec("every column");
  for (int n = 0; n <= 260; n += (n < 40 || n > 230 ? 1 : 7)) { std::string s = n ? "?\"" + rep("c", n < 100 ? n : 100) + "\"" + (n > 100 ? ";\"" + rep("d", n - 100 < 100 ? n - 100 : 100) + "\"" : "") + (n > 200 ? ";\"" + rep("e", n - 200) + "\"" : "") + ";" : "?;";
    Batch b(c, {}, 24); b.argv = {"-q"};
    for (auto t : {",\"x\"", "TAB(1);\"x\"", "TAB(8);\"x\"", "TAB(9);\"x\"", "SPC(8);\"x\"", ",,\"x\"", "1;2", "TAB(255);\"x\"", "TAB(256);\"x\"", "TAB(257);\"x\"", "SPC(255);,\"x\"", "CHR$(10);,\"x\"", "-1.5", "\"q\",TAB(200);,\"r\""}) { std::string l = s + ":?" + t; if (l.size() < 126) b.add(l); std::string u = s; size_t e = u.rfind(";\"e"); if (e != std::string::npos) u = u.substr(0, e + 1) + "|15 ?" + u.substr(e + 1); if (c.take()) c.model(program("10 " + u + "|20 ?" + t)); }
    for (int k : {1, 2, 3, 7, 8, 9, 10, 16, 17, 24, 25, 33, 80, 81}) { b.add("?SPC(" + num(n) + ");TAB(" + num(k) + ");\"x\""); b.add("?TAB(" + num(n + 1) + ");TAB(" + num(k) + ");\"x\",\"y\""); } }
  c.sec("arguments of TAB and SPC");
  { Batch b(c, {"A=3:A$=\"s\""}, 20);
    for (auto f : {"TAB", "SPC"}) for (auto a : {"1", "2", "A", "A+1", ".5", "1.5", "-1", "-.5", "1E10", "4294967296", "\"1\"", "A$", "", "A,A", "LOG(0)", "LEN(A$)", "RND(1)*0+4", "(A)", "A=A", "1/0", "-1/0"}) { std::string x = std::string(f) + "(" + a + ")"; b.add("?\"ab\";" + x + ";\"z\""); b.add("?" + x); b.add("X=" + x); b.add("?" + x + "+1"); b.add("?\"abc\"" + x + "\"def\""); b.add("?" + x + x + ",9"); }
    for (auto s : {"?TAB", "?SPC", "?TAB 5", "?SPC 5;1", "TAB=5", "SPC=5", "?TAB", "TAB(3)=4", "?SPC(3", "?1 2 3", "?1\"a\"2", "?\"a\"\"b\"", "?A A$", "?A$A$", "?A(1)A(2)", "?;;;", "?,,,", "?;,;1", "?1,;2", "?1;,2", "?-1-1", "?1 -1", "?\"a\"-1", "?(1)(2)", "?NOT 1;2", "PRINT", "print 1", "??1", "? ?", "PRINT PRINT", "?1:?2;:?3", "?1 ELSE ?2", "? USING 1", "?#1,2"}) b.add(s); }
  c.sec("numbers");
  { Batch b(c, {}, 20); for (auto n : {"0", "-0", "1", "-1", ".5", "-.5", "1E5", "999999", "1E6", "1234567", "1E-4", "1E-5", ".000123456", "1E300", "1/0", "-1/0", "1/3", "-2/3", "100000", "123456", "1234565", "2^31", "-2^31", "255", "3.0", "1E10", "12345.678"}) { b.add(std::string("?") + n + ";" + n + "," + n + ";\"|\""); b.add(std::string("?\"a\"") + n + "\"b\";TAB(30);" + n); b.add(std::string("?") + n + ",,1"); } }
}

G(C11) {
  VS probe = {"LIST", "LIST 10", "LIST 10-20", "LIST -10", "LIST 15-", "RUN"};
  VS ev = {"10 ?\"a\"", "10 ?\"b\"", "20 ?\"c\"", "5 ?\"d\"", "30 ?\"e\"", "10", "20", "5", "15", "10  ?\"s\" ", "NEW", "LOAD \"F\"", "0 ?\"z\"", "4294967296 ?\"y\"", "15?\"n\"", "LIST", "25 foo bar(", "CLEAR", "20 "};
  c.sec("all edit histories");
  std::map<std::string, std::string> f = {{"F", "10 ?\"file ten\"\n20 ?\"file twenty\"\n40 ?\"forty\"\n"}};
  c.histories({"-q"}, {}, ev, probe, c.thorough ? 5 : 4, f);
  c.bfs({"-q"}, {}, ev, probe, c.thorough ? 30000 : 3000, 12, f);
  c.sec("orders of entering lines");
  { VS perm = {"10", "20", "30", "40", "50", "60"}; std::sort(perm.begin(), perm.end());
    do { if (!c.take()) continue; std::string s; for (auto& p : perm) s += p + " REM " + p + "|"; s += "LIST|" + perm[2] + "|" + perm[4] + " REM new|" + perm[0] + "|LIST|" + perm[2] + " REM again|" + perm[0] + " REM back|LIST|RUN"; c.model(session(s)); } while (std::next_permutation(perm.begin(), perm.end())); 
    if (c.thorough) { VS q = {"1", "2", "3", "4", "5", "6", "7", "8"}; do { if (!c.take()) continue; std::string s; for (auto& p : q) s += p + " REM " + p + "|"; s += "LIST|" + q[3] + "|" + q[5] + " REM n|LIST"; c.model(session(s)); } while (std::next_permutation(q.begin(), q.end())); } }
  c.sec("growth of the program");
  for (int n : {1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513}) for (int order = 0; order < 5; order++) { if (!c.take()) continue; Case k; k.argv = {"-q"};
    for (int i = 0; i < n; i++) { int x = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (int)((long)i * 7 % n) : order == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (int)((long)i * 37 % n); k.in.push_back(num(10 + x * 2) + " A=A+" + num(x) + "\n"); }
    for (auto t : {"LIST", "RUN", "?A"}) k.in.push_back(std::string(t) + "\n");
    for (int i = 0; i < n; i += 3) k.in.push_back(num(10 + ((i * 5) % n) * 2) + "\n");
    k.in.push_back("LIST\n"); for (int i = 0; i < n; i += 2) k.in.push_back(num(11 + ((i * 3) % n) * 2) + " B=B+" + num(i) + "\n"); for (auto t : {"LIST", "RUN", "?A;B", "NEW", "LIST", "10 ?1", "LIST"}) k.in.push_back(std::string(t) + "\n");
    c.run(Check{"model", {k}, "long"}); }
  c.sec("an edit at every place of a program of every size");
  for (int n : {1, 2, 3, 5, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513}) for (int kind = 0; kind < 4; kind++) { // insert, delete, replace, insert and delete; in typed and in loaded programs
    std::string text; VS typed; for (int i = 0; i < n; i++) { std::string l = num(10 + i * 2) + " A=A+" + num(i) + "\n"; text += l; typed.push_back(l); }
    for (int at = -1; at <= n; at++) { if (n > 8 && at > 1 && at < n - 2 && at % (n / 4)) continue; for (int load = 0; load < 2; load++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; if (load) { k.files["F"] = text; k.in = {"LOAD \"F\"\n"}; } else k.in = typed;
      std::string ins = num(10 + at * 2 + 1), there = num(10 + at * 2);
      if (kind == 0 || kind == 3) k.in.push_back(ins + " A=A+1000\n");
      if (kind == 1 || kind == 3) k.in.push_back(there + "\n");
      if (kind == 2) k.in.push_back(there + " A=A+5000\n");
      for (auto t : {"LIST", "RUN", "PRINT A"}) k.in.push_back(std::string(t) + "\n");
      k.in.push_back(num(10 + n * 2) + " A=A+7\n"); k.in.push_back("1 A=50\n"); for (auto t : {"LIST", "RUN", "PRINT A"}) k.in.push_back(std::string(t) + "\n");
      c.run(Check{"model", {k}, "long"}); } } }
  c.sec("every form of LIST");
  { VS a = {"", "0", "1", "5", "10", "15", "20", "30", "35", "65535", "4294967295", "4294967296"}, d = {"", "-", " - "}, b = {"", "0", "5", "10", "15", "20", "30", "31", "4294967295", "99999999999"}, t = {"", "P", " p", "P ", "PP", "X", ",", " 5"};
    Batch bt(c, {"10 ten", "20 twenty", "30 thirty"}, 40); for (auto& x : a) for (auto& y : d) for (auto& z : b) for (auto& w : t) { if (y.empty() && !z.empty()) continue; bt.add("LIST " + x + y + z + w); bt.add("LIST" + x + y + z + w); }
    bt.flush(); Batch b2(c, {}, 40); for (auto x : {"LIST", "LIST 10", "LIST -", "LIST P", "LIST 10-20P", "LIST x"}) b2.add(x); }
  c.sec("paging");
  for (int n = 0; n <= 80; n += (n >= 20 && n <= 27) || (n >= 44 && n <= 52) || (n >= 66 && n <= 74) || n < 2 ? 1 : 3) for (auto l : {"LIST P", "LIST 10-P", "LIST -200P", "LISTP", "LIST 5-41P", "LIST"}) for (auto reply : {"", "q", "RUN"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) k.in.push_back(num(1 + i) + " REM " + num(i) + "\n"); k.in.push_back(std::string(l) + "\n"); for (int i = 0; i < (n + 1) / 24 && std::string(l).find('P') != std::string::npos; i++) k.in.push_back(std::string(reply) + "\n"); k.in.push_back("?\"done\"\n"); k.in.push_back("LIST 2\n"); c.model(k); }
  c.sec("line numbers and texts");
  { VS n = {"0", "00", "1", "01", "10", "0010", "65535", "65536", "99999", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967306", "18446744073709551615", "18446744073709551616", "18446744073709551626", "99999999999999999999999", "1.5", "1E1", "-1", "+1", "10A", " 10", "\t10", "10\t"};
    VS t = {"", " ", "  ", " REM x", "  REM  x ", "?1", ":", " :::", " \"", " \"abc", "=", ".5", "-5", " 20 ?5", "\tREM", " x\ty", " \x80", " \x01", " REM \xff", " *", " LIST", "LIST", " BYE", " DATA  a , b ", " REM trailing   "};
    for (auto& x : n) for (auto& y : t) model_session(c, "10 REM ten|20 REM twenty|" + x + y + "|LIST|30 REM|LIST|10|LIST"); }
  for (int n = 110; n <= 140; n++) for (auto ch : {"x", " ", "1"}) { model_session(c, "10 REM " + rep(ch, n) + "|LIST|?1|20 REM|LIST"); model_session(c, "REM " + rep(ch, n) + "|10 REM y|" + rep(ch, n) + "|LIST"); model_session(c, "10 ?\"ok\"|20 ?\"" + rep(ch, n) + "|LIST|RUN"); }
  for (int n : {253, 254, 255, 256, 257, 380, 381, 382, 500, 1000}) { model_session(c, "10 REM " + rep("x", n) + "|LIST|?1|20 REM|LIST"); model_session(c, rep(" ", n) + "?1|LIST|?2"); model_session(c, "?1:" + rep("10 ?2:", n / 6) + "|LIST|?2"); }
  c.sec("words that are commands");
  { Batch b(c, {"10 ?\"prog\""}, 12); for (auto w : {"NEW", "new", "New", "NEWX", "NEW X", "NEW 1", " NEW", "NEW ", "LISTX", "LI ST", "RUNX", "RUN X", "RUN 10", "run", "RUNNING=5", "LISTING=1", "NEWLINE=3:?NEWLINE", "BYEBYE=2:?BYEBYE", "BYE X", "BYE 1", "COMPILE", "COMPILE x", "CONT", "CONT 1", "CONTX", "RENUM x", "RENUMB", "RENUMBER 100", "LIST", "LIST -", "LOAD", "LOAD x", "LOAD \"\"", "SAVE", "SAVE x", "NEW:?1", "?1:NEW", "LIST:?1", "LET NEW=5", "A=1:LIST", "*", "* ", "*echo", " * echo  x ", "**", "", " ", "\t", "\r", "?1\r", "10\r", "LIST\r", "NEW\r"}) { b.add(w); b.add("?\"alive\""); b.add("LIST"); b.add("5 REM"); b.add("10 ?\"prog\""); } }
}

static VS filebits = {"1", "0", " ", "\n", "A", "2", "\t"};
G(C12) {
  c.sec("round trips");
  { VS texts = {"?1", "REM  two  blanks ", "", " ", "?\"quoted\"", "5 leading digit", "DATA a, b ,\"c\"", "\ttab", "REM \x80\xff", ":", "syntax error (((", "REM " + rep("x", 110), "10 GOTO 10"};
    sequences(texts, 1, 2, [&](CVS v) { if (!c.take()) return; std::string s; int i = 0; for (auto& t : v) s += num(10 * ++i) + " " + t + "|"; s += "LIST|A=5|SAVE \"F\"|LIST|?A|LOAD \"F\"|LIST|SAVE \"G\"|NEW|LIST|LOAD \"G\"|LIST|LOAD \"F\"|LIST|RUN|CONT"; c.model(session(s)); });
    for (int n = 0; n <= 4; n++) for (auto num1 : {"1", "65535", "65536", "4294967294", "99999"}) { std::string s; for (int i = 0; i < n; i++) s += num(10 + i) + " REM " + num(i) + "|"; model_session(c, s + std::string(num1) + " REM big|SAVE \"F\"|NEW|LOAD \"F\"|LIST|RUN"); } }
  c.sec("sizes");
  for (int n : {1, 63, 64, 65, 128, 129, 200, 257, 400}) for (int w : {1, 40, 120}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) k.in.push_back(num(10 + i * 3) + " REM" + rep("w", w - 1) + num(i) + "\n"); for (auto t : {"SAVE \"F\"", "NEW", "LOAD \"F\"", "LIST", "SAVE \"F\"", "10 REM replaced", "LOAD \"F\"", "LIST 10-30", "RUN"}) k.in.push_back(std::string(t) + "\n"); c.run(Check{"model", {k}, "long"}); }
  for (int n = 240; n <= 262; n++) for (auto num1 : {"1", "10", "65535"}) { if (!c.take()) continue; Case k = session("10 REM old|LOAD \"F\"|LIST|SAVE \"G\"|LOAD \"G\"|LIST|?1"); k.files["F"] = std::string(num1) + " REM" + rep("L", n - 4 - (int)strlen(num1)) + "\n"; c.model(k); Case q = k; q.files["F"] = "5 REM\n" + k.files["F"]; c.model(q); Case r; r.argv = {"-q", "F"}; r.files = k.files; c.model(r); }
  c.sec("histories of a session");
  { VS ev = {"SAVE \"F\"", "SAVE \"G\"", "LOAD \"F\"", "LOAD \"G\"", "LOAD \"none\"", "LOAD \"bad\"", "SAVE \"/none/x\"", "10 ?\"new\":X=X+1", "20 STOP", "20", "NEW", "RUN", "CONT", "X=5", "LIST", "SAVE \"\"", "LOAD \"dup\"", "SAVE \"F\" x"};
    std::map<std::string, std::string> f = {{"G", "10 ?\"from G\"\n30 X=X+10:?X\n"}, {"bad", "10 ?\"bad\"\nno number\n"}, {"dup", "10 ?1\n10 ?2\n"}};
    c.histories({"-q"}, {"10 ?\"first\":STOP:?X"}, ev, {"LIST", "?X", "CONT", "SAVE \"Z\""}, c.thorough ? 4 : 3, f);
    c.histories({"-q"}, {}, ev, {"LIST", "?X", "RUN", "SAVE \"Z\"", "LOAD \"Z\"", "LIST"}, c.thorough ? 4 : 3, f);
    if (c.thorough) c.bfs({"-q"}, {"10 ?\"first\":STOP:?X"}, ev, {"LIST", "?X", "CONT", "SAVE \"Z\""}, 20000, 10, f); }
  c.sec("every small file");
  strings(filebits, c.thorough ? 7 : 5, [&](const std::string& s0) { std::string s = s0 + (s0.empty() || s0.back() == '\n' ? "" : "\n"); if (s0.size() && s0.back() == '\n' && s0.size() < 2) {} if (!c.take()) return; Case k = session("5 REM old|LOAD \"F\"|LIST|RUN|?\"alive\"|LOAD \"F\"|6 REM|LIST"); k.files["F"] = s; c.model(k); if (s.size() <= 5) for (auto o : {"-r", "-l", "-p", "-n"}) { Case q; q.argv = {"-q", o, "F"}; q.files["F"] = s; c.model(q); } });
  for (auto s : {"10 ?1\n5 ?2\n", "10 ?1\n10 ?2\n", "0 ?1\n", "00 ?\n", "4294967295 ?1\n", "4294967296 ?1\n", "4294967297 ?1\n", "99999999999999999999 ?1\n", "18446744073709551617 ?1\n", "65536 ?1\n", "65535 ?1\n", " 10 ?1\n", "\t10 ?1\n", "?1\n", "10?1\n", "10 ?1\n\n20 ?2\n", "10 ?1\n \n", "\n", "10 ?1\n20 ?2\n15 ?3\n30 ?4\n", "10 ?1\r\n20 ?2\r\n", "10 ?1\r\n\r\n", "10\n20\n", "10 \n", "1.5 ?1\n", "-10 ?1\n", "10 REM \x80\n", "10 ?\"\xff\"\n", "10 ?1\n20 foo(\n30 ?3\n", "10 \x01\n", "\xef\xbb\xbf" "10 ?1\n", "10 ?1\n20\n30 ?3\n"}) { if (c.take()) { Case k = session("5 REM old|LOAD \"F\"|LIST|RUN|?\"alive\"|COMPILE|LIST"); k.files["F"] = s; c.model(k); for (auto o : {"-r", "-l", "-p", "-n"}) { Case q; q.argv = {"-q", o, "F"}; q.files["F"] = s; c.model(q); } } }
  c.sec("failures at every point");
  { VS progs = {"10 ?1", "10 ?1|20 REM two|30 ?3", "10 REM " + rep("x", 100) + "|20 REM " + rep("y", 100) + "|30 REM " + rep("z", 100)};
    std::string big = "10 REM"; for (int i = 1; i < 60; i++) big += "|" + num(10 + i) + " REM " + rep("b", 90);
    progs.push_back(big);
    for (auto& p : progs) { Case size = program(p); long n = (long)size.files["P"].size(); std::string text = size.files["P"];
      for (int kind = 1; kind <= 4; kind++) for (long at = 0; at <= (kind == 2 || kind == 3 ? n : 0); at += n > 1000 ? 61 : 1) for (int first = 0; first < 2; first++) {
        if (!c.take()) continue;
        { Case k = session("X=4|" + p + "|SAVE \"F\"|LIST|?X|SAVE \"G\"|RUN|?\"alive\""); k.fault.kind = kind; k.fault.path = "F"; k.fault.at = at; if (first) k.files["F"] = "10 ?\"older\"\n"; c.model(k); }
        { Case k = session("10 ?\"old\"|LOAD \"F\"|LIST|RUN|?\"alive\"|SAVE \"G\"|LOAD \"G\"|LIST"); k.files["F"] = text; k.fault.kind = kind; k.fault.path = "F"; k.fault.at = at; if (first) k.in.insert(k.in.begin(), "NEW\n"); c.model(k); }
        if (first) { for (auto o : {"-r", "-l", "-p", "-n"}) { Case k; k.argv = {"-q", o, "F"}; k.files["F"] = text; k.fault.kind = kind; k.fault.path = "F"; k.fault.at = at; c.model(k); } }
        if (first) { Case k = session("LOAD \"F\"|LIST|10 ?\"n\"|LOAD \"F\"|LIST|RUN|SAVE \"F\"|LIST"); k.files["F"] = text; k.fault.kind = kind; k.fault.path = "F"; k.fault.at = at; c.model(k); }
      } } }
  c.sec("file names");
  { Batch b(c, {"10 ?\"prog\""}, 10); b.files["a b"] = "10 ?\"a b\"\n"; b.files["F"] = "10 ?\"F\"\n";
    for (auto a : {"\"F\"", "\"a b\"", "F", "\"F", "\"F\" ", " \"F\"", "\"F\"x", "\"F\" 1", "\"\"", "\"", "", "\"none\"", "'F'", "\"F\",A", "\"F\":?1", "\"f\"", "\"a/b\"", "(\"F\")"}) for (auto w : {"LOAD", "SAVE", "load", "Save"}) { b.add(std::string(w) + a); b.add("LIST"); b.add(std::string(w) + " " + a); b.add("LIST"); b.add("10 ?\"prog\""); } }
}

// is every number above 9 in the lines also the number of a line?
static bool references_exist(const std::string& p) {
  std::set<std::string> lines; for (auto& l : split(p)) lines.insert(l.substr(0, l.find(' ')));
  for (auto& l : split(p)) for (size_t i = l.find(' '); i < l.size(); ) { if (!isdigit((unsigned char)l[i])) { i++; continue; } size_t e = i; while (e < l.size() && isdigit((unsigned char)l[e])) e++; if (e - i > 1 && !lines.count(l.substr(i, e - i))) return false; i = e; }
  return true;
}
// behaviour before and after RENUM
G(C13) {
  c.sec("references of every kind");
  VS refs = {"GOTO %", "GOSUB %", "IF X=1 THEN %", "IF X=1 THEN PRINT 3 ELSE %", "IF X=1 THEN % ELSE %", "ON X GOTO %,%,%", "ON X GOSUB %,%", "RESTORE %", "PRINT %", "X=%", "REM GOTO %", "PRINT \"GOTO %\"", "DATA GOTO %,%", "IF X=% THEN PRINT %", "IF X=1 THEN GOTO %:PRINT %", "GOTO%", "ON X GOTO % , %", "IF X THEN X=%", "FOR I=% TO %+1:NEXT", "DATA \"GOTO %\":GOTO %", "GOTO % REM GOTO %", "PRINT X:GOSUB %:PRINT %", "X=X+1:ON X-1 GOTO %,%:GOTO %", "goto %", "IF X=1 THEN RESTORE % ELSE GOSUB %", "RESTORE", "READ A:PRINT A", "IF X=1 THEN IF X=1 THEN % ELSE %", "INPUT A:GOTO %", "ON X GOSUB %:GOTO %", "IF X THEN REM GOTO %", "GOTO %,%", "THEN %", "LIST %", "PRINT %,%:GOTO %"};
  VS params = {"", "100", "100,20", "100,20,5", "5", "5,1,1", "1000,10,1000", ",20", ",,5", ",20,1", "100,25", "9,10,10", "15,20,10", "65000,10,300", "65535", "10,20,10", "0", "10,10,0", "100,,0", "70000", "4294967295,1,1", "4294967290,1,10", "10,10,4294967295", "1,1,32768", "25,40", "30,40,0", "100,99", "65526,10,1", "65536", "10,1,4294967291"};
  VS targets = {"10", "20", "30", "40", "25", "65535"};
  auto both = [&](const std::string& p, const std::string& prm) {
    if (!c.take()) return;
    c.model(session(p + "|RENUM " + prm + "|LIST|RUN|1|2"));
    if (!references_exist(p)) return; // the missing line may come into being
    Case a = session(p + "|RUN|1|2|3"), b = session(p + "|RENUM " + prm + "|RUN|1|2|3"); c.run(Check{"renum", {a, b}, ""});
  };
  for (auto& r : refs) for (auto& t : targets) for (auto& q : params) { std::string s, s2; int k = 0; for (char ch : r) if (ch == '%') { s += t; s2 += targets[(k++ + 1) % targets.size()]; } else { s += ch; s2 += ch; }
    both("10 X=X+1:IF X>4 THEN PRINT \"stop\":END|20 PRINT \"a\";X|30 " + s + "|40 READ D$:PRINT \"b\";D$:GOTO 10|50 DATA 1,2,3,4,5", q);
    if (s2 != s) both("10 X=X+1:IF X>4 THEN PRINT \"stop\":END|20 PRINT \"a\";X|30 " + s2 + "|40 PRINT \"b\";X:RETURN", q); }
  c.sec("line numbers of every magnitude");
  { VS N = {"1", "2", "9", "10", "99", "100", "127", "128", "255", "256", "257", "999", "1000", "4095", "4096", "9999", "10000", "16383", "16384", "32766", "32767", "32768", "32769", "40000", "49152", "65533", "65534", "65535"};
    VS prm = {"", "1,1,1", "100,10,30000", "60000,1,1", "7,32768", "20000,32767,5", "65500,32768,3", "255,255,1", "1,256,1", "65535,65535,1"}; VS R = {"GOTO %", "GOSUB %", "IF X=1 THEN %", "IF X=2 THEN PRINT 3 ELSE %", "ON X GOTO %,@", "ON X GOSUB @,%", "RESTORE %", "IF X=1 THEN GOTO % ELSE GOSUB @"};
    for (size_t i = 0; i < N.size(); i++) for (size_t j = i + 1; j < N.size(); j++) for (auto& r : R) { if (!c.thorough && (j - i) % 3 == 2 && N[j] < "30000") continue; std::string s, s2; for (char ch : r) { s += ch == '%' ? N[j] : ch == '@' ? N[i] : std::string(1, ch); s2 += ch == '%' ? N[i] : ch == '@' ? N[j] : std::string(1, ch); }
      for (auto& q : prm) both(N[i] + " X=X+1:PRINT X:IF X>3 THEN END ELSE " + s + "|" + N[j] + " PRINT \"j\":X=X+1:IF X>3 THEN END ELSE " + s2, q); } }
  c.sec("programs of references");
  { VS L = {"GOTO 40", "GOSUB 40:PRINT \"r\"", "IF X=2 THEN 30", "IF X=1 THEN PRINT \"t\" ELSE 40", "ON X GOTO 20,30,40", "ON X GOSUB 40,50:PRINT \"o\"", "RESTORE 60:READ A$:PRINT A$", "PRINT \"GOTO 10\"", "REM 10", "RETURN", "ON X GOTO 99,40", "X=20", "READ A$:PRINT A$:RESTORE 55"}; VS prm = {"", "100,30", "1,10,1", "20,30", "65500,40,20", "7,1,3", "33,40,1"};
    sequences(L, c.thorough ? 3 : 2, c.thorough ? 4 : 3, [&](CVS v) { std::string p = "10 X=X+1:IF X>4 THEN PRINT \"stop\":END"; for (size_t i = 0; i < v.size(); i++) p += "|" + num(20 + (long)i * 10) + " " + v[i]; p += "|60 DATA GOTO 10, 20|70 DATA z"; for (auto& q : prm) { if (v.size() > 2 && !c.thorough && &q - &prm[0] > 2) break; both(p, q); } }); }
  c.sec("histories of a session");
  { VS ev = {"RENUM", "RENUM 100,20", "RENUM 5,1,5", "RENUM 15,20,1", "RENUM x", "10 GOTO 30", "20", "25 PRINT \"n\":GOSUB 40", "RUN", "LIST", "CONT", "RENUM 60000,1,3000", "40 RETURN", "RENUMBER 7,7,7", "GOTO 30", "X=X+1:PRINT X", "NEW"};
    c.histories({"-q"}, {"10 PRINT 1:GOSUB 40", "20 PRINT 2:STOP:PRINT 3", "30 GOTO 50", "40 PRINT 4:RETURN", "50 PRINT 5"}, ev, {"LIST", "RUN", "CONT"}, c.thorough ? 4 : 3); }
  c.sec("syntax of RENUM");
  { for (auto a : {"10,10,10,10", "10 10", "10;10", "a", "-10", "10,-10", "10,,", ",,,", ",,", ",", " 10 , 10 , 10 ", "10.5", "1E2", "\"10\"", "10,10,x", "00100", "99999999999", "10,99999999999", "10,10,99999999999"}) for (auto w : {"RENUM ", "RENUM", "RENUMBER ", "renum "}) model_session(c, std::string("10 GOTO 20|20 GOSUB 10|") + w + a + "|LIST|RENUM|LIST"); }
  c.sec("many lines");
  for (int n : {1, 2, 63, 64, 65, 127, 128, 129, 256, 257, 300, 650, 655, 656}) for (auto q : {"", "1000,10,10", "1,1,1", "65000,1,1", "5,500", "65535", "1,1,100"}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (int i = 0; i < n; i++) k.in.push_back(num(10 + i * 3) + " A=A+1:IF A<" + num(n * 2) + " THEN " + num(10 + (i * 7 + 5) % n * 3) + " ELSE " + num(10 + (i * 11 + 1) % n * 3) + "\n"); k.in.push_back("RENUM " + std::string(q) + "\n"); k.in.push_back("LIST\n"); k.in.push_back("RUN\n"); k.in.push_back("?A\n"); c.run(Check{"model", {k}, "long"}); }
  for (int pad = 90; pad <= 122; pad++) model_session(c, "1 REM" + rep("x", pad) + ":GOTO 2|2 GOTO 1:REM " + rep("y", pad - 8) + "|3 ON 1 GOTO 1,2,3,1,2,3,1,2,3,1,2,3,1,2,3,1,2,3,1,2,3,1,2,3,1,2,3:REM " + rep("z", pad - 80) + "|RENUM 10000,1,1|LIST|RENUM 1,1,1|LIST");
  c.sec("crunched programs");
  for (auto p : {"10GOTO30|20PRINT2|30IFX=0THENX=1:GOTO20ELSE40|40PRINT4", "10ONX+1GOTO20,30|20X=X+1:GOSUB30:END|30RETURN", "10REMGOTO20|20DATAGOTO30|30IFATHEN40ELSERESTORE20|40GOTO50|50PRINTAGOTO20", "10 IFX=1THEN30|20X=1:GOTO10|30PRINTX"}) for (auto q : {"", "100,20", "5,1,1"}) { if (!c.take()) continue; Case k = session(std::string(p) + "|RENUM " + q + "|LIST|RUN"); k.argv.push_back("-k"); c.model(k); }
}

G(C14) {
  // STOP inserted at every statement of these programs; text between statements is fixed
  struct P { const char* lines; const char* in; };
  std::vector<P> progs = {
    {"10 PRINT \"a\"~PRINT \"b\";~PRINT \"c\"|20 X=5~PRINT X~IF X=5 THEN ~PRINT \"t\"~PRINT \"u\" ELSE ~PRINT \"e\"|30 ~PRINT \"d\"~END", ""},
    {"10 FOR I=1 TO 3~FOR J=1 TO 2~PRINT I;J;~NEXT J~NEXT I~PRINT \"done\"|20 ~PRINT I;J", ""},
    {"10 GOSUB 100~PRINT \"back\"~GOSUB 200~PRINT \"end\"|20 ~END|100 PRINT \"sub\"~GOSUB 200~RETURN|200 PRINT \"sub2\"~RETURN", ""},
    {"10 READ A~PRINT A~READ B$~PRINT B$|20 RESTORE 40~READ A~PRINT A|30 DATA 1,x|40 DATA 2,y~READ B$~PRINT B$", ""},
    {"10 DEF FNA(X)=X*2+Y~Y=3~PRINT FNA(4)|20 DIM Q(3)~Q(2)=FNA(Q(1))~PRINT Q(2)~S$=\"s\"~PRINT S$+S$", ""},
    {"10 INPUT A~PRINT A~INPUT B$,C~PRINT B$;C|20 ~LINE INPUT D$~PRINT D$", "5\nx,6\nline, x\n"},
    {"10 ON 2 GOSUB 100,200~PRINT \"r\"~ON 1 GOTO 30|20 PRINT \"no\"|30 ~PRINT \"thirty\"~GOTO 50|40 PRINT \"no\"|50 PRINT \"fifty\"~END|100 RETURN|200 FOR K=1 TO 2~PRINT K~NEXT~RETURN", ""},
    {"10 RANDOMIZE 4~PRINT RND(1)~PRINT RND(1)~X=X+1~IF X<3 THEN ~PRINT \"again\"~GOTO 10|20 PRINT \"x\";X;~PRINT ,\"tab\"~PRINT TAB(20);\"t\"", ""},
    {"10 IF 0 THEN PRINT \"no\" ELSE ~PRINT \"else\"~FOR I=1 TO 2~PRINT I~NEXT|20 ~IF 1 THEN FOR I=1 TO 2~PRINT I~NEXT~PRINT \"z\" ELSE PRINT \"no\"", ""},
    {"10 FOR I=1 TO 2~GOSUB 100~NEXT~END|100 FOR J=1 TO 2~GOSUB 200~NEXT~RETURN|200 PRINT I;J~RETURN", ""},
  };
  c.sec("STOP at every statement");
  for (auto& p : progs) { std::string t = p.lines; int n = 0; for (char ch : t) n += ch == '~'; 
    auto make = [&](uint64_t mask) { std::string o; int k = 0; for (size_t i = 0; i < t.size(); i++) { if (t[i] != '~') { o += t[i]; continue; } bool glue = i > 0 && t[i - 1] == ' '; bool s = mask >> k & 1; k++; if (glue) { if (s) o += "STOP:"; } else o += s ? ":STOP:" : ":"; } return o; };
    std::string base = make(0);
    auto run = [&](uint64_t mask, const VS& between, bool relational) {
      if (!c.take()) return; std::string q = make(mask);
      Case k; k.argv = {"-q"}; for (auto& l : lines_of(q)) k.in.push_back(l); k.in.push_back("RUN\n");
      std::vector<std::string> in = p.in[0] ? lines_of(std::string(p.in)) : VS(); std::vector<std::string> il; if (p.in[0]) { std::string cur; for (const char* x = p.in; *x; x++) { cur += *x; if (*x == '\n') { il.push_back(cur); cur.clear(); } } }
      if (relational && il.empty()) { // several stops and continuations against one uninterrupted run
        Case b; b.argv = {"-q"}; for (auto& l : lines_of(base)) b.in.push_back(l); b.in.push_back("RUN\n");
        for (int i = 0; i < 40; i++) k.in.push_back("CONT\n");
        c.run(Check{"cont", {b, k}, ""}); }
      else if (relational) { Case m = k; m.in.insert(m.in.end(), il.begin(), il.end()); for (int i = 0; i < 3; i++) m.in.push_back("CONT\n"); c.model(m);
        for (size_t at = 0; at <= il.size(); at++) { Case m2 = k; for (size_t i = 0; i < il.size(); i++) { if (i == at) m2.in.push_back("CONT\n"); m2.in.push_back(il[i]); } m2.in.push_back("CONT\n"); m2.in.push_back("CONT\n"); c.model(m2); } }
      Case m = k; if (il.size()) return; m.in.resize(lines_of(q).size() + 1); for (auto& x : between) m.in.push_back(x + "\n"); for (int i = 0; i < 4; i++) m.in.push_back("CONT\n"); m.in.push_back("PRINT A;X;I;J;K;Y;B$;S$\n"); c.model(m);
    };
    for (int i = 0; i < n; i++) { run(1ull << i, {}, true); for (int j = i + 1; j < n; j++) { run(1ull << i | 1ull << j, {}, true); if (c.thorough) for (int l = j + 1; l < n; l++) run(1ull << i | 1ull << j | 1ull << l, {}, true); } }
    VS ev = {"PRINT I;J;X;A", "X=50:I=2", "GOSUB 200", "FOR Z=1 TO 2:PRINT Z;:NEXT", "FOR Z=1 TO 2", "READ A$:PRINT A$", "RESTORE", "PRINT LOG(0)", "bad syntax(", "LIST 10", "5 REM", "10", "CLEAR", "RUN", "GOTO 10", "NEXT", "RETURN", "DIM Q(9)", "DEF FNA(Z)=Z+100", "CONT", "STOP", "END", "SAVE \"F\"", "RENUM", "COMPILE", "NEW", "GOSUB 100:PRINT \"g\"", "PRINT FNA(1)", "*x", "PRINT \"col\";"};
    sequences(ev, 1, c.thorough ? 2 : 1, [&](CVS v) { for (int i = 0; i < n; i++) run(1ull << i, v, false); });
    if (!c.thorough) sequences(ev, 2, 2, [&](CVS v) { run(1ull << (n / 2), v, false); });
  }
  c.sec("every way to end and continue");
  { VS L = {"STOP", "PRINT 1:STOP", "STOP:PRINT 2", "IF 1 THEN STOP ELSE PRINT 3", "IF 0 THEN PRINT 3 ELSE STOP", "FOR I=1 TO 2:STOP:PRINT I;:NEXT", "GOSUB 100", "PRINT LOG(0)", "END", "GOTO 50", "STOP:STOP", "PRINT \"x\";:STOP:PRINT \"y\"", "ON 1 GOSUB 100:STOP", "REM", "RETURN", "NEXT"};
    sequences(L, 1, 2, [&](CVS v) { for (auto k : {"RUN", "GOTO 20", "GOSUB 100", "GOSUB 100:PRINT \"after\"", "GOTO 50:PRINT 1", "FOR K=1 TO 2:GOSUB 100:NEXT"}) { std::string p; int i = 0; for (auto& x : v) p += num(10 * ++i) + " " + x + "|"; model_session(c, p + "50 PRINT \"fifty\":STOP|100 PRINT \"hundred\":STOP:PRINT \"h2\":RETURN|" + k + "|CONT|PRINT I;K|CONT|CONT|CONT|RETURN|CONT|NEXT"); } }); }
  c.sec("histories of a session");
  { VS ev = {"RUN", "CONT", "STOP", "X=X+1:PRINT X", "GOTO 30", "GOSUB 100", "PRINT LOG(0)", "40 REM", "40", "NEXT", "RETURN", "CLEAR", "GOSUB 100:PRINT \"im\"", "READ A:PRINT A", "NEW", "GOTO 999", "FOR I=1 TO 2:GOSUB 100:NEXT"};
    c.histories({"-q"}, {"10 FOR I=1 TO 2:X=X+10", "20 PRINT \"loop\";I;X:STOP:NEXT", "30 READ A:PRINT A:STOP", "90 END", "95 DATA 1,2,3", "100 PRINT \"sub\":STOP:PRINT \"s2\":RETURN"}, ev, {"CONT", "CONT", "CONT", "PRINT X;I;A"}, c.thorough ? 5 : 4); }
}

G(C15) {
  c.sec("histories of a session");
  { VS ev = {"X=X+1", "PRINT X;A(1);S$", "RUN", "GOTO 30", "GOSUB 40:PRINT \"r\"", "NEXT", "RETURN", "FOR I=1 TO 3", "CLEAR", "NEW", "20 X=X+100", "20", "A(1)=A(1)+1", "DEF FNA(Z)=Z+X", "PRINT FNA(1)", "S$=S$+\"i\"", "READ D:PRINT D", "CONT", "DIM A(2)", "PRINT Y", "LIST", "foo(", "NEXT I"};
    VS p = {"10 X=X+10:A(2)=5:S$=\"p\"", "20 FOR I=1 TO 2:X=X+I", "30 PRINT \"l\";I;X;A(1);A(2);S$:IF X>400 THEN END ELSE NEXT", "35 DEF FNA(Q)=Q*2:STOP:END", "40 PRINT \"sub\";X:Y=Y+1:RETURN", "50 DATA 7,8"};
    c.histories({"-q"}, p, ev, {"PRINT X;I;Y;A(1);S$", "PRINT FNA(2)", "READ D:PRINT D", "NEXT", "RETURN"}, c.thorough ? 5 : 3);
    c.bfs({"-q"}, p, ev, {"PRINT X;I;Y;A(1);S$", "PRINT FNA(2)", "READ D:PRINT D", "NEXT", "RETURN"}, c.thorough ? 40000 : 3000, 8); }
  c.sec("state of every kind across every boundary");
  { VS make = {"X=5", "S$=\"str\"", "DIM A(3):A(2)=7", "A(2)=7", "A$(1)=\"q\"", "DEF FNA(Z)=Z+1", "FOR I=1 TO 3", "READ X", "GOSUB 100", "FOR I=1 TO 3:FOR J=1 TO 2", "RESTORE 60", "GOTO 70", "RUN", "INPUT X|8", "RANDOMIZE 3:X=RND(1)", "GOTO 80", "PRINT \"col\";", "DEF FNA(Z)=Z*100"};
    VS cross = {"", "RUN", "CLEAR", "NEW", "200 REM", "200 PRINT \"two\"", "100", "PRINT LOG(0)", "foo(", "LOAD \"F\"", "GOTO 90", "GOSUB 90", "LIST", "COMPILE", "RENUM", "SAVE \"G\"", "CONT", "GOTO 95", "CLS", "END", "STOP", "10 REM", "300", "NEW|10 PRINT X"};
    VS use = {"PRINT X", "PRINT S$;LEN(S$)", "PRINT A(2);A$(1)", "A(4)=1:PRINT A(4)", "A(11)=1", "PRINT FNA(1)", "NEXT", "NEXT I", "RETURN", "READ Q:PRINT Q", "GOTO 90", "GOSUB 100", "CONT", "DEF FNA(X)=X-1:PRINT FNA(1)", "PRINT RND(1)", "RUN", "PRINT I;J", "PRINT ,\"c\""};
    for (auto& m : make) for (auto& x : cross) for (auto& u : use) if (c.take()) { std::string p = "10 PRINT \"main\";X;S$;I|20 IF X=0 THEN X=1|50 DATA 11,12|60 DATA 21,22|65 END|70 FOR K=1 TO 2:PRINT \"seventy\":STOP|75 NEXT:END|80 GOSUB 100:PRINT \"eighty\":END|90 PRINT \"ninety\";X;I:NEXT:PRINT \"n2\":RETURN|95 PRINT \"x\":STOP:END|100 PRINT \"hundred\":RETURN"; std::string s = p + "|" + m + (x.empty() ? "" : "|" + x) + "|" + u + "|" + u + "|PRINT X;I"; Case k = session(s); k.files["F"] = "10 PRINT \"F\";X\n100 PRINT \"F100\":RETURN\n60 "; k.files["F"] = "10 PRINT \"F\";X\n60 DATA 31\n90 PRINT \"F90\":NEXT\n100 PRINT \"F100\":RETURN\n"; c.model(k); } 
    if (c.thorough) for (auto& m : make) for (auto& m2 : make) for (auto& x : cross) for (auto& u : use) if (c.take()) { std::string p = "10 PRINT \"main\";X;S$;I|20 IF X=0 THEN X=1|50 DATA 11,12|60 DATA 21,22|65 END|70 FOR K=1 TO 2:PRINT \"seventy\":STOP|75 NEXT:END|80 GOSUB 100:PRINT \"eighty\":END|90 PRINT \"ninety\";X;I:NEXT:PRINT \"n2\":RETURN|95 PRINT \"x\":STOP:END|100 PRINT \"hundred\":RETURN"; Case k = session(p + "|" + m + "|" + m2 + (x.empty() ? "" : "|" + x) + "|" + u + "|PRINT X;I"); k.files["F"] = "10 PRINT \"F\";X\n60 DATA 31\n90 PRINT \"F90\":NEXT\n100 PRINT \"F100\":RETURN\n"; c.model(k); } }
  c.sec("entering the program from immediate lines");
  { VS im = {"GOTO 30", "GOSUB 40:PRINT \"r\"", "GOSUB 40:GOSUB 40:PRINT \"r2\"", "FOR I=1 TO 3:GOSUB 40:NEXT:PRINT \"end\"", "FOR I=1 TO 3:GOTO 60", "IF X=0 THEN 30 ELSE 10", "ON 2 GOSUB 30,40:PRINT \"o\"", "ON 1 GOTO 30:PRINT \"o\"", "GOSUB 50:PRINT \"no\"", "GOSUB 70:PRINT \"after stop\"", "FOR J=1 TO 2:GOSUB 70:NEXT", "X=3:GOSUB 40:X=4:GOSUB 40", "GOSUB 999:PRINT 1", "RETURN", "NEXT", "FOR I=1 TO 2:GOSUB 80:PRINT \"z\"", "READ A,B:PRINT A;B:GOSUB 90", "READ A:GOSUB 90:READ B:PRINT A;B:DATA 500,600", "GOSUB 100:PRINT FNQ(1)", "IF 1 THEN GOSUB 40:PRINT \"t\" ELSE PRINT \"e\"", "RUN:PRINT 1", "GOTO 110", "PRINT \"abc\";:GOSUB 40:PRINT ,\"d\"", "CLEAR:GOSUB 40:PRINT X"};
    sequences(im, 1, c.thorough ? 3 : 2, [&](CVS v) { if (!c.take()) return; c.model(session("10 PRINT \"ten\":X=X+1:END|30 PRINT \"thirty\";X;I:RETURN|40 PRINT \"forty\";X;I:RETURN|50 PRINT \"fifty\":END|60 PRINT \"sixty\";I:NEXT:PRINT \"out\":END|70 PRINT \"s\":STOP:PRINT \"t\":RETURN|80 NEXT:RETURN|90 READ C:PRINT \"c\";C:RETURN|100 DEF FNQ(X)=X+1000:RETURN|110 FOR K=1 TO 2:PRINT K:STOP:NEXT|120 DATA 1,2,3,4,5,6|" + join(v, "|") + "|CONT|CONT|NEXT|RETURN|PRINT X;I;J;K;A;B;C")); }); }
  c.sec("what an immediate line leaves behind");
  { VS start = {"FOR I=1 TO 3", "FOR J=1 TO 2", "GOSUB 230", "GOSUB 220", "FOR K=7 TO 8"};
    VS go = {"GOTO 200", "GOTO 210", "GOTO 220", "GOTO 230", "GOTO 240", "GOTO 250", "GOTO 260", "STOP", "END", "PRINT LOG(0)", "PRINT \"d\""};
    VS then = {"NEXT", "NEXT I", "NEXT K", "RETURN", "CONT", "240 PRINT \"new\":END", "PRINT LOG(0)", "FOR I=5 TO 6:PRINT I:NEXT"};
    auto one_of = [&](const VS& st) { for (auto& g : go) sequences(then, 1, c.thorough ? 3 : 2, [&](CVS t) { if (c.take()) c.model(session("200 FOR K=1 TO 2|210 FOR L=1 TO 2:PRINT K;L:STOP:NEXT:PRINT \"out\":END|220 GOSUB 230:PRINT \"ret\":END|230 PRINT \"sub\";I;J:STOP:RETURN|240 END|250 FOR K=1 TO 3:GOSUB 255|255 PRINT K;LOG(2-K):RETURN|260 NEXT:PRINT \"loop done\";I;J:STOP:END|" + join(st, ":") + ":" + g + ":PRINT \"imm\"|" + join(t, "|") + "|NEXT|RETURN|CONT|PRINT I;J;K;L")); }); };
    sequences(start, 1, 2, one_of); if (c.thorough) sequences(start, 3, 3, one_of); }
}

G(C16) {
  VS fail = {"PRINT LOG(0)", "PRINT 1+(2+LOG(0))", "PRINT \"a\"+(\"b\"+CHR$(999))", "A(99)=1", "A(1,1)=LOG(0)", "PRINT FNU(1)", "PRINT FNR(1)", "PRINT FNL(-1)", "X=FNL(FNL(-1))", "GOTO 999", "GOSUB 999", "NEXT", "RETURN", "READ Z", "RESTORE 999", "ON 1.5 GOTO 10", "FOR I=1 TO LOG(0)", "FOR I=LOG(0) TO 1", "DIM Q(-1)", "DIM Q(LOG(0),2)", "INPUT A(99)|5", "PRINT MID$(\"a\",5)", "PRINT \"x\"+LEFT$(\"abc\",-1)", "PRINT 1 AND .5", "PRINT NOT .5", "RANDOMIZE -1", "PRINT VAL(\"x\")", "PRINT TAB(-1)", "PRINT 1,\"a\",LOG(0)", "foo", "PRINT (", "10X", "IF", "\"", "PRINT \"unterminated", "\x80", "GOSUB 30", "GOSUB 40", "RUN", "S$=\"x\"+STR$(LOG(0))", "A(A(A(LOG(0))))=1", "PRINT LEFT$(\"abc\",LEN(\"a\"+CHR$(-1)))", "READ A(LOG(0))", "DEF FNU2(X)=", "IF LOG(0) THEN PRINT 1", "IF 1 THEN PRINT LOG(0) ELSE PRINT 2", "PRINT 1E", "CONT", "LOAD \"nofile\"", "SAVE \"/x/y\"", "LIST x", "RENUM x", "CHR$=5", "PRINT 1;2;3;LOG(0);4", "DATA \"", "REM \x80", "*x"};
  VS setup = {"10 PRINT \"run\":X=LOG(0)", "20 PRINT \"unreached\":RETURN", "30 PRINT 1+(2+(3+LOG(0))):RETURN", "40 FOR J=1 TO 3:GOSUB 30:NEXT:RETURN", "DEF FNR(X)=FNR(X)+1", "DEF FNL(X)=X+LOG(X)"};
  VS probes = {"PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+16))))))))))))))", "PRINT \"a\"+(\"b\"+(\"c\"+(\"d\"+(\"e\"+(\"f\"+(\"g\"+\"h\"))))))", "DEF FNZ(X)=X+1:PRINT FNZ(41);X", "FOR A1=1 TO 1:FOR A2=1 TO 1:FOR A3=1 TO 1:FOR A4=1 TO 1:FOR A5=1 TO 1:FOR A6=1 TO 1:FOR A7=1 TO 1:FOR A8=1 TO 2:PRINT A8;:NEXT:PRINT \"ok\"", "50 N=N+1:IF N<8 THEN GOSUB 50:RETURN ELSE PRINT \"depth\";N:RETURN", "GOSUB 50:PRINT \"back\"", "PRINT A(1);X;S$;I", "READ D:PRINT D:DATA 5", "NEXT", "RETURN", "PRINT \"end\""};
  c.sec("each failure, repeated beyond every limit");
  for (auto& f : fail) for (int n : {1, 2, 7, 8, 9, 15, 16, 17, 18, 33, 64}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (auto& s : setup) k.in.push_back(s + "\n"); for (int i = 0; i < n; i++) for (auto& l : lines_of(f)) k.in.push_back(l); for (auto& p : probes) k.in.push_back(p + "\n"); c.model(k); }
  c.sec("sequences of failures");
  sequences(fail, 2, c.thorough ? 3 : 2, [&](CVS v) { if (!c.take()) return; Case k; k.argv = {"-q"}; for (auto& s : setup) k.in.push_back(s + "\n"); for (int i = 0; i < (v.size() == 2 ? 6 : 2); i++) for (auto& f : v) for (auto& l : lines_of(f)) k.in.push_back(l); for (auto& p : probes) k.in.push_back(p + "\n"); c.model(k); });
  if (!c.thorough) sequences(fail, 3, 3, [&](CVS v) { if (!c.take()) return; Case k; k.argv = {"-q"}; for (auto& s : setup) k.in.push_back(s + "\n"); for (auto& f : v) for (auto& l : lines_of(f)) k.in.push_back(l); for (size_t i = 0; i < 4; i++) k.in.push_back(probes[i] + "\n"); c.model(k); });
  c.sec("failures in programs stop exactly there");
  for (auto& f : fail) { if (f.find('|') != std::string::npos) continue; for (auto ctx : {"%", "PRINT \"b\";:%:PRINT \"no\"", "IF 1 THEN % ELSE PRINT \"no\"", "FOR K=1 TO 3:PRINT K;:%:NEXT", "GOSUB 500", "X=7:%:X=8"}) { std::string s; for (const char* p = ctx; *p; p++) if (*p == '%') s += f; else s += *p; model_program(c, "10 DEF FNR(X)=FNR(X)+1:DEF FNL(X)=X+LOG(X)|15 PRINT \"start\"|20 " + s + "|30 PRINT \"past\";X:END|500 " + f + ":PRINT \"sub\":RETURN"); model_session(c, "15 PRINT \"start\"|20 " + s + "|30 PRINT \"past\";X:END|500 " + f + ":PRINT \"sub\":RETURN|RUN|PRINT \"alive\";X;K|RUN|CONT|NEXT|GOTO 30|20 REM|RUN"); } }
  c.sec("the line reported");
  { // wherever control has been before, the report shows the line of the failing statement
    VS away = {"GOSUB 100", "ON 2 GOSUB 110,100", "PRINT FNA(1)", "PRINT FNB(1)", "GOSUB 120", "FOR I=1 TO 2:GOSUB 100:NEXT", "READ Q", "X=A(1)", "IF 1 THEN GOSUB 100", "IF 0 THEN PRINT 1 ELSE GOSUB 100", "S$=FNC$(1)", "GOSUB 130", "ON 3 GOSUB 100", "GOSUB 140", "STOP", "FOR K=1 TO 1:NEXT K", "GOSUB 100:GOSUB 110", "IF N=0 THEN N=1:GOTO 60"};
    VS fails = {"PRINT LOG(0)", "GOTO 999", "GOSUB 999", "A(99)=1", "PRINT FNL(0)", "PRINT FNU(1)", "STOP", "NEXT Z", "PRINT \"x\"+CHR$(999)", "READ A(-1)", "PRINT FNA(LOG(0))", "RETURN", "DIM A(-1)", "PRINT VAL(\"x\")"};
    for (auto& w : away) for (auto& w2 : away) for (auto& f : fails) { std::string p = "5 DEF FNA(X)=X+1:DEF FNC$(X)=STR$(X)|6 DEF FNB(X)=X*2|7 DEF FNL(X)=LOG(X)|10 PRINT \"a\":" + w + ":" + w2 + "|20 " + w + ":" + w2 + ":" + f + ":PRINT \"b\"|30 PRINT \"c\":END|60 PRINT \"sixty\":GOTO 20|100 PRINT \"s\"|105 RETURN|110 PRINT \"t\":RETURN|120 GOSUB 100:RETURN|130 FOR J=1 TO 2|135 NEXT:RETURN|140 PRINT FNA(2):GOSUB 110|145 RETURN|900 DATA 1,2,3,4,5";
      model_program(c, p); model_session(c, p + "|RUN|CONT|CONT|CONT|PRINT X;N|" + w + ":" + f + "|GOTO 20|CONT|" + w2 + ":" + w + "|CONT"); } }
  c.sec("hostile lines");
  { VS tok = {"PRINT", "IF", "THEN", "ELSE", "FOR", "NEXT", "GOTO", "DATA", "REM", "DIM", "DEF", "ON", "(", ")", ",", ";", ":", "\"", "=", "-", "10", "99999999999", "A", "A$", "A(", "FNA(1)", "ABS", "CHR$(", "TO", "STEP", "<", ">", "<>", "\x80", "\t", "?", "*", "RUN", "LIST", "NEW", "1E", ".", "$", "@", "{", "&", "'", "SPC(", "^"};
    Batch b(c, {"10 PRINT \"p\""}, 24); b.suffix = {"PRINT \"alive\"", "PRINT 1+(2+(3+(4+(5+(6+(7+8))))))"};
    sequences(tok, 1, 2, [&](CVS v) { b.add(join(v, " ")); if (join(v, "").find("REM\x80") == std::string::npos) b.add(join(v, "")); });
    if (c.thorough) sequences(tok, 3, 3, [&](CVS v) { b.add(join(v, " ")); }); 
    b.flush();
    Batch d(c, {}, 8); d.suffix = {"PRINT \"alive\""};
    for (int ch = 1; ch < 256; ch++) if (ch != '\n') for (auto f : {"%", "PRINT %", "A%=1", "10 %", "PRINT \"%\"", "%PRINT 1", "A=1%", "REM %", "DATA %", "PRINT 1%2", "FOR %", "%%%"}) { std::string s; for (const char* p = f; *p; p++) if (*p == '%') s += (char)ch; else s += *p; if (s.find('|') == std::string::npos) d.add(s); else if (c.take()) { Case k; k.argv = {"-q"}; k.in = {s + "\n", "PRINT \"alive\"\n"}; c.model(k); } d.add("10"); } }
  c.sec("the end of the session");
  for (auto& f : fail) for (auto e : {"BYE", "bye", " BYE ", "BYE x", "PRINT 1", ""}) { if (!c.take()) continue; Case k; k.argv = {"-q"}; for (auto& s : setup) k.in.push_back(s + "\n"); for (auto& l : lines_of(f)) k.in.push_back(l); if (*e) k.in.push_back(std::string(e) + "\n"); k.in.push_back("PRINT \"later\"\n"); c.model(k); }
  c.sec("long and deep lines");
  for (int n = 1; n <= 60; n++) { for (auto f : {"(", "-", "NOT ", "ABS(", "A(", "LEN(STR$(", "\"a\"+", "1+(", "LEFT$(", "FNZ(", "IF 1 THEN ", "FOR I=1 TO 2:", ":", "?1;", "A=1:", "GOTO 10,", "+", "IF 1 THEN PRINT 1 ELSE ", "A$+("}) { std::string open = f, s = rep(open, n); if (s.size() > 118) continue; int par = 0; for (char ch : s) par += ch == '('; model_session(c, "PRINT " + s + "1" + rep(")", par) + "|PRINT \"alive\"|" + s + "1|PRINT 1+(2+3)|PRINT " + s + "|PRINT \"x\"+(\"y\"+\"z\")"); Case k = program("10 PRINT " + s + s + "1" + rep(")", par * 2 < 60 ? par * 2 : 60) + "|20 PRINT 2"); if (k.files["P"].size() < 250 && c.take()) c.model(k); } }
}
