// C01 expressions, C07 strings, C22 numbers, C26 functions
#include "gen.h"

G(C01) {
  const VS ops = {"^", "*", "/", "+", "-", "=", "<>", "<", ">", "<=", ">=", " AND ", " OR "};
  const VS pre = {"", "-", "NOT "};
  const VS vals = {"A=2:B=3:C=5:D=7:E=11:F=13", "A=12:B=4:C=2:D=1:E=3:F=5", "A=-6:B=3:C=-2:D=0:E=1:F=4"};
  const VS names = {"A", "B", "C", "D", "E", "F"};
  auto nops = [&](int n, bool prefixes, CVS prefix) {
    Batch b(c, prefix, 40);
    c.all([&](Chooser& ch) {
      std::string s = "?";
      for (int i = 0; i <= n; i++) { if (i) s += one(ch, ops); if (prefixes) s += one(ch, pre); s += names[i]; }
      b.add(s);
    });
  };
  c.sec("all operator sequences");
  for (auto& v : vals) { nops(1, true, {v}); nops(2, true, {v}); nops(3, true, {v}); nops(4, false, {v}); }
  if (c.thorough) { nops(4, true, {vals[0]}); nops(4, true, {vals[1]}); nops(5, false, {vals[0]}); }
  c.sec("parenthesised groupings");
  for (auto& v : vals) { // every way to parenthesise two or three operators, with a prefix on a group
    Batch b(c, {v}, 40);
    c.all([&](Chooser& ch) {
      int shape = ch.pick(7); std::string p = one(ch, pre), o1 = one(ch, ops), o2 = one(ch, ops);
      switch (shape) {
        case 0: b.add("?" + p + "(A" + o1 + "B)" + o2 + "C"); break;
        case 1: b.add("?A" + o1 + p + "(B" + o2 + "C)"); break;
        case 2: b.add("?" + p + "(A" + o1 + "B" + o2 + "C)"); break;
        case 3: b.add("?" + p + "((A" + o1 + "B)" + o2 + "(C))"); break;
        case 4: b.add("?A" + o1 + "(B" + o2 + p + "C)"); break;
        case 5: b.add("?" + p + "(" + p + "(A)" + o1 + "B)" + o2 + "C"); break;
        case 6: b.add("?" + p + p + "A" + o1 + p + p + "B" + o2 + p + "C"); break;
      }
    });
    c.all([&](Chooser& ch) {
      std::string o1 = one(ch, ops), o2 = one(ch, ops), o3 = one(ch, ops);
      std::string p = one(ch, pre); switch (ch.pick(5)) {
        case 0: b.add("?(A" + o1 + "B)" + o2 + "(C" + o3 + p + "D)"); break;
        case 1: b.add("?A" + o1 + "(B" + o2 + "C)" + o3 + p + "D"); break;
        case 2: b.add("?A" + o1 + "(B" + o2 + "(C" + o3 + p + "D))"); break;
        case 3: b.add("?((A" + o1 + "B)" + o2 + "C)" + o3 + p + "D"); break;
        case 4: b.add("?(A" + o1 + "B" + o2 + "C)" + o3 + p + "D"); break;
      }
    });
  }
  c.sec("operand values");
  const VS nums = {"0", "1", "-1", "2", "3", ".5", "-.5", "1.5", "10", "-7", "255", "65536", "1E6", "1E-3", "123456789", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "1E10", "1E300", "-1E300", "1E-10", "2E-10", "1E-300", "1.0000000000000002", ".30000000000000004", ".3", "9007199254740993", "9007199254740992", "1E-17"};
  { Batch b(c, {}, 40);
    for (auto& x : nums) for (auto& y : nums) for (auto& o : ops) { b.add("X=" + x + ":Y=" + y + ":?X" + o + "Y"); }
    for (auto& x : nums) for (auto& p : pre) { b.add("?" + p + x); b.add("X=" + x + ":?" + p + "X;" + p + p + "X"); } }
  c.sec("string comparison");
  const VS strs = {"\"\"", "\"A\"", "\"a\"", "\"AA\"", "\"AB\"", "\"B\"", "\" \"", "\"1\"", "\"10\"", "\"9\"", "CHR$(200)", "CHR$(127)", "CHR$(1)", "\"ABC\"+CHR$(200)", "\"ABCD\""};
  { Batch b(c, {}, 40);
    for (auto& x : strs) for (auto& y : strs) for (auto o : {"=", "<>", "<", ">", "<=", ">="}) b.add("?" + x + o + y);
    for (auto& x : strs) for (auto& y : strs) b.add("?\"[\";" + x + "+" + y + ";\"]\";" + x + "+" + y + "=" + y + "+" + x); }
  c.sec("kinds of operands");
  const VS any = {"1", "N", "\"s\"", "S$", "LEN(S$)", "STR$(N)", "(S$)", "(N)", "Q(1)", "Q$(1)", "-S$", "NOT S$", "-N", "LEN(N)", "STR$(S$)", "LEFT$(S$,1)", "LEFT$(1,S$)", "MID$(S$,1)", "MID$(S$,S$,1)", "RND(S$)", "Q(S$)", "FNA(1)", "FNA(S$)", "FNA$(1)"};
  const VS allops = {"^", "*", "/", "+", "-", "=", "<", ">=", " AND ", " OR "};
  { VS prefix = {"N=2:S$=\"7\":Q(1)=4:Q$(1)=\"q\"", "DEF FNA(X)=X+1:DEF FNA$(X)=STR$(X)"};
    Batch b(c, prefix, 30);
    for (auto& x : any) { b.add("?0:?" + x); for (auto& y : any) for (auto& o : allops) b.add("?0:?" + x + o + y); }
    if (c.thorough) for (auto& x : any) for (auto& y : any) for (auto& z : any) for (auto o : {"+", "=", "*"}) for (auto p : {"+", "<", "^"}) b.add("?0:?" + x + o + y + p + z); 
  }
  c.sec("expressions in every context");
  { const VS e = {"A+B*C", "A-B-C", "A^B^D", "-A^D", "(A+B)*C", "A<B", "A<B AND B<C", "NOT A=B", "A/B/C", "A*(B-C)+D", "-B+C", "2", "A$<B$", "LEN(A$+B$)", "ABS(-A*B)+SGN(-C)", "Q(A)+Q(B)", "Q(Q(A)-B)", "FNA(A)+FNA(B)", "FNA(FNA(A))", "Q(FNA(A))", "FNA(Q(A))", "A$", "A$+B$", "A OR B", "A=B OR C", "INT(A/B)*B", "A-INT(A/B)*B", "((((A))))", "-(-A)", "A- -B"};
    const VS ctx = {"LET Z=%", "Z=%", "PRINT %", "PRINT %;%", "IF % THEN PRINT \"T\" ELSE PRINT \"F\"", "IF % THEN 500", "FOR I=% TO 4:PRINT I;:NEXT", "FOR I=1 TO %:PRINT I;:NEXT", "FOR I=1 TO 9 STEP %:PRINT I;:IF I>0 THEN NEXT", "ON % GOTO 500,510", "ON % GOSUB 600,610", "Z(%)=1", "Z(1,%)=%", "DIM Y(%)", "Z=Q(%)", "PRINT TAB(%+12);9", "PRINT SPC(%);9", "DEF FNB(Z)=%:PRINT FNB(1)", "Z$=%", "Z$=LEFT$(\"abcdef\",%)", "Z$=MID$(\"abcdef\",2,%)", "Z$=STR$(%)+CHR$(65+%)", "RANDOMIZE %", "Z=FNA(%)", "READ Z(%)"};
    for (auto& x : ctx) for (auto& y : e) { std::string s; for (char ch : x) if (ch == '%') s += y; else s += ch; if (c.take()) c.model(program("10 A=2:B=3:C=5:D=2:A$=\"x\":B$=\"yz\":Q(2)=4:Q(3)=3:Q(4)=2|20 DEF FNA(X)=X+A|30 " + s + "|40 PRINT Z;Z$;Y(1);I;RND(1)|50 PRINT Z(1,2);Z(1);Z(3)|60 END|500 PRINT 500;Z|505 END|510 PRINT 510|520 END|600 PRINT 600:RETURN|610 PRINT 610:RETURN|700 DATA 1,2,3")); } }
  c.sec("rejection before anything runs");
  { const VS bad = {"1+\"a\"", "\"a\"*2", "-\"a\"", "NOT \"a\"", "\"a\" AND 1", "A$=1", "1=A$", "A$<1", "A$^2", "2^A$", "A$-B$", "1+", "*2", "(1", "1)", "()", "1 2 +", "1=2=3", "1<2<3", "A$=B$=C$", "LEN(1)", "LEN()", "LEN", "ASC(1,2)", "CHR$(\"a\")", "LEFT$(\"a\")", "LEFT$(1,\"a\")", "MID$(\"a\")", "MID$(\"a\",1,2,3)", "LOG(A$)", "1 AND", "AND 1", "A B", "1 OR OR 2", "^2", "2^", "2^*3", "A$$", "Q(\"1\")", "Q()", "Q(1"};
    for (auto& x : bad) for (auto ctx : {"Z=%", "PRINT %", "IF % THEN PRINT 1", "FOR I=% TO 2", "Z(%)=1", "PRINT 1:Z$=%", "ON % GOTO 10", "DEF FNA(X)=%", "DEF FNA$(X)=%", "DIM Z(%)", "RANDOMIZE %"}) {
      std::string s; for (const char* p = ctx; *p; p++) if (*p == '%') s += x; else s += *p;
      model_program(c, "10 PRINT \"begin\"|20 " + s + "|30 PRINT \"end\"");
    } }
}

G(C07) {
  // every short string with every argument
  c.sec("short strings");
  { VS args = {"-1", "0", "1", "2", "3", "4", "5", "6", ".5", "1.5", "255", "256", "1E10", "4294967295", "4294967296", "-4294967295"};
    strings({"a", "B", " "}, 5, [&](const std::string& s) {
      if (s.size() > 3 && s.find_first_not_of("aB") != std::string::npos && !c.thorough) return;
      Batch b(c, {"DEF FNL$(X)=LEFT$(S$,X)", "S$=\"" + s + "\":T$=\"keep\":N=77"}, 40);
      for (auto& x : args) {
        b.add("T$=LEFT$(S$," + x + "):?\"[\";T$;\"]\";LEN(T$)");
        b.add("?\"[\";RIGHT$(S$," + x + ");\"]\";T$");
        b.add("T$=MID$(S$," + x + "):?\"<\";T$;\">\"");
        if (s.size() <= 4 || c.thorough) for (auto& y : args) b.add("T$=\"k\":T$=MID$(S$," + x + "," + y + ")+\"!\":?T$");
      }
      b.add("?LEN(S$);ASC(S$);LEN(S$+S$);\"[\";S$+T$+S$;\"]\";N");
      for (auto& x : args) b.add("?T$;FNL$(" + x + ")");
    }); }
  c.sec("comparison and concatenation");
  { VS all; strings({"a", "b", "A"}, c.thorough ? 3 : 2, [&](const std::string& s) { all.push_back("\"" + s + "\""); });
    for (auto x : {"CHR$(255)", "CHR$(128)", "CHR$(127)", "CHR$(1)", "\"a\"+CHR$(255)", "\"a\"+CHR$(1)", "CHR$(0)", "\"a\"+CHR$(0)"}) all.push_back(x);
    Batch b(c, {}, 40);
    for (auto& x : all) for (auto& y : all) b.add("A$=" + x + ":B$=" + y + ":?A$=B$;A$<>B$;A$<B$;A$>B$;A$<=B$;A$>=B$;LEN(A$+B$);\"[\";A$+B$;\"]\""); }
  c.sec("character codes");
  { Batch b(c, {}, 40);
    for (int i = -3; i <= 260; i++) { b.add("?CHR$(" + num(i) + ");LEN(CHR$(" + num(i) + "));ASC(CHR$(" + num(i) + "))"); b.add("A$=\"x\":A$=CHR$(" + num(i) + ".5):?A$");
      b.add("?ASC(CHR$(" + num(i) + ")+\"abc\");ASC(\"\"+CHR$(" + num(i) + "))"); }
    for (int i = 1; i < 256; i++) { b.add("A$=CHR$(" + num(i) + "):B$=A$+A$+\"z\":?LEN(B$);ASC(RIGHT$(B$,2));ASC(MID$(B$,2,1));ASC(LEFT$(B$,1));A$<B$;A$=MID$(B$,2,1)"); }
    if (c.thorough) for (int i = 1; i < 256; i++) for (int j = 1; j < 256; j += 3) b.add("A$=CHR$(" + num(i) + "):B$=CHR$(" + num(j) + "):?A$<B$;A$=B$;A$>B$;ASC(A$+B$);ASC(B$+A$)");
    for (auto x : {"1E10", "-1E10", "1E300", "255.999", "256", "255", "4294967296", "4294967361", "-191", "321"}) b.add(std::string("A$=\"x\":?CHR$(") + x + ")"); }
  c.sec("long strings");
  { // strings of every interesting length; each position carries a recognisable character
    VS lens = {"0", "1", "2", "7", "8", "63", "64", "65", "126", "127", "128", "129", "191", "253", "254", "255"};
    VS ks = {"0", "1", "2", "126", "127", "128", "129", "130", "253", "254", "255", "256", "257", "300", "511", "512"};
    auto build = [](const std::string& n) { return "S$=\"\":FOR I=1 TO " + n + ":S$=S$+CHR$(33+I-INT(I/90)*90):NEXT"; };
    for (auto& n : lens) {
      Batch b(c, {"10 " + build(n), "15 IF " + n + "=0 THEN S$=\"\"", "RUN", "T$=\"keep\""}, 20);
      for (auto& k : ks) {
        b.add("?LEFT$(S$," + k + ")"); b.add("?RIGHT$(S$," + k + ")"); b.add("?MID$(S$," + k + ")");
        for (auto& j : ks) b.add("T$=\"keep\":T$=MID$(S$," + k + "," + j + "):?T$;LEN(T$)");
        b.add("T$=\"keep\":T$=S$+LEFT$(S$," + k + "):?T$;LEN(T$)");
        b.add("?T$;LEN(T$);T$=S$;T$<S$;S$<T$;LEFT$(T$,255)=LEFT$(S$,255)");
        b.add("T$=LEFT$(S$," + k + ")+MID$(S$,1," + k + ")+RIGHT$(S$,1):?T$");
      }
      b.add("T$=S$:?T$=S$;LEN(T$);ASC(S$)"); b.add("Q$(3)=S$:?Q$(3);LEN(Q$(3))"); b.add("?VAL(\"12\"+LEFT$(S$,0))");
    } 
    Batch b(c, {"10 FOR I=1 TO 8:D$=\"abcdefgh\":FOR J=1 TO I-1:D$=LEFT$(D$+D$,240):NEXT:L$(I)=D$:NEXT", "RUN"}, 12);
    for (int i = 1; i <= 8; i++) for (int j = 0; j <= 260; j += (i < 6 ? 50 : 1)) { std::string s = num(i); b.add("T$=\"keep\":T$=L$(" + s + ")+LEFT$(L$(8)+\"123456789012345\"," + num(j) + "):?LEN(T$);T$"); }
  }
  c.sec("literals of every length");
  for (int n = 0; n <= 140; n++) model_program(c, "10 A$=\"" + rep("x", n) + "\":PRINT LEN(A$);A$=\"" + rep("x", n / 2) + "\"+\"" + rep("x", n - n / 2) + "\"|20 PRINT A$;\"" + rep("y", 127 - n % 128) + "\"");
  c.sec("nested string functions");
  { VS fns = {"LEFT$(#,2)", "RIGHT$(#,3)", "MID$(#,2)", "MID$(#,2,2)", "#+\"q\"", "\"p\"+#", "STR$(LEN(#))", "CHR$(ASC(#))", "LEFT$(#,LEN(#)-1)", "MID$(#+#,LEN(#),3)", "(#)", "Q$(LEN(#))", "FNS$(#)", "FNT$(LEN(#))"};
    Batch b(c, {"S$=\"hello\":FOR I=0 TO 10:Q$(I)=CHR$(65+I)+\"-\"+CHR$(97+I):NEXT", "DEF FNT$(X)=LEFT$(S$,X)+\"*\""}, 30);
    sequences(fns, 1, c.thorough ? 4 : 3, [&](CVS v) {
      std::string e = "S$"; for (auto& f : v) { std::string n; for (char ch : f) if (ch == '#') n += e; else n += ch; e = n; }
      if (e.size() < 110) b.add("?" + e + ";S$");
    }); }
  c.sec("failures leave the variables alone");
  { VS bad = {"LEFT$(S$,-1)", "LEFT$(S$,.5)", "RIGHT$(S$,-1)", "RIGHT$(S$,1.5)", "MID$(S$,0)", "MID$(S$,4)", "MID$(S$,-1,1)", "MID$(S$,1,-1)", "MID$(S$,1.5)", "MID$(S$,1,.5)", "MID$(\"\",1)", "CHR$(256)", "CHR$(-1)", "CHR$(1.5)", "L$+\"x\"", "\"x\"+L$", "L$+L$", "STR$(VAL(S$))", "Q$(11)", "Q$(-1)", "FNU$(1)", "LEFT$(S$,LOG(0))"};
    VS ctx = {"S$=%", "S$=%+T$", "S$=T$+%", "S$=LEFT$(%,1)", "Q$(1)=%", "Q$(2)=T$+%", "PRINT S$;%", "PRINT %;S$", "IF %=S$ THEN S$=\"bad\"", "IF S$<% THEN S$=\"bad\"", "N=LEN(%)", "N=ASC(%)+1", "T$=MID$(S$,1,LEN(%))", "PRINT FNV(LEN(%))", "DEF FNX$(Z)=%:S$=FNX$(3)", "N=LEN(LEFT$(%,2)+RIGHT$(S$,1))"};
    for (auto& b : bad) for (auto& x : ctx) { std::string e; for (char ch : x) if (ch == '%') e += b; else e += ch;
      std::string probe = "?S$;\",\";T$;\",\";N;Q$(1);Q$(2);LEN(L$);Z";
      model_session(c, "S$=\"abc\":T$=\"tt\":N=5:Q$(1)=\"q1\":Q$(2)=\"q2\":Z=9|FOR I=1 TO 255:L$=L$+\"l\":NEXT|DEF FNV(X)=X+Z|" + e + "|" + probe + "|" + e + "|" + e + "|" + e + "|" + e + "|" + e + "|" + e + "|" + e + "|" + e + "|?\"a\"+(\"b\"+(\"c\"+(\"d\"+(\"e\"+\"f\"))))|" + probe); } }
}

G(C22) {
  const VS alpha = {"1", "0", "9", ".", "E", "-", "+", " ", "x"};
  c.sec("texts through every reader");
  { int n = 0; // VAL, constant, READ and INPUT on one text
    strings(alpha, c.thorough ? 6 : 5, [&](const std::string& s) {
      static VS buf; buf.push_back(s);
      if (buf.size() == 16) {
        if (c.take()) {
          Case k; k.argv = {"-q"}; 
          for (auto& t : buf) { k.in.push_back("A=7:A=VAL(\"" + t + "\"):?A;A*2\n"); k.in.push_back("A=8:READ A:DATA " + t + "\n"); k.in.push_back("?A;A*2;A-INT(A)\n"); k.in.push_back("INPUT A\n"); k.in.push_back(t + "\n"); k.in.push_back("5\n"); k.in.push_back("?A;A/3\n"); k.in.push_back("?" + t + "\n"); k.in.push_back("A=" + t + "\n"); k.in.push_back("?A\n"); }
          c.model(k);
        }
        buf.clear();
      }
      n++;
    });
    (void)n; }
  c.sec("texts of other characters");
  { Batch b(c, {}, 24);
    VS t = {"0x10", "0X1F", "inf", "INF", "nan", "NAN", "infinity", "1e5", "1E5", "1e+5", "1e-5", "1E+", "1E", "1.5.5", "1,5", "\t1", "1\t", " 1 ", "1 1", "--1", "+-1", "+1", "-.5", "+.5", ".", "-", "+", "", " ", ".E1", "1.E1", ".1E1", "1E1.5", "1E400", "-1E400", "1E-400", "00012", "0.1", "0.10", "1D5", "&H10", "1_0", "1e5x", "12abc", "1p3", "0b1", "1f", "1L", "1E0005", "123456789012345678901234567890", "0.000000000000000000000000000000000001", "1.7976931348623157E308", "4.9E-324", "1E308", "9.999995E5", "999999.5", "999999.4"};
    for (auto& s : t) { b.add("A=7:A=VAL(\"" + s + "\"):?A"); b.add("A$=\"" + s + "\":?A$;VAL(A$)"); b.add("READ A:DATA " + s); b.add("READ A:DATA \"" + s + "\""); b.add("?A"); b.add({"INPUT A", s, "77", "?A"}); b.add("?" + s); } }
  c.sec("six significant digits");
  { Batch b(c, {}, 20);
    VS mant = {"1", "1.5", "9", "9.9", "9.99999", "9.999994", "9.999995", "9.999996", "1.23456", "1.234565", "1.234575", "1.2345649", "1.23457", "5", "2.5", "1.00001", "1.000001", "1.0000049", "1.000005", "4.94066", "3.14159265", "6.66666666", "1.1", "7.0000001"};
    for (int e = -324; e <= 308; e += (e > -12 && e < 12) || c.thorough ? 1 : 7) for (auto& m : mant) for (auto sg : {"", "-"}) {
      std::string t = std::string(sg) + m + "E" + num(e);
      b.add("X=" + t + ":?X;STR$(X);LEN(STR$(X));VAL(STR$(X));STR$(VAL(STR$(X)))=STR$(X)");
    }
    for (long i = 0; i <= 1100000; i = i < 1100 ? i + 1 : i + (c.thorough ? 1009 : 10007)) b.add("X=" + num(i) + ":?X;-X;STR$(X);X/8;STR$(-X/7);VAL(STR$(X))=X;X+.5"); 
    for (long i = 999990; i <= 1000010; i++) for (auto f : {"", ".4", ".5", ".6", ".49999", ".500001"}) b.add("X=" + num(i) + f + ":?X;-X;STR$(X);X*10;X/10");
  }
  c.sec("constants of every length");
  for (int n = 1; n <= 135; n++) { model_program(c, "10 PRINT " + rep("1", n) + "|20 PRINT VAL(\"1\"+\"" + rep("2", n > 126 ? 126 : n) + "\")"); model_program(c, "10 READ A:PRINT A:PRINT ." + rep("3", n) + "|20 DATA " + rep("0", n) + "5"); }
  c.sec("conversions follow one another");
  { VS ev = {"?VAL(\"12\")", "?VAL(\"x\")", "?VAL(\"-3.5E2\")", "?VAL(\"\")", "?STR$(1/3)", "?STR$(-7)", "?12.5", "READ A:DATA 4", "READ A:DATA 4x", "READ A$:DATA 1E3", "?A;A$;VAL(A$)", "INPUT A|9.25", "INPUT A|1x|6", "INPUT A$,A|12,13", "?1E", "?VAL(STR$(1E10))"};
    c.histories({"-q"}, {}, ev, {"?A;A$;VAL(\"5\");STR$(5)"}, c.thorough ? 4 : 3); }
  c.sec("line references are whole numbers");
  for (auto t : {"20", "020", "2E1", "20.", "20.0", "+20", "20.5", "0", "65535", "65536", "1E5", "4294967316", ".2E2", "200E-1", "1E-400", "99999999999999999999", "-20"})
    for (auto st : {"GOTO %", "GOSUB %", "IF 1 THEN %", "RESTORE %", "ON 1 GOTO %", "IF 0 THEN 30 ELSE %", "LIST"}) { std::string s; for (const char* p = st; *p; p++) if (*p == '%') s += t; else s += *p; model_program(c, "10 " + s + "|15 PRINT 15:READ A:PRINT A:END|20 PRINT 20:READ A:PRINT A|30 END|40 DATA 1|65535 PRINT 65535"); }
}

G(C26) {
  VS args;
  for (auto x : {"0", "1", "2", "3", "4", "9", "10", "100", "1000", "65535", "1E6", "2147483647", "2147483648", "4294967295", "4294967296", "1E10", "1E15", "1E16", "1E100", "1E300", "1E-3", "1E-10", "1E-300", ".5", ".25", ".1", ".75", ".999999", ".9999999999", "1.5", "2.5", "2.4999", "3.14159265358979", "1.5707963", "6.2831853", "2.71828182845905", "12345.678", "0.0001", "7", "255", "256.5", "709", "710", "88"}) { args.push_back(x); args.push_back(std::string("-") + x); }
  for (int i = -40; i <= 40; i++) args.push_back(strf("%g", i * 0.375));
  for (int e = -308; e <= 308; e += c.thorough ? 1 : 7) for (auto m : {"1E", "-1E", "3.7E", "-9.99E"}) args.push_back(m + num(e));
  for (auto x : {"4.94E-324", "1E-320", "2.2250738585072E-308", "1E-305", "1E-307", "1E308", "1.79E308", "1E22", "1E23"}) { args.push_back(x); args.push_back(std::string("-") + x); }
  for (int b = 0; b <= 62; b += c.thorough ? 1 : 3) for (int d = -1; d <= 1; d++) { args.push_back(strf("%.17g", (double)(1L << b) + d)); args.push_back(strf("%.17g", -(double)(1L << b) + d * .5)); }
  if (c.thorough) for (int i = -500; i <= 500; i++) args.push_back(strf("%g", i * 0.171));
  const VS fns = {"ABS", "SGN", "INT", "SQR", "EXP", "LOG", "SIN", "COS", "TAN", "ATN"};
  c.sec("every function on the grid");
  { Batch b(c, {"X=3"}, 30);
    for (auto& f : fns) for (auto& a : args) { if (f == "SQR" && a[0] == '-' ) continue; b.add("Y=99:Y=" + f + "(" + a + "):?Y;Y-INT(Y)"); b.add("X=" + a + ":?" + f + "(X);X;" + f + "(X)*2-1;" + f + "(X)=" + f + "(X)"); b.add("?(" + f + "(" + a + ")-" + f + "(" + a + "))*1E9;X"); }
    for (auto& a : args) b.add("?INT(" + a + ")<=" + a + ";INT(" + a + ")>" + a + "-1;ABS(" + a + ")>=0;SGN(" + a + ")*ABS(" + a + ")=" + a); }
  c.sec("nested functions and histories");
  { VS small = {"-2", "-.5", "0", ".5", "1", "2.5", "10"};
    Batch b(c, {}, 30);
    sequences(fns, 2, 3, [&](CVS v) { for (auto& a : small) { std::string e = a; for (auto& f : v) e = f + "(" + e + ")"; if (v[v.size() - 1] == "SQR" || v[0] == "SQR" || (v.size() > 2 && v[1] == "SQR")) continue; b.add("?" + e); } });
    for (auto& a : small) if (a[0] != '-') for (auto& f : fns) { b.add("?" + f + "(SQR(" + a + "));SQR(" + a + ")"); b.add("?SQR(ABS(" + f + "(" + a + ")))"); }
  }
  { VS ev; for (auto& f : fns) ev.push_back("?" + f + "(2)"); ev.push_back("?LOG(0)"); ev.push_back("?LOG(-1)"); ev.push_back("?EXP(1000)"); ev.push_back("X=RND(1)"); ev.push_back("?RND(0)=RND(0)"); ev.push_back("DEF FNA(X)=SIN(X)+COS(X):?FNA(1)"); ev.push_back("?VAL(\"q\")");
    c.histories({"-q"}, {}, ev, {"?ABS(-2);SGN(-2);INT(-2.5);SQR(2);EXP(1);LOG(2);SIN(2);COS(2);TAN(2);ATN(2)"}, c.thorough ? 4 : 3); }
  c.sec("arguments are evaluated once");
  { for (auto& f : fns) if (f != "LOG") for (auto e : {"RND(1)", "RND(1)*10", "VAL(\"3\")+RND(1)", "FNR(1)", "LEN(STR$(RND(1)))"}) { model_program(c, "10 DEF FNR(X)=RND(X)|20 Y=" + f + "(" + e + ")|30 PRINT INT(Y*1000)|40 PRINT RND(1);RND(1)"); } }
  c.sec("argument counts and kinds");
  { Batch b(c, {"A$=\"2\":A=2"}, 30);
    for (auto& f : fns) for (auto e : {"", "()", "(A$)", "(A,A)", "(A", " A", "(A))", "(A)+(A)", "(A)(A)", "$(A)", "(,A)", "(\"\")", "(A=A)", "(NOT A)", "(-A)", "(ABS(A)"}) { b.add("?" + f + e); b.add("Z=" + f + e + ":?Z"); b.add(f + e + "=1"); b.add(f + "=3:?" + f); b.add("DIM " + f + "(3)"); b.add("DEF " + f + "(X)=X"); } }
}
