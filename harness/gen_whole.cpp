// A twelfth group: whole programs of the kinds people write in this dialect, each under every input of a small alphabet up
// to a depth, and run in every way a program can be run: from a file, typed (in order and backwards), loaded, renumbered,
// saved and loaded again, crunched, traced, stopped at every line and continued, and before and after every other one.
#include "gen.h"
struct P { const char* name; const char* tags; const char* text; const char* alphabet; int depth, tdepth; const char* end; };
static const P PROGRAMS[] = {
{"adventure", "C02 C04 C06 C07 C09", R"(10 GOSUB 2000
20 FALSE=0:TRUE=-1:HIDDEN=-1:HELD=-2
30 room=0:locked=TRUE:opened=FALSE:keyloc=HIDDEN
100 ON room+1 GOTO 1000,1100
110 IF room=0 AND locked THEN PRINT "The door is locked." ELSE IF room=0 THEN PRINT "The door is unlocked."
120 IF opened THEN PRINT "The drawer is open." ELSE PRINT "The drawer is closed."
130 IF keyloc = room THEN PRINT "A key is here."
200 LINE INPUT "What now"; line$
220 L=len(line$):i=1
240 IF i <= L THEN IF MID$(line$,i,1)=" " THEN i=i+1:GOTO 240
250 IF i > L THEN 200
260 verb$=""
270 verb$=verb$+MID$(line$,i,1):i=i+1
290 IF i <= L THEN IF MID$(line$,i,1)<>" " THEN 270
300 IF i <= L THEN IF MID$(line$,i,1)=" " THEN i=i+1:GOTO 300
310 noun$=""
320 IF i > L THEN 410
330 noun$=noun$+MID$(line$,i,1):i=i+1
350 IF i <= L THEN IF MID$(line$,i,1)<>" " THEN 330
360 IF i <= L THEN IF MID$(line$,i,1)=" " THEN i=i+1:GOTO 360
370 IF i <= L THEN PRINT "One verb and one noun.":GOTO 200
410 IF verb$="q" THEN END
420 IF verb$="go" AND noun$<>"" THEN dir$=noun$:GOTO 500
430 IF noun$="" THEN dir$=verb$:GOTO 500
440 GOTO 700
500 FOR i = 0 TO MAXDIR
510 IF dir$=LEFT$(dirs$(i),LEN(dir$)) THEN dir=i:GOTO 600
520 NEXT i
530 GOTO 700
600 IF exits(room,dir)=-1 THEN PRINT "You can't go that way.":GOTO 200
620 room=exits(room,dir):GOTO 100
700 verb=-1:noun=-1
720 FOR i = 0 TO MAXVERB:IF verbs$(i)=verb$ THEN verb=i:GOTO 770
740 NEXT i
750 PRINT "I don't understand "; verb$;" as a verb.":GOTO 200
770 IF noun$="" THEN 830
780 FOR i = 0 TO MAXNOUN:IF LEFT$(nouns$(i),LEN(noun$))=noun$ THEN noun=i:GOTO 830
800 NEXT i
810 PRINT "I don't understand "; noun$;" as a noun.":GOTO 200
830 IF noun=-1 THEN PRINT verb$;" what?":GOTO 200
860 ON verb+1 GOTO 3200,3300,3400,3600
1000 PRINT "You are in a bare room. There is a door in the east wall.":GOTO 110
1100 PRINT "You have escaped!":END
2000 MAXDIR=3:DIM dirs$(3):FOR i = 0 TO MAXDIR:READ dirs$(i):NEXT i
2040 DATA "north","south","east","west"
2100 MAXVERB=3:DIM verbs$(3):FOR i = 0 TO MAXVERB:READ verbs$(i):NEXT i
2130 DATA "get","drop","open","unlock"
2200 MAXNOUN=2:DIM nouns$(2):FOR i = 0 TO MAXNOUN:READ nouns$(i):NEXT i
2230 DATA "drawer","door","key"
2320 DIM exits(1,3):FOR i = 0 TO 1:FOR j = 0 TO 3:READ exits(i,j):NEXT j:NEXT i
2360 DATA -1,-1,-1,-1
2361 DATA -1,-1,-1,-1
2400 RETURN
3200 IF noun<>2 OR keyloc<>room THEN PRINT "You can't get that.":GOTO 200
3230 keyloc=HELD:PRINT "You now have the ";nouns$(noun);".":GOTO 200
3300 IF noun<>2 OR keyloc<>HELD THEN PRINT "You don't have that.":GOTO 200
3320 keyloc=room:PRINT "Dropped.":GOTO 200
3400 IF noun<>0 OR opened THEN PRINT "You can't open that.":GOTO 200
3430 opened=TRUE:IF keyloc=HIDDEN THEN keyloc=room
3440 GOTO 100
3600 IF noun<>1 OR keyloc<>HELD OR NOT locked THEN PRINT "You can't.":GOTO 200
3630 locked=FALSE:exits(0,2)=1:GOTO 100
)", "open drawer|get key| drop  k |unlock door|e|go east|look|get|a b c", 3, 5, "q|q"},
{"sieve", "C06 C03 C02", R"(20 MAX = 120
30 DIM SIEVE(MAX)
40 N = 2
110 I = N + N
120 IF I > MAX THEN 210
130 SIEVE(I) = 1
140 I = I + N
150 GOTO 120
210 N = N + 1
220 IF N > MAX THEN 310
230 IF SIEVE(N) THEN 210
240 GOTO 110
310 FOR I = 2 TO MAX
320 IF SIEVE(I)=0 THEN PRINT I;
330 NEXT I
340 PRINT
400 END
)", "", 0, 0, ""},
{"bubble", "C03 C06 C09", R"(10 INPUT "How many";N:DIM A(N)
20 FOR I=1 TO N:INPUT A(I):NEXT I
30 FOR I=1 TO N-1:FOR J=1 TO N-I
40 IF A(J)>A(J+1) THEN T=A(J):A(J)=A(J+1):A(J+1)=T:S=S+1
50 NEXT J:NEXT I
60 FOR I=1 TO N:PRINT A(I);:NEXT I:PRINT "in";S
)", "3|1|2|-1.5|1,2|x", 4, 6, "4|5|6|7"},
{"names", "C07 C06 C09", R"(10 DIM N$(9)
20 K=0
30 LINE INPUT "Name: ";X$:IF X$="" THEN 60
40 I=K
45 IF I>0 THEN IF N$(I-1)>X$ THEN N$(I)=N$(I-1):I=I-1:GOTO 45
50 N$(I)=X$:K=K+1:IF K<9 THEN 30
60 FOR I=0 TO K-1:PRINT I+1;TAB(8);N$(I),LEN(N$(I)):NEXT:CLEAR:PRINT K
)", "bob|Al|al|zed| x|bob, jr", 4, 5, ""},
{"guess", "C02 C09 C23", R"(10 RANDOMIZE 7:T=INT(RND*20)+1:G=0
20 INPUT "Guess";X:G=G+1
30 IF X<T THEN PRINT "Too low" ELSE IF X>T THEN PRINT "Too high" ELSE 60
40 IF G<6 THEN 20
50 PRINT "It was";T:END
60 PRINT "Right in";G
)", "1|20|10|5|15|7|x|3,4", 2, 4, "8|9|11|12|13|14|16"},
{"hanoi", "C04 C06 C02", R"(10 DIM S(20,3):P=0:M=0
20 INPUT N:A=1:B=2:C=3:GOSUB 100:PRINT "moves";M:END
100 IF N=0 THEN RETURN
110 P=P+1:S(P,0)=N:S(P,1)=A:S(P,2)=B:S(P,3)=C
120 T=B:B=C:C=T:N=N-1:GOSUB 100
130 N=S(P,0):A=S(P,1):B=S(P,2):C=S(P,3)
140 PRINT N;":";A;"-";B:M=M+1
150 T=A:A=C:C=T:N=N-1:GOSUB 100
160 N=S(P,0):A=S(P,1):B=S(P,2):C=S(P,3):P=P-1
170 RETURN
)", "0|1|2|3|5|7|8|9", 1, 1, ""},
{"menu", "C04 C02 C09", R"(10 PRINT "1 add  2 list  3 total  4 quit"
20 INPUT "Choice";C
30 ON C GOSUB 100,200,300,400
40 IF C<1 OR C>4 THEN PRINT "What?"
50 GOTO 10
100 INPUT "Item, price";I$(N),P(N):N=N+1:RETURN
200 IF N=0 THEN PRINT "None":RETURN
210 FOR I=0 TO N-1:PRINT I$(I);TAB(15);P(I):NEXT:RETURN
300 T=0:FOR I=0 TO N-1:IF N>0 THEN T=T+P(I)
310 NEXT:PRINT "Total";T:RETURN
400 PRINT "Bye":STOP
410 RETURN
)", "1|2|3|5|ab,2.5|1.5|0", 4, 5, "4|1|cd,7|3|4"},
{"matrix", "C06 C03 C05", R"(10 READ R,K,C:DIM A(R,K),B(K,C),D(R,C)
20 FOR I=1 TO R:FOR J=1 TO K:READ A(I,J):NEXT J,I
30 FOR I=1 TO K:FOR J=1 TO C:READ B(I,J):NEXT J,I
40 FOR I=1 TO R:FOR J=1 TO C:S=0:FOR L=1 TO K:S=S+A(I,L)*B(L,J):NEXT L:D(I,J)=S:NEXT J,I
50 FOR I=1 TO R:FOR J=1 TO C:PRINT D(I,J);:NEXT J:PRINT:NEXT I
60 READ X$:IF X$="more" THEN 10 ELSE PRINT X$
100 DATA 2,3,2, 1,2,3,4,5,6, 7,8,9,10,11,12, "more"
110 DATA 1,1,1,-2.5,4
120 DATA done , more
)", "", 0, 0, ""},
{"roman", "C05 C07 C02", R"(10 INPUT N:IF N=0 THEN END
20 RESTORE 100:R$="":M=N
30 READ V,S$:IF V=0 THEN PRINT N;"= ";R$:GOTO 10
40 IF M>=V THEN R$=R$+S$:M=M-V:GOTO 40
50 GOTO 30
100 DATA 1000,M,900,CM,500,D,400,CD,100,C,90,XC
110 DATA 50,L,40,XL,10,X,9,IX,5,V,4,IV,1,I,0,""
)", "1|4|9|14|1999|2024|3888|40", 2, 3, "0"},
{"primes", "C03 C02 C26", R"(10 INPUT N:IF N<2 THEN END
20 PRINT N;"=";:M=N
30 FOR D=2 TO SQR(N)
40 IF M/D=INT(M/D) THEN PRINT D;:M=M/D:IF M>1 THEN PRINT "*";:GOTO 40
50 NEXT D
60 IF M>1 THEN PRINT M; ELSE PRINT "";
70 PRINT:GOTO 10
)", "2|12|97|360|1024|999|x|4", 2, 3, "1|0"},
{"caesar", "C07 C03 C09", R"(10 INPUT "Shift";K:LINE INPUT "Text: ";T$:IF K=99 THEN END
15 IF LEN(T$)=0 THEN 10
20 O$="":FOR I=1 TO LEN(T$):C=ASC(MID$(T$,I,1))
30 IF C>=65 AND C<=90 THEN B=65:GOSUB 60 ELSE IF C>=97 AND C<=122 THEN B=97:GOSUB 60
40 O$=O$+CHR$(C):NEXT
50 PRINT O$;"|";LEFT$(O$,3);"|";RIGHT$(O$,3):GOTO 10
60 C=C-B+K:C=C-26*INT(C/26)+B:RETURN
)", "3|-1|Hello, World|xyz|26", 4, 5, "99|z|99|99"},
{"fibonacci", "C01 C08 C03", R"(10 DEF FNP(X)=((1+SQR(5))/2)^X
20 DEF FNQ(X)=((1-SQR(5))/2)^X
30 A=0:B=1:X=42
40 FOR I=1 TO 24:F=INT((FNP(I)-FNQ(I))/SQR(5)+.5):PRINT B;:IF F<>B THEN PRINT "?";F;
50 T=A+B:A=B:B=T:NEXT:PRINT:PRINT X
60 IF A=46368 THEN PRINT "ok" ELSE PRINT "not";A
)", "", 0, 0, ""},
{"newton", "C01 C08 C26", R"(10 DEF FNF(X)=X*X*X-X-P:DEF FND(X)=3*X*X-1
20 INPUT P:IF P=0 THEN END
30 X=2:N=0
40 F=FNF(X):D=FND(X):X=X-F/D:N=N+1
50 IF ABS(F)>1E-9 AND N<40 THEN 40
60 PRINT INT(X*10000+.5)/10000;N<40:GOTO 20
)", "1|2|10|.5|-8", 2, 3, "0"},
{"life", "C06 C03 C10", R"(10 W=6:DIM A(7,7),B(7,7)
20 FOR I=1 TO 3:READ X,Y:A(X,Y)=1:NEXT
30 FOR G=1 TO 3:FOR Y=1 TO W:FOR X=1 TO W
40 N=A(X-1,Y-1)+A(X,Y-1)+A(X+1,Y-1)+A(X-1,Y)+A(X+1,Y)+A(X-1,Y+1)+A(X,Y+1)+A(X+1,Y+1)
50 B(X,Y)=-(N=3 OR N=2 AND A(X,Y)=1)
60 IF A(X,Y) THEN PRINT "*"; ELSE PRINT ".";
70 NEXT X:PRINT:NEXT Y
80 FOR Y=1 TO W:FOR X=1 TO W:A(X,Y)=B(X,Y):NEXT X,Y:PRINT "--";G
90 NEXT G
100 DATA 3,2,3,3,3,4
)", "", 0, 0, ""},
{"queue", "C06 C02 C09", R"(10 DIM Q(4):H=0:T=0:C=0
20 INPUT X:IF X=0 THEN 60
30 IF X>0 THEN IF C=5 THEN PRINT "full":GOTO 20 ELSE Q(T)=X:T=T+1:C=C+1:IF T=5 THEN T=0
35 IF X>0 THEN 20
40 IF C=0 THEN PRINT "empty":GOTO 20
50 PRINT Q(H);:H=H+1:C=C-1:IF H=5 THEN H=0:GOTO 20
55 GOTO 20
60 PRINT "left";C:IF C>0 THEN C=C-1:PRINT Q(H);:H=H+1:IF H=5 THEN H=0:GOTO 60 ELSE 60
)", "1|2|-1|3", 5, 7, "0"},
{"list", "C06 C05 C02", R"(10 DIM K(20),L(20),R(20):N=0:ROOT=-1
20 READ X:IF X<0 THEN 100
30 K(N)=X:L(N)=-1:R(N)=-1:IF ROOT<0 THEN ROOT=0:N=1:GOTO 20
40 P=ROOT
50 IF X<K(P) THEN IF L(P)>=0 THEN P=L(P):GOTO 50 ELSE L(P)=N:GOTO 70
60 IF X>=K(P) THEN IF R(P)>=0 THEN P=R(P):GOTO 50 ELSE R(P)=N
70 N=N+1:GOTO 20
100 S=0:P=ROOT
110 IF P>=0 THEN ST(S)=P:S=S+1:P=L(P):GOTO 110
120 IF S=0 THEN PRINT:END
130 S=S-1:P=ST(S):PRINT K(P);:P=R(P):GOTO 110
200 DATA 5,2,8,1,9,3,7,4,6,0,5,-1
)", "", 0, 0, ""},
{"bank", "C05 C02 C07 C09", R"(10 DIM B(3),N$(3):FOR I=1 TO 3:READ N$(I),B(I):NEXT
20 INPUT "Name, amount";A$,M:IF A$="end" THEN 80
30 FOR I=1 TO 3:IF N$(I)<>A$ THEN NEXT:PRINT "No ";A$:GOTO 20
40 IF B(I)+M<0 THEN PRINT "Only";B(I):GOTO 20
50 B(I)=B(I)+M:PRINT N$(I);" has";B(I):GOTO 20
80 FOR I=1 TO 3:PRINT N$(I),B(I):T=T+B(I):NEXT:PRINT "Total",T
90 DATA Ann,10, "Bob",20.5,"Cy, D",0
)", "Ann,5|Bob,-30|Ann,-15|Zoe,1|Bob|Cy,1|Ann , 1", 3, 4, "end,0|x,y|end,0"},
{"calc", "C07 C22 C02", R"(10 LINE INPUT "? ";E$:IF E$="" THEN END
20 P=1:GOSUB 100:IF P<=LEN(E$) THEN PRINT "error at";P:GOTO 10
30 PRINT V:GOTO 10
100 GOSUB 200:T=V
110 IF P>LEN(E$) THEN V=T:RETURN
120 O$=MID$(E$,P,1):IF O$<>"+" AND O$<>"-" THEN V=T:RETURN
130 P=P+1:GOSUB 200:IF O$="+" THEN T=T+V ELSE T=T-V
140 GOTO 110
200 S=P
210 IF P<=LEN(E$) THEN C=ASC(MID$(E$,P,1)):IF C>=48 AND C<=57 OR C=46 THEN P=P+1:GOTO 210
220 IF P=S THEN V=0:RETURN
230 V=VAL(MID$(E$,S,P-S)):RETURN
)", "1+2|10-4.5-1|7|1+|+|1.2.3|12+34-56+78", 3, 4, ""},
{"histogram", "C10 C03 C05", R"(10 PRINT "Value","Bar":PRINT
20 FOR I=1 TO 6:READ V:PRINT V;TAB(10);:FOR J=1 TO V:PRINT "#";:NEXT J:PRINT SPC(2);V/10:NEXT I
30 PRINT TAB(20);"end";TAB(5);"x",;"y",
40 PRINT "z":PRINT 1,2,3;4;5,"a";"b"
50 DATA 3,0,7,12,1,5
)", "", 0, 0, ""},
{"strings", "C07 C03", R"(10 LINE INPUT A$:IF A$="" THEN END
20 R$="":FOR I=LEN(A$) TO 1 STEP -1:R$=R$+MID$(A$,I,1):NEXT
30 U$="":FOR I=1 TO LEN(A$):C=ASC(MID$(A$,I,1)):IF C>96 AND C<123 THEN C=C-32
35 U$=U$+CHR$(C):NEXT
40 W=0:S=1:FOR I=1 TO LEN(A$):IF MID$(A$,I,1)=" " THEN S=1 ELSE IF S=1 THEN W=W+1:S=0
45 NEXT
50 PRINT R$;"/";U$;"/";W;A$=R$;A$<R$;LEFT$(A$,2)+RIGHT$(A$,2):GOTO 10
)", "abba|ab cd| x |Z|a,b:c\"d|  ", 3, 5, ""},
{"dates", "C01 C02 C08", R"(10 DEF FNL(Y)=(Y/4=INT(Y/4) AND Y/100<>INT(Y/100)) OR Y/400=INT(Y/400)
20 INPUT Y,M,D:IF Y=0 THEN END
30 RESTORE:T=0:FOR I=1 TO M-1:READ X:T=T+X:NEXT
40 IF M>2 AND FNL(Y) THEN T=T+1
50 PRINT "day";T+D:GOTO 20
60 DATA 31,28,31,30,31,30,31,31,30,31,30,31
)", "2000,3,1|1900,3,1|2023,12,31|2024,12,31|1,1,1|2024,2", 2, 3, "0,0,0|0,0,0"},
{"nim", "C02 C09 C01", R"(10 S=21
20 PRINT S;"left":INPUT "Take";N
30 IF N<1 OR N>3 OR N<>INT(N) OR N>S THEN PRINT "1 to 3":GOTO 20
40 S=S-N:IF S=0 THEN PRINT "You win":END
50 C=S-4*INT(S/4):IF C=0 THEN C=1
60 PRINT "I take";C:S=S-C:IF S=0 THEN PRINT "I win":END
70 GOTO 20
)", "1|2|3|4|1.5", 4, 7, "3|1|2|3|1|1|1|1|1|1|1"},
{"permute", "C06 C03 C04", R"(10 N=4:DIM P(4):FOR I=1 TO N:P(I)=I:NEXT
20 GOSUB 100
30 I=N-1
40 IF I>0 THEN IF P(I)>P(I+1) THEN I=I-1:GOTO 40
50 IF I=0 THEN PRINT "that is";C:END
60 J=N
70 IF P(J)<P(I) THEN J=J-1:GOTO 70
80 T=P(I):P(I)=P(J):P(J)=T:L=I+1:H=N
90 IF L<H THEN T=P(L):P(L)=P(H):P(H)=T:L=L+1:H=H-1:GOTO 90
95 GOTO 20
100 C=C+1:FOR K=1 TO N:PRINT P(K);:NEXT K:PRINT:RETURN
)", "", 0, 0, ""},
{"table", "C26 C10 C03", R"(10 PRINT "X","SIN","COS"
20 FOR X=0 TO 3 STEP .5:PRINT X,INT(SIN(X)*1000+.5)/1000,INT(COS(X)*1000+.5)/1000:NEXT
30 FOR X=-2 TO 2:PRINT SGN(X);ABS(X);INT(X/2);X^2;EXP(0)*X;:NEXT:PRINT
40 FOR X=10 TO 1 STEP -3:PRINT X;:NEXT:PRINT X
50 FOR X=1 TO 0:PRINT "once":NEXT:PRINT X
)", "", 0, 0, ""},
{"compound", "C01 C22 C10", R"(10 INPUT "Principal, rate, years";P,R,Y:IF P=0 THEN END
20 FOR I=1 TO Y:P=P*(1+R/100):NEXT
30 PRINT "Amount";INT(P*100+.5)/100:PRINT P,STR$(P),VAL(STR$(P))
40 GOTO 10
)", "100,5,3|1e3,.5,2|-5,1,1|1,1|1,2,3,4|+7,-2,1", 2, 3, "0,0,0|0,0,0|0,0,0"},
{"switch", "C02 C04", R"(10 FOR I=-1 TO 6
20 ON I GOTO 100,200,300
30 ON I-3 GOSUB 400,500
40 IF I=6 THEN PRINT "six":END ELSE IF I<1 THEN PRINT "low";I
50 NEXT:STOP
100 PRINT "one":GOTO 50
200 PRINT "two";:IF I=2 THEN GOSUB 400:GOTO 50
300 PRINT "three":GOTO 30
400 PRINT "four";I:IF I=4 THEN GOSUB 500
410 RETURN
500 PRINT "five":RETURN
)", "", 0, 0, ""},
{"state", "C02 C07 C09", R"(10 S=1:N=0:LINE INPUT T$
20 N=N+1:IF N>LEN(T$) THEN 60
30 C$=MID$(T$,N,1)
40 IF S=1 THEN IF C$="0" THEN S=2 ELSE IF C$="1" THEN S=3 ELSE PRINT "bad ";C$:END
45 IF S=2 THEN IF C$="1" THEN S=1
50 IF S=3 THEN IF C$="0" THEN S=1
55 GOTO 20
60 IF S=1 THEN PRINT "yes" ELSE IF S=2 THEN PRINT "no" ELSE PRINT "three"
)", "|0|1|01|10|0110|0x|x|11|00|1001", 1, 1, ""},
{"pascal", "C06 C03 C10", R"(10 DIM P(9,9)
20 FOR I=0 TO 9:P(I,0)=1:PRINT TAB(22-2*I);:FOR J=0 TO I
30 IF J>0 THEN P(I,J)=P(I-1,J-1)+P(I-1,J)
40 PRINT P(I,J);:NEXT J:PRINT:NEXT I
)", "", 0, 0, ""},
{"hangman", "C07 C09 C04", R"(10 W$="banana":G$="":FOR I=1 TO LEN(W$):G$=G$+"-":NEXT:M=0
20 PRINT G$:INPUT "Letter";L$:IF LEN(L$)<>1 THEN PRINT "One letter":GOTO 20
30 H=0:FOR I=1 TO LEN(W$):IF MID$(W$,I,1)=L$ THEN GOSUB 100
40 NEXT:IF H=0 THEN M=M+1:PRINT "No";M
50 IF G$=W$ THEN PRINT "Saved":END
60 IF M<3 THEN 20
70 PRINT "Lost: ";W$:END
100 H=1:A$="":B$="":IF I>1 THEN A$=LEFT$(G$,I-1)
110 IF I<LEN(G$) THEN B$=MID$(G$,I+1,99)
120 G$=A$+L$+B$:RETURN
)", "a|b|n|z|ab", 4, 6, "x|y|z|w"},
{"stopper", "C14 C15 C03", R"(10 FOR I=1 TO 3:GOSUB 100:NEXT
20 PRINT "sum";S:END
100 FOR J=1 TO I:READ X:S=S+X:IF X=3 THEN STOP
110 NEXT J:PRINT I;S:RETURN
200 DATA 1,2,3,4,3,6
)", "CONT|PRINT I;J;S|S=100|GOSUB 100|NEXT|RETURN|I=3|RESTORE", 3, 4, "CONT|PRINT S|CONT"},
};
static const int NP = sizeof PROGRAMS / sizeof *PROGRAMS;
static VS text(const P& p) { VS v; for (auto& l : split(p.text, '\n')) if (!l.empty()) v.push_back(l); return v; }
static bool tagged(const P& p, const char* id) { return strstr(p.tags, id); }
static VS ending(const P& p) { return split(p.end); }
static VS lower(CVS v) { VS o; for (auto l : v) { bool q = false; bool data = l.find("DATA") != std::string::npos; for (auto& ch : l) { if (ch == '"') q = !q; if (!q && !data) ch = tolower(ch); } o.push_back(l); } return o; }
// every input up to the depth
template<class F> static void inputs(Ctx& c, const P& p, int less, F f) { int d = (c.thorough ? p.tdepth : p.depth) - less; if (!*p.alphabet) { f(VS()); return; } if (d < 1) d = 1; VS a = split(p.alphabet); sequences(a, 0, d, [&](CVS s) { VS v = s; for (auto& e : ending(p)) v.push_back(e); f(v); }); }
static void feed(Case& k, CVS v) { for (auto& l : v) k.in.push_back(l + "\n"); }
static void by_file(Ctx& c, const P& p, const char* opt, int less) { inputs(c, p, less, [&](CVS in) { if (!c.take()) return; Case k; k.argv = {"-q"}; if (opt) k.argv.push_back(opt); k.argv.push_back("P"); std::string s; for (auto& l : text(p)) s += l + "\n"; k.files["P"] = s; feed(k, in); c.run(Check{"model", {k}, "long"}); }); }
// a session in which the program is made in one of several ways and then run, with things before and after each run
static void by_session(Ctx& c, const P& p, int how, int less) { inputs(c, p, less, [&](CVS in) { if (!c.take()) return; Case k; k.argv = {"-q"}; VS t = text(p); std::string file; for (auto& l : t) file += l + "\n"; VS s;
  switch (how) {
    case 0: s = t; s.push_back("RUN"); break;
    case 1: s = VS(t.rbegin(), t.rend()); s.push_back("RUN"); break;
    case 2: k.files["P"] = file; s = {"LOAD \"P\"", "RUN"}; break;
    case 3: s = t; for (auto x : {"RENUM", "LIST", "RUN"}) s.push_back(x); break;
    case 4: k.files["P"] = file; s = {"LOAD \"P\"", "RENUM 1,1", "SAVE \"Q\"", "NEW", "LOAD \"Q\"", "LIST", "RUN"}; break;
    case 5: s = lower(t); s.push_back("run"); break;
    case 6: k.argv.push_back("-k"); for (auto l : t) { std::string o; bool q = false; size_t sp = l.find(' '); for (size_t i = 0; i < l.size(); i++) { if (l[i] == '"') q = !q; if (l[i] != ' ' || q || i == sp || l.find("DATA") != std::string::npos) o += l[i]; } s.push_back(o); } s.push_back("RUN"); break;
    case 7: k.argv.push_back("-t"); k.argv.push_back("-f"); s = t; s.push_back("RUN"); break;
    case 8: s = t; s.push_back("COMPILE"); s.push_back("RENUM 60000,5"); s.push_back("CLEAR"); s.push_back("GOTO 60000"); break;
  }
  feed(k, s); feed(k, in); feed(k, {"BYE", "BYE"}); Case again = k; c.run(Check{"model", {k}, "long"}); }); }
// a STOP at the start of every line in turn, and CONT after a look at the variables
static void stopped(Ctx& c, const P& p) { VS t = text(p); VS a = *p.alphabet ? split(p.alphabet) : VS{};
  for (size_t at = 0; at < t.size(); at++) for (int w = 0; w < (c.thorough ? 3 : 1); w++) { if (!c.take()) continue; Case k; k.argv = {"-q"}; VS s = t; size_t sp = s[at].find(' '); std::string body = s[at].substr(sp + 1); if (body.compare(0, 4, "DATA") == 0 || s[at].size() > 118) continue; s[at] = s[at].substr(0, sp + 1) + "STOP:" + body; s.push_back("RUN"); feed(k, s);
    VS in; for (int r = 0; r < 2; r++) for (auto& x : a) in.push_back(x); for (auto& x : ending(p)) in.push_back(x);
    // replies and continuations alternate: what is not wanted as one is tried as the other
    for (auto& x : in) { k.in.push_back(x + "\n"); k.in.push_back(w == 0 ? "CONT\n" : w == 1 ? "PRINT I;N;T;A$:CONT\n" : "CONT\n"); if (w == 2) k.in.push_back("GOSUB 100\n"); }
    for (int r = 0; r < 30; r++) { k.in.push_back("CONT\n"); if (r % 5 == 4) k.in.push_back("PRINT I;J;N;S\n"); }
    k.in.push_back("BYE\n"); k.in.push_back("BYE\n"); c.run(Check{"model", {k}, "long"}); } }
static VS some_input(const P& p) { VS in; if (*p.alphabet) in = split(p.alphabet); for (auto& e : ending(p)) in.push_back(e); for (auto& e : ending(p)) in.push_back(e); return in; }
// one program after another in the same session, replaced by NEW, by LOAD or by typing over
static void after(Ctx& c, const char* id, int way) { for (int i = 0; i < NP; i++) for (int j = 0; j < NP; j++) { if (id && !tagged(PROGRAMS[i], id) && !tagged(PROGRAMS[j], id)) continue; if (!c.thorough && (i + j) % 2) continue; if (!c.take()) continue; Case k; k.argv = {"-q"}; const P &p = PROGRAMS[i], &q = PROGRAMS[j]; std::string f; for (auto& l : text(q)) f += l + "\n"; k.files["Q"] = f;
  feed(k, text(p)); feed(k, {"RUN"}); feed(k, some_input(p)); if (way == 0) { feed(k, {"NEW"}); feed(k, text(q)); } else if (way == 1) feed(k, {"LOAD \"Q\""}); else feed(k, text(q)); feed(k, {"RUN"}); feed(k, some_input(q)); feed(k, {"RUN"}); feed(k, some_input(q)); feed(k, {"PRINT I;N;S", "LIST -40", "BYE", "BYE"}); c.run(Check{"model", {k}, "long"}); } }
static void whole(Ctx& c, const char* id) { c.sec("whole programs"); for (auto& p : PROGRAMS) if (tagged(p, id)) { by_file(c, p, nullptr, 0); by_session(c, p, 0, 1); } }
static void ways(Ctx& c, CVS tags, const std::vector<int>& how, int less) { c.sec("whole programs, run in other ways"); for (auto& p : PROGRAMS) { if (!tags.empty() && !c.thorough) { bool any = false; for (auto& t : tags) any |= tagged(p, t.c_str()); if (!any) continue; } for (int h : how) by_session(c, p, h, less + 1); } }
#define H(id) void whole_##id(Ctx& c)
#define W(id) H(id) { whole(c, #id); }
// every kind of start, limit and step, and lists of NEXT, in every place a statement can stand
static const VS PLACES = {"%", "IF 1 THEN %", "IF 0 THEN PRINT \"no\" ELSE %", "IF 1 THEN IF Z=0 THEN %", "PRINT \"a\":%", "IF A THEN PRINT \"t\":%", "IF Z THEN PRINT \"t\" ELSE IF A THEN %", "IF 1 THEN % ELSE PRINT \"no\"", "DIM D(3):%", "ON 1 GOSUB 900:%", "IF 1 THEN PRINT \"x\";:IF 1 THEN %"};
static std::string in_place(const std::string& place, const std::string& st) { size_t p = place.find('%'); return place.substr(0, p) + st + place.substr(p + 1); }
static void loops(Ctx& c) {
  c.sec("every kind of loop in every place");
  VS val = {"3", "-2", "A", "-A", "(2)", "-(2)", "FNA(1)", "-FNA(1)", "D(1)", "1+1", "A-4", "NOT 0", "- -2", "2*-1", "A=3", "LEN(\"ab\")", "-0"};
  Batch b(c, {"900 RETURN|A=3:DEF FNA(X)=X+1"}, 12);
  for (auto& pl : PLACES) for (auto& f : val) for (auto& t : val) for (auto& st : VS{"", "1", "-1", "A", "-FNA(1)", ".5", "-.75", "D(1)-1"}) { if (!c.thorough && pl != "%" && pl != "IF 1 THEN %" && &f - &val[0] != 1 && &t - &val[0] != 1 && (&f - &val[0]) % 3) continue; std::string l = in_place(pl, "N=0:D(1)=2:FOR I=" + f + " TO " + t + (st.empty() ? "" : " STEP " + st) + ":PRINT I;:N=N+1:IF N<9 THEN NEXT"); if (l.find("ELSE PRINT") == std::string::npos) l += ":PRINT \"e\""; if (l.size() <= 120) b.add({"10 " + l, "20 IF N<9 THEN PRINT \"x\";I;N:END", "30 PRINT \"cut\"", "RUN"}); }
  c.sec("lists of NEXT in every place");
  VS vars = {"I", "J", "K", "L"};
  for (auto& pl : PLACES) for (int depth = 1; depth <= 4; depth++) sequences(vars, 1, c.thorough ? 5 : 4, [&](CVS v) { for (auto& x : v) if (x[0] - 'I' >= depth) return; if (!c.take()) return; Case k; k.argv = {"-q", "P"}; std::string s = "5 A=3:C=0\n10 "; for (int d = 0; d < depth; d++) s += std::string(d ? ":" : "") + "FOR " + vars[d] + "=1 TO 2"; s += "\n20 C=C+1:IF C>20 THEN END\n30 PRINT I;J;K;L\n40 " + in_place(pl, "NEXT " + join(v, ",")) + "\n50 PRINT \"out\"\n60 NEXT\n70 END\n900 RETURN\n"; k.files["P"] = s; c.model(k); });
}
W(C01) W(C02) H(C03) { whole(c, "C03"); loops(c); } W(C04) W(C05) W(C06) W(C07) W(C08) W(C09) W(C10) W(C22) W(C23) W(C26)
H(C11) { ways(c, {}, {1}, 1); }
H(C12) { ways(c, {}, {2, 4}, 1); }
H(C13) { ways(c, {}, {3, 4, 8}, 1); }
H(C14) { whole(c, "C14"); c.sec("whole programs stopped at every line"); for (auto& p : PROGRAMS) stopped(c, p); }
H(C15) { whole(c, "C15"); c.sec("one whole program after another"); after(c, nullptr, 1); after(c, nullptr, 2); }
H(C16) { c.sec("one whole program after another"); after(c, nullptr, 2); }
H(C17) { c.sec("one whole program after another"); after(c, nullptr, 0); }
H(C19) { ways(c, {}, {5, 6}, 1); }
H(C20) { ways(c, {}, {7}, 1); c.sec("whole programs traced"); for (auto& p : PROGRAMS) for (auto o : {"-t", "-f"}) by_file(c, p, o, 2); }
H(C21) { ways(c, {}, {5}, 1); }
H(C27) { c.sec("one whole program after another"); after(c, nullptr, 0); }
