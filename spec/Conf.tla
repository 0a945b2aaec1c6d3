-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* What a configuration file means: the grammar of .ini texts, the values   *)
(* of every type, and the map with its registered defaults.  Texts are      *)
(* sequences of character codes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Blank(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
Lower(s) == [ i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i] ]
Trim(s) == LET S == { i \in DOMAIN s : ~Blank(s[i]) } IN IF S = {} THEN << >> ELSE SubSeq(s, MinOf(S), MaxOf(S))
(* an inline comment starts with a semicolon after a blank *)
CutComment(s) == LET S == { i \in DOMAIN s : i > 1 /\ s[i] = 59 /\ Blank(s[i-1]) } IN IF S = {} THEN s ELSE SubSeq(s, 1, MinOf(S) - 1)
Find(s, C) == LET S == { i \in DOMAIN s : s[i] \in C } IN IF S = {} THEN 0 ELSE MinOf(S)

(* one line of the text: <<what, a, b>> *)
Line(raw) == LET s == Trim(raw) IN
  IF s = << >> THEN << "nothing" >>
  ELSE IF s[1] \in {59, 35} THEN << "nothing" >>
  ELSE IF s[1] = 91 THEN
       LET q == Find(CutComment(SubSeq(s, 2, Len(s))), {93}) IN
       IF q = 0 THEN << "error" >> ELSE << "section", Lower(SubSeq(s, 2, q)) >>
  ELSE LET q == Find(CutComment(s), {61, 58}) IN
       IF q = 0 THEN << "error" >>
       ELSE << "value", Lower(Trim(SubSeq(s, 1, q - 1))), Trim(CutComment(SubSeq(s, q + 1, Len(s)))) >>

RECURSIVE ParseFrom(_, _, _)
ParseFrom(t, i, a) ==      \* a: [ok, sec, map]
  IF i > Len(t) THEN a
  ELSE LET x == Line(t[i]) IN
       ParseFrom(t, i + 1, TLCEval(
         IF x[1] = "nothing" THEN a
         ELSE IF x[1] = "error" THEN [a EXCEPT !.ok = FALSE]
         ELSE IF x[1] = "section" THEN [a EXCEPT !.sec = x[2]]
         ELSE [a EXCEPT !.map = (<<a.sec, x[2]>> :> x[3]) @@ @ ]))
Parse(t) == ParseFrom(t, 1, [ok |-> TRUE, sec |-> << >>, map |-> << >>])

----------------------------------------------------------------------------
(* values: Conv(type, text) = [ok, v], v in a normal form that can be compared *)
Bad == [ok |-> FALSE, v |-> << >>]
Good(v) == [ok |-> TRUE, v |-> v]
T(str) == CASE str = "1" -> <<49>> [] str = "0" -> <<48>>
            [] str = "yes" -> <<121,101,115>> [] str = "no" -> <<110,111>>
            [] str = "true" -> <<116,114,117,101>> [] str = "false" -> <<102,97,108,115,101>>
            [] str = "on" -> <<111,110>> [] str = "off" -> <<111,102,102>>
            [] str = "reflecting" -> <<114,101,102,108,101,99,116,105,110,103>>
            [] str = "absorbing" -> <<97,98,115,111,114,98,105,110,103>>
            [] str = "periodic" -> <<112,101,114,105,111,100,105,99>>
            [] str = "userdef" -> <<117,115,101,114,100,101,102>>
ConvBool(s) == IF s \in { T(x) : x \in {"1", "yes", "true", "on"} } THEN Good(T("1"))
               ELSE IF s \in { T(x) : x \in {"0", "no", "false", "off"} } THEN Good(T("0")) ELSE Bad

AllDigits(s) == s # << >> /\ \A i \in DOMAIN s : Digit(s[i])
NoZeros(s) == LET S == { i \in DOMAIN s : s[i] # 48 } IN IF S = {} THEN << >> ELSE SubSeq(s, MinOf(S), Len(s))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LET i == MinOf({ j \in DOMAIN a : a[j] # b[j] }) IN a[i] < b[i]))
I32 == <<50,49,52,55,52,56,51,54,52,55>>                    \* 2147483647
I32n == <<50,49,52,55,52,56,51,54,52,56>>
U32 == <<52,50,57,52,57,54,55,50,57,53>>                    \* 4294967295
I64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>      \* 9223372036854775807
I64n == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
U64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>    \* 18446744073709551615
ConvInt(s, mx, mn) ==      \* mn = << >>: no negative numbers
  LET neg == s # << >> /\ s[1] = 45
      d == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      z == NoZeros(d)
  IN IF ~AllDigits(d) \/ (neg /\ mn = << >>) THEN Bad
     ELSE IF ~Leq(z, IF neg THEN mn ELSE mx) THEN Bad
     ELSE IF z = << >> THEN Good(<<48>>) ELSE Good(IF neg THEN <<45>> \o z ELSE z)

(* decimal numbers: 0.digits * 10^exp *)
RECURSIVE NumOf(_, _)
NumOf(s, n) == IF s = << >> THEN n ELSE NumOf(Tail(s), 10 * n + (s[1] - 48))
Sign(s) == IF s # << >> /\ s[1] \in {43, 45} THEN s[1] ELSE 0
Unsigned(s) == IF Sign(s) # 0 THEN Tail(s) ELSE s
ConvReal(s, maxexp) ==
  LET u == Unsigned(s)
      e == Find(u, {101, 69})
      mant == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex == IF e = 0 THEN <<48>> ELSE SubSeq(u, e + 1, Len(u))
      p == Find(mant, {46})
      ip == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      fp == IF p = 0 THEN << >> ELSE SubSeq(mant, p + 1, Len(mant))
      ds == ip \o fp
      exn == NumOf(Unsigned(ex), 0) * (IF Sign(ex) = 45 THEN -1 ELSE 1)
      lead == Len(ds) - Len(NoZeros(ds))
      body == NoZeros(ds)
      S == { i \in DOMAIN body : body[i] # 48 }
  IN IF ~AllDigits(ds) \/ ~AllDigits(Unsigned(ex)) THEN Bad
     ELSE IF S = {} THEN Good(<<0>>)
     ELSE LET E == exn + Len(ip) - lead IN
          IF E > maxexp THEN Bad
          ELSE Good(<<IF Sign(s) = 45 THEN -1 ELSE 1, E>> \o SubSeq(body, 1, MaxOf(S)))

(* a default is written with more digits than it has; it is the same number to the digits that every number keeps *)
RECURSIVE Carry(_)         \* adds one to the last of the decimal digits: [carry, digits]
Carry(d) == IF d = << >> THEN << 1, << >> >>
            ELSE LET n == Len(d) IN
                 IF d[n] < 57 THEN << 0, [d EXCEPT ![n] = @ + 1] >>
                 ELSE LET r == Carry(SubSeq(d, 1, n - 1)) IN << r[1], r[2] \o <<48>> >>
Round(v, n) == IF Len(v) <= n + 2 THEN v
               ELSE LET d == SubSeq(v, 3, n + 2)
                        up == v[n + 3] >= 53
                        r == IF up THEN Carry(d) ELSE << 0, d >>
                        q == IF r[1] = 1 THEN <<49>> \o r[2] ELSE r[2]
                        S == { i \in DOMAIN q : q[i] # 48 }
                    IN << v[1], v[2] + r[1] >> \o SubSeq(q, 1, MaxOf(S))
EnumNames == [ reflecting |-> 1, absorbing |-> 2, periodic |-> 3, userdef |-> 5 ]
ConvEnum(s) == LET n == ConvInt(s, U32, << >>)  N == { x \in DOMAIN EnumNames : T(x) = s } IN
  IF n.ok THEN n ELSE IF N = {} THEN Bad ELSE Good(<<48 + EnumNames[CHOOSE x \in N : TRUE]>>)

Conv1(ty, s) == CASE ty = "string" -> Good(s) [] ty = "bool" -> ConvBool(s)
                  [] ty = "int" -> ConvInt(s, I32, I32n) [] ty = "uint32" -> ConvInt(s, U32, << >>)
                  [] ty = "int64" -> ConvInt(s, I64, I64n) [] ty = "uint64" -> ConvInt(s, U64, << >>)
                  [] ty = "double" -> ConvReal(s, 308) [] ty = "float" -> ConvReal(s, 38)
                  [] ty = "enum" -> ConvEnum(s)
(* lists are separated by commas; a comma at the end ends the last item *)
RECURSIVE Split(_)
Split(s) == IF s = << >> THEN << >>
            ELSE LET q == Find(s, {44}) IN IF q = 0 THEN << s >> ELSE << SubSeq(s, 1, q - 1) >> \o Split(SubSeq(s, q + 1, Len(s)))
Item(ty) == CASE ty = "vstring" -> "string" [] ty = "vdouble" -> "double" [] ty = "vfloat" -> "float" [] ty = "vint" -> "int" [] ty = "vuint32" -> "uint32"
              [] ty = "vint64" -> "int64" [] ty = "vuint64" -> "uint64" [] ty = "venum" -> "enum" [] OTHER -> ""
Items(ty, L) == IF \A i \in DOMAIN L : Conv1(ty, L[i]).ok THEN Good([ i \in DOMAIN L |-> Conv1(ty, L[i]).v ]) ELSE Bad
Conv(ty, s) == IF Item(ty) = "" THEN Items(ty, << s >>) ELSE Items(Item(ty), Split(s))
(* tokens as given or returned by the program *)
Val(ty, L) == Items(IF Item(ty) = "" THEN ty ELSE Item(ty), L)

(* the map: key -> [k |-> "text", t] or [k |-> "def", ty, v] *)
OfText(m) == [ x \in DOMAIN m |-> [k |-> "text", t |-> m[x]] ]
Kept(ty, x) == IF ~x.ok THEN x ELSE Good([ i \in DOMAIN x.v |-> CASE ty \in {"double", "vdouble"} -> Round(x.v[i], 15) [] ty \in {"float", "vfloat"} -> Round(x.v[i], 6) [] OTHER -> x.v[i] ])
Read(ty, e) == IF e.k = "text" THEN Conv(ty, e.t) ELSE e.v
=============================================================================
