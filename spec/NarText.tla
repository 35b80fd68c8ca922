------------------------------ MODULE NarText ------------------------------
(* The concrete syntax: text of terms and sentences (sequences of one         *)
(* character strings), and parsing as recursive descent over positions.       *)
(* The grammar is unambiguous: MCText checks that parsing inverts writing.    *)
EXTENDS NarTerm, NarTruth

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
OtherLetters == {"uA0","uA1","uA2","uA3","uA4","uA5","uA6","uA7"}   \* alphanumeric characters outside ASCII used in the traces (sample list in the harness)
SignChars == Letters \cup Digits \cup OtherLetters \cup {"-", "_", "^"}
Spaces == {" ", "\t", "\n", "\r", "uW0", "uW1"}

RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Cat(Tail(cs))

(* text of a term for a style: conn separator per compound *)
RECURSIVE Join(_, _)
Join(ts, sep) == IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
CopC(c) == CASE c = "inh" -> <<"-","-",">">> [] c = "sim" -> <<"<","-",">">> [] c = "impl" -> <<"=","=",">">>
             [] c = "pimp" -> <<"=","/",">">> [] c = "equiv" -> <<"<","=",">">>
SepC(tag) == CASE tag = "seq" -> <<",">> [] tag = "prod" -> <<"*">> [] tag = "ii" -> <<"|">> [] tag = "ei" -> <<"&">> [] tag = "conj" -> <<"&","&">> [] tag = "par" -> <<";">>
VarC(tag) == CASE tag = "q" -> "?" [] tag = "d" -> "#" [] tag = "i" -> "$"
Digit == [k \in 0..9 |-> <<"0","1","2","3","4","5","6","7","8","9">>[k + 1]]
Sp == <<" ">>
(* chars of a name: known names only (TLC cannot take strings apart), see Chars *)
(* sp = <<>>: text as accepted by the parser; sp = <<" ">>: text as printed *)
RECURSIVE Write(_, _, _)
Write(t, chars, sp) ==
  CASE t[1] = "n" -> chars[t[2]]
    [] t[1] \in VarTags -> <<VarC(t[1])>> \o chars[t[2]]
    [] t[1] = "s" -> <<"<">> \o Write(t[3], chars, sp) \o Sp \o CopC(t[2]) \o Sp \o Write(t[4], chars, sp) \o <<">">>
    [] t[1] = "neg" -> <<"(","!">> \o sp \o Write(t[2][1], chars, sp) \o sp \o <<")">>
    [] t[1] = "si" -> <<"[">> \o Join([k \in 1..Len(t[2]) |-> Write(t[2][k], chars, sp)], Sp) \o <<"]">>
    [] t[1] = "se" -> <<"{">> \o Join([k \in 1..Len(t[2]) |-> Write(t[2][k], chars, sp)], Sp) \o <<"}">>
    [] t[1] = "img" -> <<"(">> \o sp \o Write(t[3], chars, sp) \o <<" ","/", Digit[t[2] + 1], " ">> \o Join([k \in 1..Len(t[4]) |-> Write(t[4][k], chars, sp)], Sp) \o sp \o <<")">>
    [] OTHER -> <<"(">> \o sp \o Join([k \in 1..Len(t[2]) |-> Write(t[2][k], chars, sp)], sp \o SepC(t[1]) \o sp) \o sp \o <<")">>
(* terms which have a text the parser accepts *)
RECURSIVE Writable(_)
Writable(t) == /\ \A k \in 1..Len(Children(t)) : Writable(Children(t)[k])
               /\ CASE IsAtom(t) -> TRUE
                    [] t[1] = "s" -> TRUE
                    [] t[1] \in {"si", "se", "neg"} -> Len(t[2]) = 1
                    [] t[1] \in {"seq", "prod"} -> Len(t[2]) >= 2
                    [] t[1] \in {"ii", "ei"} -> Len(t[2]) = 2
                    [] t[1] = "conj" -> Len(t[2]) \in 2..4
                    [] t[1] = "img" -> Len(t[4]) = 1 /\ t[2] \in {0, 1}
                    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* parsing: c characters, i position; result [ok, t, j]: term up to before j *)
PFail == [ok |-> FALSE, t |-> <<>>, j |-> 0]
At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE "end"
Is(c, i, w) == i + Len(w) - 1 <= Len(c) /\ \A k \in 1..Len(w) : c[i + k - 1] = w[k]
RECURSIVE NameEnd(_, _)
NameEnd(c, i) == IF At(c, i) \notin SignChars THEN i ELSE NameEnd(c, i + 1)
PName(c, i, tag) == LET j == NameEnd(c, i)
                    IN IF j = i THEN PFail ELSE [ok |-> TRUE, t |-> <<tag, Cat(SubSeq(c, i, j - 1))>>, j |-> j]
CopAt(c, i) == CASE Is(c, i, Sp \o CopC("inh") \o Sp) -> "inh" [] Is(c, i, Sp \o CopC("sim") \o Sp) -> "sim"
                 [] Is(c, i, Sp \o CopC("impl") \o Sp) -> "impl" [] Is(c, i, Sp \o CopC("pimp") \o Sp) -> "pimp"
                 [] Is(c, i, Sp \o CopC("equiv") \o Sp) -> "equiv" [] OTHER -> "none"
ConnAt(c, i) == CASE At(c, i) = "," -> "seq" [] At(c, i) = "*" -> "prod" [] At(c, i) = "|" -> "ii"
                  [] Is(c, i, <<"&","&">>) -> "conj" [] At(c, i) = "&" -> "ei" [] OTHER -> "none"
RECURSIVE PTerm(_, _)
RECURSIVE PMore(_, _, _, _)
PTerm(c, i) ==
  CASE At(c, i) = "{" -> LET r == PTerm(c, i + 1) IN IF r.ok /\ At(c, r.j) = "}" THEN [ok |-> TRUE, t |-> Cmp("se", <<r.t>>), j |-> r.j + 1] ELSE PFail
    [] At(c, i) = "[" -> LET r == PTerm(c, i + 1) IN IF r.ok /\ At(c, r.j) = "]" THEN [ok |-> TRUE, t |-> Cmp("si", <<r.t>>), j |-> r.j + 1] ELSE PFail
    [] At(c, i) = "?" -> PName(c, i + 1, "q")
    [] At(c, i) = "#" -> PName(c, i + 1, "d")
    [] At(c, i) = "$" -> PName(c, i + 1, "i")
    [] At(c, i) = "<" -> LET s == PTerm(c, i + 1)
                         IN IF ~s.ok THEN PFail
                            ELSE LET k == CopAt(c, s.j)
                                 IN IF k = "none" THEN PFail
                                    ELSE LET p == PTerm(c, s.j + 5)
                                         IN IF p.ok /\ At(c, p.j) = ">" THEN [ok |-> TRUE, t |-> Stmt(k, s.t, p.t), j |-> p.j + 1] ELSE PFail
    [] At(c, i) = "(" /\ At(c, i + 1) = "!" -> LET r == PTerm(c, i + 2) IN IF r.ok /\ At(c, r.j) = ")" THEN [ok |-> TRUE, t |-> Cmp("neg", <<r.t>>), j |-> r.j + 1] ELSE PFail
    [] At(c, i) = "(" -> LET r == PTerm(c, i + 1)
                         IN IF ~r.ok THEN PFail
                            ELSE IF Is(c, r.j, <<" ","/","1"," ">>) \/ Is(c, r.j, <<" ","/","2"," ">>)
                            THEN LET e == PTerm(c, r.j + 4)
                                 IN IF e.ok /\ At(c, e.j) = ")" THEN [ok |-> TRUE, t |-> Img(r.t, IF c[r.j + 2] = "1" THEN 0 ELSE 1, <<e.t>>), j |-> e.j + 1] ELSE PFail
                            ELSE IF ConnAt(c, r.j) = "none" THEN PFail
                            ELSE PMore(c, r.j, ConnAt(c, r.j), <<r.t>>)
    [] OTHER -> PName(c, i, "n")
(* further components after ts, all with the same connective *)
PMore(c, i, tag, ts) ==
  IF At(c, i) = ")"
  THEN IF (tag \in {"ii", "ei"} /\ Len(ts) > 2) \/ (tag = "conj" /\ Len(ts) > 4) THEN PFail
       ELSE [ok |-> TRUE, t |-> Cmp(tag, ts), j |-> i + 1]
  ELSE IF ConnAt(c, i) # tag THEN PFail
  ELSE LET r == PTerm(c, i + (IF tag = "conj" THEN 2 ELSE 1))
       IN IF r.ok THEN PMore(c, r.j, tag, Append(ts, r.t)) ELSE PFail

(* sentences *)
RECURSIVE TrimEnd(_)
TrimEnd(c) == IF c # <<>> /\ c[Len(c)] \in Spaces THEN TrimEnd(SubSeq(c, 1, Len(c) - 1)) ELSE c
Blank(c) == TrimEnd(c) = <<>>
(* spaces around "*" do not matter *)
NextNonSp(c, i) == LET ks == { k \in i..Len(c) : c[k] # " " } IN IF ks = {} THEN "end" ELSE c[CHOOSE k \in ks : \A m \in ks : k <= m]
PrevNonSp(c, i) == LET ks == { k \in 1..i : c[k] # " " } IN IF ks = {} THEN "end" ELSE c[CHOOSE k \in ks : \A m \in ks : m <= k]
RECURSIVE Pick(_, _, _)
Pick(c, keep, i) == IF i > Len(c) THEN <<>> ELSE (IF keep[i] THEN <<c[i]>> ELSE <<>>) \o Pick(c, keep, i + 1)
Squeeze(c) == IF \E k \in 1..Len(c) : c[k] = "*"
              THEN Pick(c, [i \in 1..Len(c) |-> ~(c[i] = " " /\ (NextNonSp(c, i) = "*" \/ PrevNonSp(c, i) = "*"))], 1)
              ELSE c
(* numbers: digits with optional fraction; value in fixed point [ok, v, one]; v is exact in the first four digits *)
DigitVal(d) == CHOOSE k \in 0..9 : Digit[k] = d
RECURSIVE IntVal(_, _)
IntVal(c, acc) == IF c = <<>> THEN acc ELSE IF acc > 9 THEN 99 ELSE IntVal(Tail(c), acc * 10 + DigitVal(Head(c)))
RECURSIVE FracVal(_, _)
FracVal(c, w) == IF c = <<>> \/ w = 0 THEN 0 ELSE DigitVal(Head(c)) * w + FracVal(Tail(c), w \div 10)
Number(c) ==
  LET dots == { k \in 1..Len(c) : c[k] = "." }
      d == IF dots = {} THEN Len(c) + 1 ELSE CHOOSE k \in dots : TRUE
      ip == SubSeq(c, 1, d - 1)
      fp == SubSeq(c, d + 1, Len(c))
      ok == /\ Cardinality(dots) <= 1 /\ ip \o fp # <<>>
            /\ \A k \in 1..Len(c) : c[k] \in Digits \cup {"."}
  IN IF ~ok THEN [ok |-> FALSE, v |-> 0, over |-> FALSE]
     ELSE [ok |-> TRUE, v |-> IntVal(ip, 0) * S + FracVal(fp, 1000),
           over |-> IntVal(ip, 0) >= 2 \/ (IntVal(ip, 0) = 1 /\ \E k \in 1..Len(fp) : fp[k] # "0")]
(* truth value at the end of the text: [kind: "none", "bad" or "tv"; f, c, i = position of the brace] *)
TvEnd(c) ==
  IF c = <<>> \/ c[Len(c)] # "}" THEN [kind |-> "none", f |-> S, c |-> 9000, i |-> Len(c) + 1]
  ELSE LET bs == { k \in 2..Len(c) : c[k] = "{" }
           none == [kind |-> "bad", f |-> 0, c |-> 0, i |-> 0]
       IN IF bs = {} THEN none
          ELSE LET i == CHOOSE k \in bs : \A m \in bs : m <= k
                   x == SubSeq(c, i + 1, Len(c) - 1)
                   sps == { k \in 1..Len(x) : x[k] = " " }
               IN IF Cardinality(sps) # 1 THEN none
                  ELSE LET s == CHOOSE k \in sps : TRUE
                           f == Number(SubSeq(x, 1, s - 1))
                           cc == Number(SubSeq(x, s + 1, Len(x)))
                       IN IF f.ok /\ cc.ok /\ ~f.over /\ cc.v < S THEN [kind |-> "tv", f |-> f.v, c |-> cc.v, i |-> i] ELSE none
EventMark == <<" ", ":", "|", ":">>
PunctOf(x) == CASE x = "." -> "J" [] x = "!" -> "G" [] x = "?" -> "Q" [] OTHER -> "none"
MaxNesting == 100   \* deeper sentences are rejected
RECURSIVE Nesting(_)
Nesting(t) == LET cs == Children(t)
                  ds == { Nesting(cs[k]) : k \in 1..Len(cs) }
              IN IF IsAtom(t) THEN 0 ELSE 1 + (CHOOSE d \in ds : \A e \in ds : e <= d)
NoSentence == [ok |-> FALSE]
Sentence(c0) ==
  LET c1 == Squeeze(c0)
      ev == Len(c1) >= 4 /\ SubSeq(c1, Len(c1) - 3, Len(c1)) = EventMark
      c2 == IF ev THEN SubSeq(c1, 1, Len(c1) - 4) ELSE c1
      tv == TvEnd(c2)
      c3 == TrimEnd(IF tv.kind = "tv" THEN SubSeq(c2, 1, tv.i - 1) ELSE c2)
  IN IF c3 = <<>> THEN NoSentence
     ELSE IF PunctOf(c3[Len(c3)]) = "none" THEN NoSentence
     ELSE LET x == SubSeq(c3, 1, Len(c3) - 1)
              r == PTerm(x, 1)
          IN IF ~r.ok THEN NoSentence
             ELSE IF ~Blank(SubSeq(x, r.j, Len(x))) THEN NoSentence
             ELSE IF Nesting(r.t) > MaxNesting THEN NoSentence
             ELSE [ok |-> TRUE, t |-> r.t, p |-> PunctOf(c3[Len(c3)]), ev |-> ev, f |-> tv.f, c |-> tv.c]
=============================================================================
