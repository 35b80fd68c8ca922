------------------------------ MODULE MCShell ------------------------------
(* Sessions over a small alphabet of lines: every line has one meaning,       *)
(* commands and sentences are disjoint, each kind of line touches only its    *)
(* part of the state, sessions are the composition of their lines.            *)
EXTENDS NarShell, Json, TLC
CONSTANTS Depth, Dump, Short
VARIABLES h, x
Ch(s) == s
Lns == <<
  <<"<","a"," ","-","-",">"," ","b",">",".">>,
  <<"<","a"," ","-","-",">"," ","b",">",".", " ","{","0",".","5"," ","0",".","5","}">>,
  <<"<","a"," ","-","-",">"," ","b",">","?">>,
  <<"a",".", " ",":","|",":">>,
  <<"b",".", " ",":","|",":", "\n">>,
  <<"g","!"," ",":","|",":">>,
  <<"g","!">>,
  <<"<","(","a",",","<","{","x","}"," ","-","-",">"," ","^","o",">",")"," ","=","/",">"," ","g",">",".">>,
  <<"<","a"," ","=","/",">"," ","g",">","?">>,
  <<"!","s">>, <<"!","s","2">>, <<"!","s","0">>, <<"!","s","x">>,
  <<"!","s","p">>, <<"!","s","p","A">>, <<"!","s","p","B">>,
  <<"!","d","t">>, <<"!","d","t","f">>, <<"!","d","m","d">>,
  <<"!","p","e","b"," ","1">>, <<"!","p","e","b"," ","0">>,
  <<"!","p","o","r"," ","N","O","P"," ","^","o">>, <<"!","p","o","r"," ","e","x","e","c","i","n","j">>, <<"!","p","o","r"," ","n","l","p","R","e","l","0">>, <<"!","p","o","r"," ","N","O","P">>,
  <<>>, <<"\n">>, <<"/","/","!","Q","Q">>, <<"!","Q","Q">>, <<"(","(">>, <<"!","z">> >>
Few == {1, 3, 4, 6, 8, 11, 14, 22, 26, 28, 29, 30}
L == IF Short THEN Few ELSE 1..Len(Lns)
Ln(k) == [c |-> Lns[k], ok |-> TRUE]
Seqs(hh) == [i \in 1..Len(hh) |-> Ln(hh[i])]
Init == h = <<>> /\ x = Start0
Sess(hh, inter) == Session(Start0, Seqs(hh), 1, <<>>, inter)
Next == Len(h) < Depth /\ \E k \in L : h' = Append(h, k) /\ x' = Session(x, <<Ln(k)>>, 1, <<>>, FALSE).s
Spec == Init /\ [][Next]_<<h, x>>
(* a session is the composition of its lines, up to the quit command *)
NoQuit == \A i \in 1..Len(h) : Kind(Lns[h[i]]).k # "quit"
Composes == NoQuit => (Sess(h, FALSE).s = x /\ Sess(h, FALSE).n = Len(h) /\ ~Sess(h, FALSE).quit)
FirstQuit == CHOOSE i \in 1..Len(h) : Kind(Lns[h[i]]).k = "quit" /\ \A j \in 1..(i-1) : Kind(Lns[h[j]]).k # "quit"
StopsAtQuit == ~NoQuit => (Sess(h, FALSE).quit /\ Sess(h, FALSE).n = FirstQuit /\ Sess(h, FALSE).s = Sess(SubSeq(h, 1, FirstQuit - 1), FALSE).s)
(* an empty line of an interactive session repeats the last input *)
RECURSIVE Expand(_, _, _)
Expand(hh, i, lst) == IF i > Len(hh) THEN <<>>
                      ELSE IF TrimNl(Lns[hh[i]]) = <<>> THEN (IF lst = 0 THEN <<>> ELSE <<lst>>) \o Expand(hh, i + 1, lst)
                      ELSE <<hh[i]>> \o Expand(hh, i + 1, hh[i])
Repeats == Sess(h, TRUE).s = Sess(Expand(h, 1, 0), FALSE).s
(* every kind of line touches only its part *)
Frame == [][ LET c == Lns[h'[Len(h')]]
                 k == Kind(c).k
             IN /\ (x'.cc # x.cc => k = "cycles") /\ x'.cc - x.cc = x'.ct - x.ct
                /\ (x'.t # x.t => k \in {"step", "stepB"}) /\ x'.t \in {x.t, x.t + 1}
                /\ (x'.ops # x.ops => k = "reg") /\ (x'.bab # x.bab => k = "babble")
                /\ (<<x'.qs, x'.tr, x'.belt, x'.glt, x'.implt>> # <<x.qs, x.tr, x.belt, x.glt, x.implt>> => k = "tell")
                /\ (Starts(c, <<"!">>) => k # "tell") ]_<<h, x>>
Dumped == IF Dump /\ Len(h) = Depth THEN PrintT("BEHAVIOUR " \o ToJson([i \in 1..Depth |-> Lns[h[i]]])) ELSE TRUE
(* all short texts: no text beginning with ! or / is a sentence, and only such texts and the empty one are commands *)
Alpha == {"!", "s", "p", "A", "1", ".", " ", "/", "Q", "\n"}
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE { Append(c, a) : c \in Strs(n - 1), a \in Alpha }
Texts == UNION { Strs(n) : n \in 0..4 }
ASSUME \A c \in Texts : LET k == Kind(c).k
                        IN /\ (k = "tell") => (c[1] \notin {"!", "/"} /\ Sentence(TrimNl(c)).ok)
                           /\ (k \notin {"tell", "none"}) => c[1] = "!"
                           /\ (TrimNl(c) # <<>> /\ Sentence(TrimNl(c)).ok) => k = "tell"
=============================================================================
