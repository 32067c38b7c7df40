------------------------------- MODULE MC_Text ------------------------------
(***************************************************************************)
(* Every text over a small alphabet up to some length, in some context:    *)
(* what parsing it must give, what printing the result must give, and the  *)
(* laws these have to obey.  A job says which call, which type, which      *)
(* alphabet, what stands before and after, and up to which length.         *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Group, More       \* which jobs; how many characters more than usual

Job(op, ty, al, pre, post, n) == [op |-> op, t |-> ty, al |-> al, pre |-> pre, post |-> post, n |-> n]
Rep(c, n) == [i \in 1..n |-> c]
D(x) == [i \in 1..Len(x) |-> 48 + x[i]]                 \* digits
Max63 == D(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0>>)
Max64 == D(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1>>)
Max32 == D(<<4, 2, 9, 4, 9, 6, 7, 2, 9>>)
Max127 == D(<<1, 7, 0, 1, 4, 1, 1, 8, 3, 4, 6, 0, 4, 6, 9, 2, 3, 1, 7, 3, 1, 6, 8, 7, 3, 0, 3, 7, 1, 5, 8, 8, 4, 1, 0, 5, 7, 2>>)
Max128 == D(<<3, 4, 0, 2, 8, 2, 3, 6, 6, 9, 2, 0, 9, 3, 8, 4, 6, 3, 4, 6, 3, 3, 7, 4, 6, 0, 7, 4, 3, 1, 7, 6, 8, 2, 1, 1, 4, 5>>)
EOS == <<69, 79, 83>>
Y2021 == <<50, 48, 50, 49, 45>>
Noon == <<84, 48, 48, 58, 48, 48, 58, 48, 48>>
Ms == <<46, 48, 48, 48>>
Day == <<50, 48, 50, 48, 45, 48, 50, 45, 50, 57, 84>>   \* 2020-02-29T

Jobs ==
    CASE Group = "name" -> {
            Job("parse", "name", {46, 49, 53, 97, 106, 122, 65}, <<>>, <<>>, 4),
            Job("parse", "name", {46, 49, 97, 106, 107, 122, 48}, Rep(98, 10), <<>>, 4),
            Job("parse", "name", {46, 97, 122, 95}, Rep(46, 9), <<46, 49>>, 4)}
      [] Group = "asset" -> {
            Job("parse", "asset", {45, 43, 48, 49, 46, 32, 65}, <<>>, <<>>, 5),
            Job("parse", "asset", {45, 46, 48, 55, 56}, Max63, <<32>> \o EOS, 3),
            Job("parse", "asset", {45, 46, 48, 55, 56}, <<45>> \o Max63, <<32>> \o EOS, 3),
            Job("parse", "asset", {48, 49, 46, 57}, <<48, 46>> \o Rep(48, 15), <<32>> \o EOS, 5),
            Job("parse", "asset", {65, 97, 91, 64, 32, 90}, <<49, 46, 48, 32, 65, 66, 67, 68>>, <<>>, 4),
            Job("parse", "symbol", {48, 49, 56, 57, 44, 65, 45}, <<>>, <<>>, 5),
            Job("parse", "symbol", {48, 49, 50, 53, 54, 43, 45, 32}, <<>>, <<44>> \o EOS, 4),
            Job("parse", "symcode", {65, 90, 64, 91, 44, 97}, <<>>, <<>>, 4),
            Job("parse", "symcode", {65, 90, 0}, Rep(66, 5), <<>>, 4)}
      [] Group = "int" -> {
            Job("parse", "uint128", {48, 49, 45, 43, 120, 32}, <<>>, <<>>, 4),
            Job("parse", "int128", {48, 49, 45, 43, 95, 46}, <<>>, <<>>, 4),
            Job("parse", "uint128", {48, 53, 54, 57, 45}, Max128, <<>>, 3),
            Job("parse", "int128", {48, 55, 56, 57, 45}, Max127, <<>>, 3),
            Job("parse", "int128", {48, 55, 56, 57, 45}, <<45>> \o Max127, <<>>, 3),
            Job("jparse", "uint64", {34, 48, 49, 45, 46, 101}, <<>>, <<>>, 4),
            Job("jparse", "blocknum", {34, 48, 49, 45, 46, 101}, <<>>, <<>>, 4),
            Job("jparse", "uint64", {48, 53, 54, 57, 34}, Max64, <<>>, 2),
            Job("jparse", "blocknum", {48, 53, 54, 57, 34}, Max32, <<>>, 2),
            Job("jparse", "uint64", {48, 53, 54, 57, 45}, <<34>> \o Max64, <<34>>, 3),
            Job("jparse", "blocknum", {48, 53, 54, 57, 45}, <<34>> \o Max32, <<34>>, 3)}
      [] Group = "time" -> {
            Job("parse", "tp", {48, 49, 50, 51, 57, 45}, Y2021, Noon \o Ms, 5),
            Job("parse", "tps", {48, 49, 50, 51, 57, 45}, Y2021, Noon, 5),
            Job("parse", "bts", {48, 49, 50, 51, 45}, Y2021, Noon \o Ms, 5),
            Job("parse", "tps", {48, 49, 50, 54, 57}, <<>>, <<45, 48, 50, 45, 50, 57>> \o Noon, 4),
            Job("parse", "bts", {48, 50, 52, 53, 55, 57, 90}, Day \o <<50, 51, 58, 53, 57, 58, 53, 57>>, <<>>, 1),
            Job("parse", "bts", {48, 50, 52, 53, 57}, Day \o <<50, 51, 58, 53, 57, 58, 53, 57, 46>>, <<>>, 3),
            Job("parse", "tp", {48, 53, 57, 90}, Day \o <<50, 51, 58, 53, 57, 58, 53, 57, 46>>, <<>>, 4),
            Job("parse", "tps", {48, 50, 51, 52, 54}, Day, <<58, 48, 48, 58, 48, 48, 90>>, 2),
            Job("parse", "tps", {48, 53, 54, 57, 90}, Day \o <<48, 48, 58>>, <<58, 48, 48>>, 2),
            Job("parse", "tp", {48, 53, 54, 57}, Day \o <<48, 48, 58, 48, 48, 58>>, <<46, 57, 57, 57, 90>>, 2)}
      [] Group = "hex" -> {
            Job("parse", "cbytes", {48, 57, 97, 102, 70, 103, 32}, <<>>, <<>>, 4),
            Job("parse", "c160", {48, 97, 71, 47}, Rep(49, 37), <<>>, 4),
            Job("parse", "float128", {48, 97, 58, 96}, Rep(102, 29), <<>>, 4),
            Job("parse", "blob", {65, 81, 103, 47, 43, 61, 45}, <<>>, <<>>, 5),
            Job("parse", "blob", {65, 81, 61, 10}, <<81, 85, 74>>, <<>>, 4)}
      [] Group = "b58" -> {
            Job("b58d", "", {49, 50, 65, 122, 48}, <<>>, <<>>, 5),
            Job("b58d", "", {49, 81, 122, 108}, <<49, 50, 122, 122, 122, 122, 122, 122, 122>>, <<>>, 4),
            Job("b58e", "", {0, 1, 57, 58, 255}, <<>>, <<>>, 4),
            Job("b58e", "", {0, 57, 58, 128}, <<0, 255, 255, 255, 255, 255, 255>>, <<>>, 4)}

\* what the variable held before
Before(ty) == CASE ty = "asset" -> Seqv(<<Nat0(<<5>>), MkSym(2, <<88>>)>>)
                [] ty = "symbol" -> MkSym(2, <<88>>)
                [] ty \in {"cbytes", "blob"} -> Node("s", <<1, 2>>, <<>>)
                [] ty = "c160" -> Node("s", Rep(3, 20), <<>>)
                [] ty = "float128" -> Node("s", Rep(3, 16), <<>>)
                [] OTHER -> Nat0(<<9>>)
Ascii(s) == \A i \in 1..Len(s) : s[i] \in 32..126
Form(j, s) == IF j.op = "jparse" THEN "json"
              ELSE LET k == (Len(s) + FoldLeft(LAMBDA a, c : a + c, 0, s)) % 3
                   IN  IF k = 0 THEN "text" ELSE IF k = 1 /\ j.t # "blob" THEN "new" ELSE IF Ascii(s) THEN "json" ELSE "text"
Event(j, s) == CASE j.op \in {"parse", "jparse"} -> [op |-> j.op, t |-> Ty(j.t), s |-> s, v |-> Before(j.t), form |-> Form(j, s)]
                 [] j.op = "b58d" -> [op |-> "b58d", s |-> s]
                 [] j.op = "b58e" -> [op |-> "b58e", d |-> s]

Text0(s) == ch.j.pre \o s \o ch.j.post
Al == SetToSeq(ch.j.al)
MCInit == MInit /\ sc = <<>> /\ ph = "grow" /\ \E j \in Jobs : ch = [j |-> j, s |-> <<>>]
Grow1 == /\ ph = "grow" /\ Len(ch.s) < ch.j.n + More
         /\ \E c \in ch.j.al : ch' = [ch EXCEPT !.s = Append(ch.s, c)]
         /\ UNCHANGED <<mvars, sc, ph>>
Out == /\ ph = "grow" /\ Len(ch.s) < ch.j.n + More
       /\ Emit((IF ch.s = <<>> THEN <<Event(ch.j, Text0(<<>>))>> ELSE <<>>)
               \o [i \in 1..Len(Al) |-> Event(ch.j, Text0(Append(ch.s, Al[i])))])
       /\ ph' = "out" /\ UNCHANGED <<mvars, sc, ch>>
MCNext == Grow1 \/ Out

\* --- laws
X == Text0(ch.s)
Par == Parse(ch.j.t, X)
InRange(ty, v) == CASE ty \in {"name", "symbol"} -> FitsU(v, 64)
                    [] ty = "symcode" -> FitsU(v, 56)
                    [] ty = "asset" -> FitsS(v.e[1], 64) /\ FitsU(v.e[2], 64) /\ SymDecimals(v.e[2]) <= 18
                    [] ty = "uint128" -> FitsU(v, 128)
                    [] ty = "int128" -> FitsS(v, 128)
                    [] ty = "tp" -> FitsS(v, 64)
                    [] ty \in {"tps", "bts"} -> FitsU(v, 32)
                    [] OTHER -> TRUE
NoZ(s) == IF s # <<>> /\ s[Len(s)] = 90 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* a value out of range is never the result
Ranged == ch.j.op = "parse" => \A v \in Par.vs : InRange(ch.j.t, v)
\* printing the result gives text that parses to it again
Reparse == ch.j.op = "parse" => \A v \in Par.vs :
    LET p == TextOf(ch.j.t, v) IN p.def => LET q == Parse(ch.j.t, p.s) IN q.vs = {v} /\ (ch.j.t \in {"symbol", "symcode"} \/ ~q.err)
\* text that must be accepted is the text printed (up to what the type allows)
Canonical == (ch.j.op = "parse" /\ ~Par.err) => \A v \in Par.vs :
    LET p == TextOf(ch.j.t, v)
    IN  p.def /\ CASE ch.j.t = "name" -> (\A i \in 1..Len(X) : SymOf(X[i]) > 0 \/ X[i] = 46) => (p.s = TrimDots(SubSeq(X, 1, IF Len(X) < 13 THEN Len(X) ELSE 13)))
                   [] ch.j.t \in TimeKinds -> p.s = NoZ(X)
                   [] ch.j.t = "blob" -> TRUE
                   [] OTHER -> p.s = X
\* JSON integers: what is printed is accepted, as number and as text
JsonInt == ch.j.op = "jparse" => LET q == ParseUintJson(X, UWidth[ch.j.t] * 8) IN \A v \in q.vs :
    /\ FitsU(v, UWidth[ch.j.t] * 8)
    /\ ParseUintJson(PrintUintJson(v), UWidth[ch.j.t] * 8) = Exactly(v)
\* base 58 is a bijection between byte strings and texts of its alphabet
B58Law == /\ ch.j.op = "b58e" => B58Dec(B58Enc(X)) = X
          /\ ch.j.op = "b58d" => (B58Dec(X) # <<>> => B58Enc(B58Dec(X)) = X)
=============================================================================
