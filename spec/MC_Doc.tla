-------------------------------- MODULE MC_Doc ------------------------------
(***************************************************************************)
(* ABI definition documents: every combination of sections that are empty, *)
(* hold one entry or hold two of one name; taken through binary (with and  *)
(* without the section that older data lacks), through JSON, and into use  *)
(* with a lookup of every kind.                                            *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Full      \* whether every section may have two entries, or only the one looked at

Str(b) == Node("s", b, <<>>)
L(b) == Seqv(b)
NmA == <<97>>
X1 == Nat0(<<1>>)
\* the sections' entries: two of one name and one of another
Entry(i, k) ==
    LET nm == IF k = 3 THEN <<98>> ELSE NmA
        x == IF k = 3 THEN Nat0(<<2>>) ELSE X1
        tx == <<115, 48 + k>>
    IN  CASE i = 2 -> L(<<Str(nm), Str(tx)>>)
          [] i = 3 -> L(<<Str(nm), Str(IF k = 2 THEN <<>> ELSE <<98>>), L(IF k = 1 THEN <<>> ELSE <<L(<<Str(<<102>>), Str(tx)>>)>>)>>)
          [] i = 4 -> L(<<x, Str(tx), Str(IF k = 2 THEN <<>> ELSE <<195, 169, 60>>)>>)
          [] i = 5 -> L(<<x, Str(<<105>>), L(IF k = 2 THEN <<Str(<<107>>), Str(<<>>)>> ELSE <<>>), L(<<Str(tx)>>), Str(tx)>>)
          [] i = 6 -> L(<<Str(nm), Str(tx)>>)
          [] i = 7 -> L(<<IF k = 2 THEN Nat0(<<255, 255, 255, 255, 255, 255, 255, 255>>) ELSE x, Str(tx)>>)
          [] i = 8 -> L(<<Nat0(<<k>>), Str(IF k = 1 THEN <<>> ELSE <<0, k, 255>>)>>)
          [] i = 9 -> L(<<Str(nm), L(IF k = 1 THEN <<>> ELSE <<Str(tx), Str(NmA)>>)>>)
Section(i, n) == L([k \in 1..n |-> Entry(i, IF n = 3 THEN (IF k = 1 THEN 3 ELSE k - 1) ELSE k)])
Doc(c) == L(<<Str(IF c[1] = 0 THEN <<>> ELSE <<118, 49>>)>> \o [i \in 1..8 |-> Section(i + 1, c[i + 1])])
Sizes == {0, 1}
Looked == {<<2, "type">>, <<3, "struct">>, <<4, "action">>, <<5, "table">>, <<9, "variant">>}

D == Ty("abi")
MCInit == MInit /\ sc = <<>> /\ ph = "pick" /\ ch = [v |-> NoAbi, f |-> <<2, "type">>, n |-> 0]
Pick == /\ ph = "pick"
        /\ \E f \in Looked, n \in 0..3, c \in [1..9 -> Sizes] :
              /\ (~Full) => \E i \in 1..9 : \A j \in 1..9 : j = f[1] \/ j = i \/ c[j] = c[1]
              /\ c[f[1]] = 0
              /\ ch' = [v |-> Doc([c EXCEPT ![f[1]] = n]), f |-> f, n |-> n]
        /\ ph' = "enc" /\ UNCHANGED <<mvars, sc>>
To(p) == ph' = p /\ UNCHANGED ch
Path == IF ch.n % 2 = 0 THEN "chain" ELSE "plain"
Enc1 == ph = "enc" /\ Call(EEnc(D, ch.v, Path, "val"), PEnc(D, ch.v)) /\ To("poke")
Poke == ph = "poke" /\ Call(EPoke(D, 1, Doc([i \in 1..9 |-> 1])), [out |-> "ok"]) /\ To("open")
Open == ph = "open" /\ Call(EOpen("eof", <<>>, 0), POpen(w, 1, Len(w))) /\ To("dec")
Dec_1 == ph = "dec" /\ Call(EDec(D, 1, Path), PDec(D, rd.d, rd.p, rd.en)) /\ To("look")
Look == ph = "look" /\ Call(ELook(D, 1), [out |-> "ok", v |-> sl[1].v]) /\ To("old")
\* data from before variants existed: nothing after the other extensions
Variants == ch.v.e[9].e
OldLen == Len(w) - Len(Enc(Slice(Ty("abivariant")), ch.v.e[9]))
Old == ph = "old" /\ Call(EOpen("eof", <<>>, OldLen), POpen(SubSeq(w, 1, OldLen), 1, OldLen)) /\ To("old2")
Old2 == ph = "old2" /\ Call(EDec(D, 1, "chain"), PDec(D, rd.d, rd.p, rd.en)) /\ To("old3")
Old3 == ph = "old3" /\ Call(ELook(D, 1), [out |-> "ok", v |-> sl[1].v]) /\ To("json")
Json1 == ph = "json" /\ Call([op |-> "json", t |-> D, v |-> ch.v, n |-> ch.n], [out |-> "ok", js |-> <<JOf(D, ch.v)>>, back |-> <<[out |-> "ok", v |-> ch.v]>>, va |-> ch.v]) /\ To("use")
Use == /\ ph = "use"
       /\ Call([op |-> "abi", v |-> ch.v, form |-> CASE ch.n = 0 -> "direct" [] ch.n = 1 -> "bin" [] ch.n = 2 -> "json" [] OTHER -> "plain"], [out |-> "ok", v |-> ch.v])
       /\ To("find")
Wanted == <<NmA, <<98>>, <<122>>>>
WantedN == <<X1, Nat0(<<2>>), Nat0(<<9>>)>>
Found(k) == LET es == ch.v.e[ch.f[1]].e
                i == IF ch.f[2] \in {"action", "table"} THEN FirstName(es, WantedN[k]) ELSE First(es, Wanted[k])
            IN  IF i = 0 THEN Nil ELSE es[i]
Find == /\ ph = "find"
        /\ LET k == Len(sc) - 9
           IN  IF k <= 3 THEN Call([op |-> "alookup", form |-> ch.f[2], nm |-> Wanted[k], v0 |-> WantedN[k]], [out |-> "ok", v |-> Found(k)]) /\ To("find")
               ELSE To("end") /\ UNCHANGED <<mvars, sc>>
Finish == ph = "end" /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars
MCNext == Pick \/ Enc1 \/ Poke \/ Open \/ Dec_1 \/ Look \/ Old \/ Old2 \/ Old3 \/ Json1 \/ Use \/ Find \/ Finish \/ Done

\* --- what must hold of the specification itself
Survives == ph = "old" => sl[1] = [st |-> "val", v |-> ch.v]
OldData == ph = "json" => sl[1] = [st |-> "val", v |-> [ch.v EXCEPT !.e[9] = L(<<>>)]]
InUse == ph = "find" => ab = ch.v
\* the first of several entries of one name: the one with the lower number
FirstOne == (ph = "find" /\ ch.n > 0) => Found(3) = Nil /\ Found(1) = Entry(ch.f[1], 1) /\ (Found(2) # Nil <=> ch.n = 3)
=============================================================================
