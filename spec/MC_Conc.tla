------------------------------- MODULE MC_Conc ------------------------------
(***************************************************************************)
(* Processes that encode and decode at the same time, each on streams of   *)
(* its own.  A call moves its data in pieces, each through a scratch       *)
(* buffer: fill it, then flush it (to the writer or to the variable), and  *)
(* other processes may run in between.  With scratch buffers of their own  *)
(* (Shared = FALSE) every process gets what it would get alone, under      *)
(* every schedule; with one common buffer (Shared = TRUE) it does not, and *)
(* TLC finds the schedule.  Complete schedules are replayed on the code,   *)
(* which changes over between goroutines at calls, reads and writes.       *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Procs, Calls, Pieces, Shared, Plan

VARIABLES pcs,      \* per process [call, piece, filled]
          scr,      \* scratch buffers
          got,      \* per process, the pieces that arrived
          sch       \* the schedule so far
vars == <<MCvars, pcs, scr, got, sch>>

Buf(p) == IF Shared THEN 1 ELSE p
Piece(p, c, k) == <<p, c, k>>
Alone(p) == FlattenSeq([c \in 1..Calls |-> [k \in 1..Pieces |-> Piece(p, c, k)]])

\* --- what the processes really do
Str0(b) == Node("s", b, <<>>)
TA == Struct(<<Ty("vu"), Ty("str"), Slice(Ty("u32")), Tag(Ptr(Ty("u64")), "optional")>>)
VA(p) == Seqv(<<Nat0(<<p, 44>>), Str0([i \in 1..(p + 1) |-> 96 + p]), Seqv(<<Nat0(<<p>>), Nat0(<<p, p, p>>)>>), Nat0(<<p, 1, 2, 3>>)>>)
TB == MapT(Ty("str"), Ty("vi"))
VB(p) == Seqv(<<Seqv(<<Str0(<<97, 96 + p>>), Node("m", <<p, 1>>, <<>>)>>), Seqv(<<Str0(<<98>>), Nat0(<<p, 0>>)>>)>>)
Digest0(p) == [op |-> "digest", form |-> "160", d |-> [i \in 1..(60 + p) |-> p]]
B58Call(p) == [op |-> "b58e", d |-> <<0, p, 255, 254, 253, p>>]
NameP(p) == [op |-> "parse", t |-> Ty("name"), s |-> [i \in 1..(8 + p) |-> 97 + p], v |-> Nat0(<<9>>), form |-> "json"]
TimeP(p) == [op |-> "print", t |-> Ty("tp"), v |-> Nat0(<<p, 9, 200, 3, 44, 100>>), form |-> "json"]
LastW(n) == [op |-> "open", src |-> "wire", en |-> "eof", ch |-> <<1>>, last |-> n]
Prog(p) == CASE Plan = "codec" -> <<EEnc(TA, VA(p), "chain", "val"), LastW(1), EDec(TA, 3, "chain"), ELook(TA, 3)>>
             [] Plan = "maps" -> <<EEnc(TB, VB(p), "plain", "ptr"), LastW(1), EDec(TB, 3, "decl"), ELook(TB, 3)>>
             [] Plan = "mixed" -> IF p % 2 = 1 THEN <<EEnc(TA, VA(p), "decl", "val"), LastW(1), EDec(TA, 3, "plain")>>
                                  ELSE <<Digest0(p), B58Call(p), NameP(p), TimeP(p), EEnc(TB, VB(p), "chain", "val")>>
Script(s) == <<[op |-> "par", mode |-> "sched", gs |-> [p \in 1..Procs |-> Prog(p)], sch |-> s]>>

MCInit == /\ MInit /\ sc = <<>> /\ ph = "run" /\ ch = 0 /\ sch = <<>>
          /\ pcs = [p \in 1..Procs |-> [call |-> 1, piece |-> 1, filled |-> FALSE]]
          /\ scr = [p \in 1..Procs |-> <<>>] /\ got = [p \in 1..Procs |-> <<>>]
Live(p) == pcs[p].call <= Calls
Fill(p) == /\ Live(p) /\ ~pcs[p].filled
           /\ scr' = [scr EXCEPT ![Buf(p)] = Piece(p, pcs[p].call, pcs[p].piece)]
           /\ pcs' = [pcs EXCEPT ![p].filled = TRUE]
           /\ UNCHANGED got
Flush(p) == /\ Live(p) /\ pcs[p].filled
            /\ got' = [got EXCEPT ![p] = Append(@, scr[Buf(p)])]
            /\ pcs' = [pcs EXCEPT ![p] = IF @.piece = Pieces THEN [call |-> @.call + 1, piece |-> 1, filled |-> FALSE]
                                         ELSE [@ EXCEPT !.piece = @ + 1, !.filled = FALSE]]
            /\ UNCHANGED scr
Step(p) == ph = "run" /\ (Fill(p) \/ Flush(p)) /\ sch' = Append(sch, p) /\ UNCHANGED MCvars
Over == \A p \in 1..Procs : ~Live(p)
Finish == ph = "run" /\ Over /\ Emit(Script(sch)) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch, pcs, scr, got, sch>>
Stop == ph = "done" /\ UNCHANGED vars
MCNext == (\E p \in 1..Procs : Step(p)) \/ Finish \/ Stop

\* every process has received exactly what it would have received alone
Isolated == \A p \in 1..Procs : IsPrefixOf(got[p], Alone(p))
Complete == Over => \A p \in 1..Procs : got[p] = Alone(p)
=============================================================================
