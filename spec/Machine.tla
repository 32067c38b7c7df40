------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The library as a state machine.  A session owns one output stream, one  *)
(* input stream, some typed variables, an ABI definition and some hash     *)
(* objects; every public call is one action.  An event e is a record with  *)
(* the call's arguments and, in e.o, what the call was observed to do      *)
(* (e.o.out = "ok" or "err"; panics, hangs, crashes and data races are     *)
(* recorded under other names and match no action).  An action is enabled  *)
(* exactly when the observation is one the specification allows.           *)
(***************************************************************************)
EXTENDS JForm

VARIABLES
    w,      \* bytes accepted by the session's writer so far
    rd,     \* input stream [d |-> all bytes, p |-> next position, en |-> how it ends]
    sl,     \* variables: sequence of [st, v]; st = "val" (holds v) or "any" (unspecified)
    hs,     \* hash objects: sequence of [bulk, d], what was written since the last reset
    ab,     \* the ABI definition in use
    dv      \* objects ABI-driven decoding returned: sequence of [st, v]

mvars == <<w, rd, sl, hs, ab, dv>>

NSlots == 4
Rd0 == [d |-> <<>>, p |-> 1, en |-> "eof"]
Slot0 == [st |-> "any", v |-> Nil]
NHash == 3
Hash0 == [bulk |-> FALSE, d |-> <<>>]

NoAbi == Node("q", <<>>, <<Node("s", <<>>, <<>>)>> \o [i \in 1..8 |-> Node("q", <<>>, <<>>)])

MInit == /\ w = <<>> /\ rd = Rd0 /\ sl = [i \in 1..NSlots |-> Slot0]
         /\ hs = [i \in 1..NHash |-> Hash0]
         /\ ab = NoAbi /\ dv = [i \in 1..NSlots |-> Slot0]

(***************************************************************************)
(* Typed encoding.  e.lim >= 0: the writer accepts lim more bytes and then *)
(* refuses the write that would exceed it (once or for good).              *)
(***************************************************************************)
\* the outcome of encoding v as ty with a writer limit
EncMatches(ty, v, lim, o) ==
    IF EncOk(ty, v) THEN
        LET full == Enc(ty, v)
        IN  IF lim < 0 \/ Len(full) <= lim
            THEN o.out = "ok" /\ o.b = full
            ELSE /\ o.out = "err" /\ o.em = TRUE           \* reported, as the writer's error
                 /\ IsPrefixOf(o.b, full) /\ Len(o.b) <= lim
                 /\ o.after = 0                              \* nothing written after the failure
    ELSE o.out = "err"

Unchanged(ty, v, o) == Canon(ty, o.va) = Canon(ty, v)       \* encoding leaves the value alone

AEnc(e) == /\ EncMatches(e.t, e.v, e.lim, e.o)
           /\ Unchanged(e.t, e.v, e.o)
           /\ w' = w \o e.o.b
           /\ UNCHANGED <<rd, sl, hs, ab, dv>>

\* encode what a variable holds
AEncSlot(e) == LET s == sl[e.sl]
               IN  /\ IF s.st = "val" THEN EncMatches(e.t, s.v, 0 - 1, e.o)
                      ELSE e.o.out \in {"ok", "err"}
                   /\ w' = w \o e.o.b
                   /\ UNCHANGED <<rd, sl, hs, ab, dv>>

\* encode the same value against writers failing at each of several points
AFaults(e) == /\ \A i \in 1..Len(e.o.rs) :
                    EncMatches(e.t, e.v, e.o.rs[i].lim, e.o.rs[i])
              /\ UNCHANGED mvars

(***************************************************************************)
(* Typed decoding.                                                         *)
(***************************************************************************)
AOpen(e) == /\ e.o.exact => e.o.d = SubSeq(w, e.o.from, e.o.to)
            /\ rd' = [d |-> e.o.d, p |-> 1, en |-> e.en]
            /\ UNCHANGED <<w, sl, hs, ab, dv>>

\* allowed memory (KB) for decoding n bytes
AllocBound(n) == 4096 + 4 * n

\* the outcome of decoding ty from data d at p
DecMatches(ty, d, p, en, o) ==
    LET r == Dec(ty, d, p, en)
    IN  \/ /\ r.s = "ok" /\ o.out = "ok"
           /\ Canon(ty, o.v) = Canon(ty, r.v)
           /\ o.used = r.i - p
           /\ o.br = o.used                                  \* and the decoder counted them
        \/ /\ o.out = "err"
           /\ r.s # "ok" \/ r.amb
           /\ (r.s = "end" /\ en = "err" /\ ~r.amb) => o.ek = "injected"

ADec(e) == /\ DecMatches(e.t, rd.d, rd.p, rd.en, e.o)
           /\ e.o.al <= AllocBound(Len(rd.d))
           /\ rd' = [rd EXCEPT !.p = rd.p + e.o.used]
           /\ sl' = IF e.sl = 0 THEN sl
                    ELSE [sl EXCEPT ![e.sl] = IF e.o.out = "ok" THEN [st |-> "val", v |-> e.o.v] ELSE Slot0]
           /\ UNCHANGED <<w, hs, ab, dv>>

\* decode every listed prefix of data; the reader ends or fails after it
ACuts(e) == /\ \A i \in 1..Len(e.o.rs) :
                 LET x == e.o.rs[i]
                 IN  DecMatches(e.t, SubSeq(e.o.d, 1, x.k), 1, e.en, x)
            /\ UNCHANGED mvars

\* decode very long regular input: e.n times the bytes e.d, then e.a.  What a few repetitions do not
\* complete, many do not; what they complete may exceed the nesting the decoder allows.
RECURSIVE Repeat(_, _)
Repeat(d, n) == IF n = 0 THEN <<>> ELSE d \o Repeat(d, n - 1)
ABulk(e) == LET r == Dec(e.t, Repeat(e.d, 4) \o e.a, 1, "eof")
            IN  /\ (e.n <= 100 /\ r.s = "ok") => e.o.out = "ok"
                /\ e.o.out = "err" \/ (e.o.out = "ok" /\ r.s = "ok" /\ e.o.used = e.n * Len(e.d) + Len(e.a))
                /\ e.o.al <= AllocBound(e.n * Len(e.d) + Len(e.a))
                /\ UNCHANGED mvars

\* e.n rounds with one encoder and one decoder: all alike
ARep(e) == /\ IF EncOk(e.t, e.v)
              THEN /\ e.o.out = "ok" /\ e.o.b = Enc(e.t, e.v)
                   /\ Canon(e.t, e.o.v) = Canon(e.t, Dec(e.t, e.o.b, 1, "eof").v)
                   /\ e.o.same = e.n /\ (e.o.b # <<>> => e.o.bad = e.n)
              ELSE e.o.out = "err"
           /\ UNCHANGED mvars

\* a value holding e.n copies of one element: what surrounds them is exact, none is lost or changed
HugeElem(e) == CASE e.form = "len" -> e.v.b [] e.form = "gen" -> Enc(e.t.e[1].e[1], e.v) [] OTHER -> Enc(e.t, e.v)
HugeHead(e) == CASE e.form = "auth" -> <<1>> \o Zeros(7) \o <<2>> \o Zeros(7)
                 [] e.form = "cfa" -> Zeros(13)
                 [] e.form = "acts" -> Zeros(14)
                 [] e.form = "exts" -> Zeros(15)
                 [] OTHER -> <<>>
HugeTail(e) == CASE e.form = "auth" -> <<1, 9>> [] e.form = "cfa" -> <<0, 0>> [] e.form = "acts" -> <<0>> [] OTHER -> <<>>
HugeMatches(eb, head, tail, n, o) ==
    /\ o.out = "ok" /\ o.eb = eb
    /\ o.h = head \o VarU(n) /\ o.tl = tail /\ o.rest
    /\ o.dec = "ok" /\ o.same /\ o.left = 0 /\ o.cut = "err"
\* writers failing and readers ending anywhere inside it, and the whole of it in chunks
HugePoints(e) ==
    /\ \A i \in 1..Len(e.o.ws) : LET x == e.o.ws[i] IN x.out = "err" /\ x.em /\ x.after = 0 /\ x.pre /\ x.n <= x.k
    /\ \A i \in 1..Len(e.o.rs) : LET x == e.o.rs[i] IN x.out = "err" /\ (e.en = "err" => x.ek = "injected")
    /\ e.o.all.out = "ok" /\ e.o.all.same /\ e.o.all.left = 0
AHuge(e) == HugeMatches(HugeElem(e), HugeHead(e), HugeTail(e), e.n, e.o) /\ HugePoints(e) /\ UNCHANGED mvars

\* the e.n-th call of the custom function failed: that is what the call returns
ACustErr(e) == /\ e.o.hit => (e.o.out = "err" /\ e.o.em = TRUE /\ e.o.after = 0)
               /\ ~e.o.hit /\ EncOk(e.t, e.v) => e.o.out = "ok"
               /\ UNCHANGED mvars

\* Go values without an encoding and targets that cannot be decoded into
AOdd(e) == e.o.out = "err" /\ UNCHANGED mvars

\* give a variable a value
APoke(e) == /\ sl' = [sl EXCEPT ![e.sl] = [st |-> "val", v |-> e.v]]
            /\ UNCHANGED <<w, rd, hs, ab, dv>>

\* everything a variable holds is changed in place by its owner: that is no other variable's business
ASpoil(e) == /\ sl' = [sl EXCEPT ![e.sl] = Slot0]
             /\ UNCHANGED <<w, rd, hs, ab, dv>>

\* a variable still holds what it held
ALook(e) == /\ sl[e.sl].st = "val" => Canon(e.t, e.o.v) = Canon(e.t, sl[e.sl].v)
            /\ UNCHANGED mvars

\* source was generated for a struct and compiles
AGen(e) == e.o.out = "ok" /\ UNCHANGED mvars

CodecEv(e) ==
    CASE e.op = "enc" -> AEnc(e)
      [] e.op = "encs" -> AEncSlot(e)
      [] e.op = "faults" -> AFaults(e)
      [] e.op = "open" -> AOpen(e)
      [] e.op = "dec" -> ADec(e)
      [] e.op = "cuts" -> ACuts(e)
      [] e.op = "bulk" -> ABulk(e)
      [] e.op = "rep" -> ARep(e)
      [] e.op = "huge" -> AHuge(e)
      [] e.op = "custerr" -> ACustErr(e)
      [] e.op = "odd" -> AOdd(e)
      [] e.op = "poke" -> APoke(e)
      [] e.op = "look" -> ALook(e)
      [] e.op = "spoil" -> ASpoil(e)
      [] e.op = "gen" -> AGen(e)

(***************************************************************************)
(* Text forms.  None of these calls depends on or changes the session, in  *)
(* particular not on the local time zone (event "tz").                     *)
(***************************************************************************)
ATz(e) == UNCHANGED mvars

APrint(e) == LET p == TextOf(e.t.t, e.v)
             IN  /\ p.def => e.o.out = "ok" /\ e.o.s = p.s
                 /\ e.o.va = e.v
                 /\ UNCHANGED mvars

\* e.v is what the variable held before; on refusal it must still hold it
AParse(e) == /\ ParseAllows(Parse(e.t.t, e.s), e.o.out, e.o.v)
             /\ e.o.out = "err" => e.o.v = e.v
             /\ e.o.in = e.s
             /\ UNCHANGED mvars

AJPrint(e) == e.o.out = "ok" /\ e.o.s = PrintUintJson(e.v) /\ UNCHANGED mvars
AJParse(e) == /\ ParseAllows(ParseUintJson(e.s, UWidth[e.t.t] * 8), e.o.out, e.o.v)
              /\ e.o.out = "err" => e.o.v = e.v
              /\ e.o.in = e.s
              /\ UNCHANGED mvars

AMkSym(e) == /\ LET ok == e.n <= 18 /\ LettersOk(e.s)
                IN  IF e.o.out = "ok" THEN ok /\ e.o.v = MkSym(e.n, e.s) ELSE ~ok \/ e.s = <<>>
             /\ UNCHANGED mvars

Pow10Mag(n) == DecToMag(<<1>> \o Zeros(n))
ASymParts(e) == /\ e.o.out = "ok"
                /\ e.o.dec = SymDecimals(e.v)
                /\ e.o.code = Nat0(StripZ(Reverse(Tail(SymBytes(e.v)))))
                /\ SymDecimals(e.v) <= 18 => e.o.prec = Nat0(Pow10Mag(SymDecimals(e.v)))
                /\ SymNameOk(e.v) => e.o.name = SymName(e.v)
                /\ UNCHANGED mvars

\* an asset as float64: the nearest one (ties to even) to its exact value
RECURSIVE Mul10(_, _)
Mul10(m, k) == IF k = 0 THEN m ELSE Mul10(MulSmall(m, 10), k - 1)
ShiftL(m, k) == IF m = <<>> THEN m ELSE MulSmall(m, 2 ^ (k % 8)) \o Zeros(k \div 8)
NearestF64(neg, mg, p, f) ==        \* f (8 bytes, most significant first) is mg / 10^p
    IF mg = <<>> THEN f = Zeros(8)
    ELSE LET ex == (f[1] % 128) * 16 + (f[2] \div 16)
             mt == StripZ(<<(f[2] % 16) + 16>> \o SubSeq(f, 3, 8))
             e2 == ex - 1077                            \* value = 4 mt 2^e2
             up == IF e2 > 0 THEN e2 ELSE 0
             x  == ShiftL(mg, up - e2)
             Sc(m) == ShiftL(Mul10(m, p), up)
             odd == f[8] % 2 = 1
             q  == MulSmall(mt, 4)
             lo == StripZ(Reverse(DecrLE(Reverse(q))))
             lo2 == IF mt = Pow2(52) THEN lo ELSE StripZ(Reverse(DecrLE(Reverse(lo))))
             hi == AddSmall(q, 2)
         IN  /\ (f[1] >= 128) <=> neg
             /\ ex > 0 /\ ex < 2047
             /\ IF odd THEN MagLess(Sc(lo2), x) /\ MagLess(x, Sc(hi))
                        ELSE MagLeq(Sc(lo2), x) /\ MagLeq(x, Sc(hi))
AFloat(e) == /\ e.o.out = "ok"
             /\ NearestF64(e.v.e[1].k = "m", e.v.e[1].b, SymDecimals(e.v.e[2]), Reverse(LEU(e.o.f.b, 8)))
             /\ e.o.va = e.v
             /\ UNCHANGED mvars

\* 128-bit integers as big.Int and as bytes in both orders, and built from a big.Int
AWide(e) == IF (e.t.t = "int128" /\ ~FitsS(e.v, 128)) \/ (e.t.t = "uint128" /\ ~FitsU(Nat0(e.v.b), 128))
            THEN e.o.out = "err" /\ UNCHANGED mvars
            ELSE LET le == IF e.t.t = "int128" THEN LES(e.v, 16) ELSE LEU(e.v.b, 16)
            IN  /\ e.o.out = "ok" /\ e.o.big = e.v /\ e.o.le = le /\ e.o.be = Reverse(le)
                /\ e.o.v = e.v
                /\ UNCHANGED mvars

\* as time.Time (microseconds since 1970) and back
Micros(t, v) ==
    CASE t = "tp" -> v
      [] t = "tps" -> Num1(v.k, MulSmall(MulSmall(v.b, 1000), 1000))
      [] t = "bts" -> Nat0(AddMag(MulSmall(MulSmall(v.b, 500), 1000), MulSmall(IntToMag(BtsEpoch), 1000000)))
ATime(e) == /\ e.o.out = "ok" /\ e.o.us = Micros(e.t.t, e.v) /\ e.o.v = e.v
            /\ UNCHANGED mvars

ALegacy(e) == /\ e.o.out = "ok" /\ e.o.s = LegacyText(e.s, e.v)
              /\ UNCHANGED mvars

TextOps == {"tz", "print", "parse", "jprint", "jparse", "mksym", "symparts", "wide", "time", "legacy", "float"}
TextEv(e) ==
    CASE e.op = "tz" -> ATz(e)
      [] e.op = "print" -> APrint(e)
      [] e.op = "parse" -> AParse(e)
      [] e.op = "jprint" -> AJPrint(e)
      [] e.op = "jparse" -> AJParse(e)
      [] e.op = "mksym" -> AMkSym(e)
      [] e.op = "symparts" -> ASymParts(e)
      [] e.op = "wide" -> AWide(e)
      [] e.op = "float" -> AFloat(e)
      [] e.op = "time" -> ATime(e)
      [] e.op = "legacy" -> ALegacy(e)

(***************************************************************************)
(* Base58, digests and hash objects.                                       *)
(***************************************************************************)
AB58E(e) == e.o.out = "ok" /\ B58Is(e.d, e.o.s) /\ e.o.in = e.d /\ UNCHANGED mvars
AB58D(e) == /\ e.o.out = "ok"
            /\ IF Len(e.s) <= 170 \/ ~B58Valid(e.s) THEN e.o.b = B58Dec(e.s) ELSE B58Is(e.o.b, e.s)
            /\ UNCHANGED mvars
Ck(e, p) == IF e.form = "sha" THEN CkSha(p) ELSE CkRmd(p, e.a)
ACkE(e) == e.o.out = "ok" /\ B58Is(e.d \o Ck(e, e.d), e.o.s) /\ e.o.in = e.d /\ UNCHANGED mvars
\* of a long text the script knows the bytes (e.w)
ACkD(e) == LET long == Len(e.s) > 170 /\ B58Valid(e.s)
               p == SubSeq(e.w, 1, Len(e.w) - 4)
               r == IF ~long THEN CheckDec(e.s, LAMBDA q : Ck(e, q))
                    ELSE IF ~B58Is(e.w, e.s) THEN Assert(FALSE, "wrong witness")
                    ELSE [ok |-> SubSeq(e.w, Len(e.w) - 3, Len(e.w)) = Ck(e, p), b |-> p]
           IN  /\ IF r.ok THEN e.o.out = "ok" /\ e.o.b = r.b ELSE e.o.out = "err"
               /\ UNCHANGED mvars

ADigest(e) == /\ e.o.out = "ok" /\ e.o.in = e.d
              /\ e.o.b = CASE e.form = "160" -> Ripemd160(e.d)
                           [] e.form = "256" -> Sha256(e.d)
                           [] e.form = "512" -> Sha512(e.d)
              /\ UNCHANGED mvars
ADBulk(e) == e.o.out = "ok" /\ e.o.b = Bulk(e.form, e.n, e.d) /\ e.o.in /\ UNCHANGED mvars
AActDigest(e) == /\ e.o.out = "ok" /\ e.o.b = Sha256(Enc(Ty("action"), e.v)) /\ e.o.va = e.v
                 /\ UNCHANGED mvars

\* what Sum appends for a hash object in state h
HashSum(h) == IF h.bulk THEN RmdFrom(RmdBulkH, RmdBulkLen, h.d) ELSE Ripemd160(h.d)
HSet(e, h) == hs' = [hs EXCEPT ![e.h] = h] /\ UNCHANGED <<w, rd, sl, ab, dv>>
AHNew(e)   == e.o.out = "ok" /\ e.o.size = 20 /\ e.o.bs = 64 /\ HSet(e, Hash0)
AHReset(e) == e.o.out = "ok" /\ HSet(e, Hash0)
AHWrite(e) == e.o.out = "ok" /\ e.o.n = Len(e.d) /\ e.o.in = e.d /\ HSet(e, [hs[e.h] EXCEPT !.d = @ \o e.d])
AHBulk(e)  == e.o.out = "ok" /\ ~hs[e.h].bulk /\ hs[e.h].d = <<>> /\ HSet(e, [bulk |-> TRUE, d |-> <<>>])
AHSum(e)   == e.o.out = "ok" /\ e.o.b = e.a \o HashSum(hs[e.h]) /\ e.o.in = e.a /\ UNCHANGED mvars

HashOps == {"b58e", "b58d", "cke", "ckd", "digest", "dbulk", "adigest", "hnew", "hreset", "hwrite", "hbulk", "hsum"}
HashEv(e) ==
    CASE e.op = "b58e" -> AB58E(e)
      [] e.op = "b58d" -> AB58D(e)
      [] e.op = "cke" -> ACkE(e)
      [] e.op = "ckd" -> ACkD(e)
      [] e.op = "digest" -> ADigest(e)
      [] e.op = "dbulk" -> ADBulk(e)
      [] e.op = "adigest" -> AActDigest(e)
      [] e.op = "hnew" -> AHNew(e)
      [] e.op = "hreset" -> AHReset(e)
      [] e.op = "hwrite" -> AHWrite(e)
      [] e.op = "hbulk" -> AHBulk(e)
      [] e.op = "hsum" -> AHSum(e)

(***************************************************************************)
(* ABI definitions and ABI-driven coding.                                  *)
(***************************************************************************)
\* a definition comes into use, possibly after a trip through binary or JSON
AAbi(e) == /\ e.o.out = "ok" /\ e.o.v = e.v
           /\ ab' = e.v
           /\ UNCHANGED <<w, rd, sl, hs, dv>>

\* the type an event asks for: [ok, nm]
Target(e) == IF e.by # "action" THEN [ok |-> TRUE, nm |-> e.nm]
             ELSE LET i == FirstName(AbiActions(ab), e.v0)
                  IN  IF i = 0 THEN [ok |-> FALSE, nm |-> <<>>] ELSE [ok |-> TRUE, nm |-> AbiActions(ab)[i].e[2].b]

DDecMatches(tg, d, p, en, o) ==
    IF ~tg.ok THEN o.out = "err"
    ELSE LET r == DDec(ab, tg.nm, d, p, en, 0)
         IN  \/ /\ r.s = "ok" /\ o.out = "ok"
                /\ o.v = r.v /\ o.used = r.i - p
             \/ /\ r.s = "ok" /\ o.out = "err"
                /\ r.amb \/ ~Sound(ab, tg.nm)
             \/ /\ r.s = "deep" /\ o.out \in {"ok", "err"}
                /\ Inhabited(ab, tg.nm) \/ o.out = "err"
             \/ /\ r.s \in {"end", "bad"} /\ o.out = "err"
                /\ (r.s = "end" /\ en = "err" /\ ~r.amb /\ Sound(ab, tg.nm)) => o.ek = "injected"

DEncMatches(tg, v, lim, o) ==
    IF ~tg.ok THEN o.out = "err"
    ELSE LET r == DEnc(ab, tg.nm, v, 0)
         IN  \/ /\ r.s = "ok" /\ o.out = "ok"
                /\ o.b = r.b /\ (lim < 0 \/ Len(r.b) <= lim)
             \/ /\ r.s = "ok" /\ o.out = "err"
                /\ \/ lim >= 0 /\ Len(r.b) > lim /\ o.em = TRUE
                      /\ IsPrefixOf(o.b, r.b) /\ Len(o.b) <= lim /\ o.after = 0
                   \/ r.amb \/ ~Sound(ab, tg.nm)
             \/ /\ r.s = "deep" /\ o.out \in {"ok", "err"}
                /\ Inhabited(ab, tg.nm) \/ o.out = "err"
             \/ r.s = "bad" /\ o.out = "err"

\* an array of e.n equal values
ADHuge(e) == LET r == DEnc(NoAbi, e.nm, e.v, 0)
             IN  /\ IF r.s = "ok" THEN HugeMatches(r.b, <<>>, <<>>, e.n, e.o) /\ HugePoints(e) ELSE e.o.out = "err"
                 /\ UNCHANGED mvars

ADDec(e) == /\ DDecMatches(Target(e), rd.d, rd.p, rd.en, e.o)
            /\ e.o.al <= AllocBound(Len(rd.d))
            /\ rd' = [rd EXCEPT !.p = rd.p + e.o.used]
            /\ dv' = IF e.sl = 0 THEN dv
                     ELSE [dv EXCEPT ![e.sl] = IF e.o.out = "ok" THEN [st |-> "val", v |-> e.o.v] ELSE Slot0]
            /\ UNCHANGED <<w, sl, hs, ab>>

ADEnc(e) == /\ DEncMatches(Target(e), e.v, e.lim, e.o)
            /\ e.o.va = e.v
            /\ w' = w \o e.o.b
            /\ UNCHANGED <<rd, sl, hs, ab, dv>>

\* encode an object that decoding returned
ADReenc(e) == LET s == dv[e.sl]
              IN  /\ IF s.st = "val" THEN DEncMatches(Target(e), s.v, 0 - 1, e.o)
                     ELSE e.o.out \in {"ok", "err"}
                  /\ w' = w \o e.o.b
                  /\ UNCHANGED <<rd, sl, hs, ab, dv>>

\* everything in such an object is changed by its owner
ADSpoil(e) == /\ dv' = [dv EXCEPT ![e.sl] = Slot0]
              /\ UNCHANGED <<w, rd, sl, hs, ab>>

\* such an object is still what it was
ADLook(e) == /\ dv[e.sl].st = "val" => e.o.v = dv[e.sl].v
             /\ UNCHANGED mvars

ADFaults(e) == /\ \A i \in 1..Len(e.o.rs) : DEncMatches(Target(e), e.v, e.o.rs[i].lim, e.o.rs[i])
               /\ UNCHANGED mvars

ADCuts(e) == /\ \A i \in 1..Len(e.o.rs) :
                  LET x == e.o.rs[i]
                  IN  DDecMatches(Target(e), SubSeq(e.o.d, 1, x.k), 1, e.en, x)
             /\ UNCHANGED mvars

\* Action.Decode: action data by the definition; the result must be a struct
AActDec(e) == LET tg == Target(e)
                  r == DDec(ab, tg.nm, e.d, 1, "eof", 0)
              IN  /\ \/ /\ tg.ok /\ r.s = "ok" /\ r.v.k = "map" /\ e.o.out = "ok" /\ e.o.v = r.v
                     \/ /\ e.o.out = "err"
                        /\ \/ ~tg.ok \/ r.s # "ok" \/ r.v.k # "map" \/ r.amb
                           \/ r.i <= Len(e.d)                 \* data left over
                           \/ ~Sound(ab, tg.nm)
                     \/ tg.ok /\ r.s = "deep" /\ Inhabited(ab, tg.nm)
                  /\ e.o.in = e.d
                  /\ UNCHANGED mvars

\* Action.DecodeInto: action data into a typed variable
AActInto(e) == LET r == Dec(e.t, e.d, 1, "eof")
               IN  /\ \/ r.s = "ok" /\ e.o.out = "ok" /\ Canon(e.t, e.o.v) = Canon(e.t, r.v)
                      \/ e.o.out = "err" /\ (r.s # "ok" \/ r.amb \/ r.i <= Len(e.d))
                   /\ e.o.in = e.d
                   /\ UNCHANGED mvars

\* lookups by name give the first entry of that name or nothing
ALookup(e) == LET es == CASE e.form = "table" -> AbiTables(ab) [] e.form = "action" -> AbiActions(ab)
                          [] e.form = "struct" -> AbiStructs(ab) [] e.form = "type" -> AbiTypes(ab)
                          [] e.form = "variant" -> AbiVariants(ab)
                  i == IF e.form \in {"table", "action"} THEN FirstName(es, e.v0) ELSE First(es, e.nm)
              IN  /\ e.o.out = "ok" /\ e.o.v = IF i = 0 THEN Nil ELSE es[i]
                  /\ UNCHANGED mvars

AbiOps == {"abi", "adec", "aenc", "ahuge", "areenc", "alook", "aspoil", "afaults", "acuts", "actdec", "actinto", "alookup"}
AbiEv(e) ==
    CASE e.op = "abi" -> AAbi(e)
      [] e.op = "adec" -> ADDec(e)
      [] e.op = "aenc" -> ADEnc(e)
      [] e.op = "ahuge" -> ADHuge(e)
      [] e.op = "areenc" -> ADReenc(e)
      [] e.op = "alook" -> ADLook(e)
      [] e.op = "aspoil" -> ADSpoil(e)
      [] e.op = "afaults" -> ADFaults(e)
      [] e.op = "acuts" -> ADCuts(e)
      [] e.op = "actdec" -> AActDec(e)
      [] e.op = "actinto" -> AActInto(e)
      [] e.op = "alookup" -> ALookup(e)

(***************************************************************************)
(* JSON.                                                                   *)
(***************************************************************************)
\* every way of marshalling the value gives its form, and every rendering of
\* that document unmarshals to the value
AJson(e) == /\ e.o.out = "ok"
            /\ LET j == JOf(e.t, e.v) IN \A i \in 1..Len(e.o.js) : e.o.js[i] = j
            /\ LET c == Canon(e.t, e.v)
               IN  \A i \in 1..Len(e.o.back) : e.o.back[i].out = "ok" /\ Canon(e.t, e.o.back[i].v) = c
            /\ Canon(e.t, e.o.va) = Canon(e.t, e.v)
            /\ UNCHANGED mvars
\* an object that ABI-driven decoding returned
AJDyn(e) == /\ e.o.out = "ok"
            /\ dv[e.sl].st = "val" => e.o.j = JDyn(dv[e.sl].v)
            /\ UNCHANGED mvars

JsonOps == {"json", "ajson"}
JsonEv(e) == IF e.op = "json" THEN AJson(e) ELSE AJDyn(e)

Ev(e) == IF e.op \in TextOps THEN TextEv(e)
         ELSE IF e.op \in HashOps THEN HashEv(e)
         ELSE IF e.op \in AbiOps THEN AbiEv(e)
         ELSE IF e.op \in JsonOps THEN JsonEv(e)
         ELSE CodecEv(e)
=============================================================================
