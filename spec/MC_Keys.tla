------------------------------- MODULE MC_Keys ------------------------------
(***************************************************************************)
(* Checked base58 and the text of keys and signatures.  A text is put      *)
(* together from its parts, each right or wrong in every way of a small    *)
(* menu (prefix, key type, separator, data, checksum), or a right text is  *)
(* damaged at one place (a character changed, lost, doubled, not of the    *)
(* alphabet), at every place.                                              *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Group,        \* "checked", "parts" (of a key's text) or "places" (where it is damaged)
          Step          \* damage every Step-th place

Fill(n, c) == [i \in 1..n |-> (c * i + n) % 256]
\* --- checked base58
Payloads == {<<>>, <<0>>, <<0, 0, 7>>, <<1>>, Fill(20, 5), <<0>> \o Fill(12, 91), Fill(33, 37)}
Forms == {[form |-> "sha", a |-> <<>>], [form |-> "rmd", a |-> <<>>], [form |-> "rmd", a |-> <<75, 49>>], [form |-> "rmd", a |-> <<87, 65>>]}
Sum4(f, p) == IF f.form = "sha" THEN CkSha(p) ELSE CkRmd(p, f.a)
\* --- damage at place i of s: kind k
B58Al == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
After(c) == LET j == SelectInSeq(B58Al, LAMBDA x : x = c) IN IF j = 0 THEN 50 ELSE B58Al[1 + (j % 58)]
Damage(s, i, k) ==
    LET a == SubSeq(s, 1, i - 1)
        b == SubSeq(s, i + 1, Len(s))
    IN  CASE k = "next" -> a \o <<After(s[i])>> \o b
          [] k = "lost" -> a \o b
          [] k = "twice" -> a \o <<s[i], s[i]>> \o b
          [] k = "zero" -> a \o <<48>> \o b              \* 0 is not of the alphabet
          [] k = "one" -> a \o <<49, s[i]>> \o b
          [] k = "swap" -> IF b = <<>> THEN a \o <<s[i], 49>> ELSE a \o <<b[1], s[i]>> \o Tail(b)
Damages == {"next", "lost", "twice", "zero", "one", "swap"}

\* --- keys
Data(t, kt) ==       \* right data, and data of wrong length or form
    LET n == IF t = "sig" THEN 65 ELSE 33
        wa == IF t = "sig" THEN {Fill(65, 5) \o <<0, 0>>, Fill(65, 6) \o <<2, 9, 9, 1, 8>>} ELSE {Fill(33, 5) \o <<1, 0>>, Fill(33, 6) \o <<0, 3, 97, 98, 99>>}
        right == IF kt = 2 THEN wa ELSE {Fill(n, c) : c \in {0, 2, 91}} \cup {<<2>> \o Fill(n - 1, 1), <<3>> \o Zeros(n - 1)}
        one == CHOOSE x \in right : TRUE
    IN  [right |-> right, wrong |-> {<<>>, Tail(one), Append(one, 0), SubSeq(one, 1, Len(one) - 1), Fill(n - 1, 3), Fill(n + 1, 3)}]
PrefixMenu == {<<80, 85, 66, 95>>, <<83, 73, 71, 95>>, <<80, 86, 84, 95>>, <<112, 117, 98, 95>>, <<69, 79, 83>>, <<>>, <<80, 85, 66, 45>>}
Tags == {<<75, 49>>, <<82, 49>>, <<87, 65>>, <<75, 50>>, <<107, 49>>, <<>>}
Seps == {<<95>>, <<45>>, <<>>, <<95, 95>>, <<49>>}
CkTags == {<<75, 49>>, <<82, 49>>, <<87, 65>>, <<>>}
Before(t) == Node("key", IF t = "pubkey" THEN <<1>> \o Fill(33, 200) ELSE <<0>> \o Fill(65, 200), <<>>)
Form(s) == CASE Len(s) % 3 = 0 -> "text" [] Len(s) % 3 = 1 -> "new" [] OTHER -> "json"
EParse(t, s) == [op |-> "parse", t |-> Ty(t), s |-> s, v |-> Before(t), form |-> Form(s)]
EPrint(t, v) == [op |-> "print", t |-> Ty(t), v |-> v, form |-> IF v.b[1] = 0 THEN "text" ELSE "json"]
PParse(t, s) == IF ch.ok THEN [out |-> "ok", v |-> ch.v, in |-> s] ELSE [out |-> "err", v |-> Before(t), in |-> s]

MCInit == MInit /\ sc = <<>> /\ ph = "pick" /\ ch = [t |-> "", s |-> <<>>, ok |-> FALSE, v |-> Nil, f |-> <<>>]
PickChecked ==
    /\ ph = "pick" /\ Group = "checked"
    /\ \E p \in Payloads, f \in Forms : ch' = [t |-> "checked", s |-> CheckEnc(p, Sum4(f, p)), ok |-> TRUE, v |-> Node("s", p, <<>>), f |-> f]
    /\ ph' = "ck" /\ UNCHANGED <<mvars, sc>>
Harm == /\ ph = "ck" /\ ch.ok
        /\ \/ \E g \in Forms \ {ch.f} : ch' = [ch EXCEPT !.ok = FALSE, !.f = g]
           \/ \E i \in 1..Len(ch.s), k \in Damages : i % Step = 0 /\ Damage(ch.s, i, k) # ch.s /\ ch' = [ch EXCEPT !.ok = FALSE, !.s = Damage(ch.s, i, k)]
        /\ UNCHANGED <<mvars, sc, ph>>
CkD == /\ ph = "ck" /\ Call([op |-> "ckd", s |-> ch.s, form |-> ch.f.form, a |-> ch.f.a],
                            IF ch.ok THEN [out |-> "ok", b |-> ch.v.b] ELSE [out |-> "err", b |-> <<>>])
       /\ ph' = (IF ch.ok THEN "ck2" ELSE "end") /\ UNCHANGED ch
CkE == /\ ph = "ck2" /\ Call([op |-> "cke", d |-> ch.v.b, form |-> ch.f.form, a |-> ch.f.a], [out |-> "ok", s |-> ch.s, in |-> ch.v.b])
       /\ ph' = "end" /\ UNCHANGED ch

\* a text is chosen by its parts first and put together in a step of its own
Parts(t, kt, pre, tag, sep, d, ck, ok) == ch' = [t |-> t, s |-> <<>>, ok |-> ok, v |-> Node("key", <<kt>> \o d, <<>>), f |-> [pre |-> pre \o tag \o sep, ck |-> ck]]
PickParts ==
    /\ ph = "pick" /\ Group = "parts"
    /\ \E t \in KeyKinds, kt \in 0..2 :
         LET D == Data(t, kt)
             tag == KeyTag[kt + 1]
             one == CHOOSE x \in D.right : TRUE
         IN  \/ \E d \in D.right : Parts(t, kt, KeyPrefix(t), tag, <<95>>, d, tag, TRUE)
             \/ \E d \in D.wrong : Parts(t, kt, KeyPrefix(t), tag, <<95>>, d, tag, FALSE)
             \* (a public key under another prefix and without suffix is legacy text)
             \/ \E pre \in PrefixMenu \ {KeyPrefix(t)}, ck \in {tag} \cup (IF t = "sig" THEN {<<>>} ELSE {}) : Parts(t, kt, pre, tag, <<95>>, one, ck, FALSE)
             \/ \E tg \in Tags \ {tag}, ck \in CkTags : ~(Len(tg) = 2 /\ tg = ck) /\ Parts(t, kt, KeyPrefix(t), tg, <<95>>, one, ck, FALSE)
             \/ \E sep \in Seps \ {<<95>>} : Parts(t, kt, KeyPrefix(t), tag, sep, one, tag, FALSE)
             \/ \E ck \in CkTags \ {tag} : Parts(t, kt, KeyPrefix(t), tag, <<95>>, one, ck, FALSE)
             \* two wrongs
             \/ \E pre \in PrefixMenu, sep \in Seps, d \in D.wrong : Parts(t, kt, pre, tag, sep, d, tag, FALSE)
    /\ ph' = "parts" /\ UNCHANGED <<mvars, sc>>
\* the legacy form
PickLegacy ==
    /\ ph = "pick" /\ Group = "parts"
    /\ \E d \in {<<2>> \o Fill(32, 1), <<3>> \o Zeros(32), <<2>> \o Zeros(32), <<3>> \o [i \in 1..32 |-> 255]}, pre \in {<<69, 79, 83>>, <<>>, <<70, 73, 79>>, <<80, 85, 66>>} :
         \/ Parts("pubkey", 0, pre, <<>>, <<>>, d, <<>>, TRUE)
         \/ Parts("pubkey", 0, pre, <<>>, <<>>, d, <<75, 49>>, FALSE)
         \/ Parts("pubkey", 0, pre, <<>>, <<>>, d, <<115>>, FALSE)
         \/ Parts("pubkey", 0, pre, <<>>, <<>>, Tail(d), <<>>, FALSE)
    /\ ph' = "parts" /\ UNCHANGED <<mvars, sc>>
Assemble == /\ ph = "parts"
           /\ ch' = [ch EXCEPT !.s = LET d == Tail(ch.v.b) IN ch.f.pre \o CheckEnc(d, IF ch.f.ck = <<115>> THEN CkSha(d) ELSE CkRmd(d, ch.f.ck))]
           /\ ph' = "key" /\ UNCHANGED <<mvars, sc>>
\* right texts, and then damage to them
PickPlaces ==
    /\ ph = "pick" /\ Group = "places"
    /\ \/ \E t \in KeyKinds, kt \in 0..2 : Parts(t, kt, KeyPrefix(t), KeyTag[kt + 1], <<95>>, CHOOSE x \in Data(t, kt).right : TRUE, KeyTag[kt + 1], TRUE)
       \/ Parts("pubkey", 0, <<69, 79, 83>>, <<>>, <<>>, <<2>> \o Fill(32, 1), <<>>, TRUE)
    /\ ph' = "parts" /\ UNCHANGED <<mvars, sc>>
HarmKey ==
    /\ ph = "key" /\ ch.ok /\ Group = "places"
    /\ \E i \in 1..Len(ch.s), k \in Damages \cup {"cut"} :
         \* (what comes before legacy text is its prefix)
         LET legacy == Len(ch.f.pre) = 3
             s == IF k = "cut" THEN SubSeq(ch.s, 1, i - 1) ELSE Damage(ch.s, i, k)
         IN  i % Step = 0 /\ (legacy => i > 4 /\ k \notin {"lost", "cut"}) /\ s # ch.s /\ ch' = [ch EXCEPT !.ok = FALSE, !.s = s]
    /\ UNCHANGED <<mvars, sc, ph>>
KeyP == /\ ph = "key" /\ Call(EParse(ch.t, ch.s), PParse(ch.t, ch.s))
        /\ ph' = (IF ch.ok THEN "key2" ELSE "end") /\ UNCHANGED ch
KeyQ == /\ ph = "key2" /\ Call(EPrint(ch.t, ch.v), [out |-> "ok", s |-> PrintKey(ch.t, ch.v), va |-> ch.v])
        /\ ph' = "end" /\ UNCHANGED ch
Finish == ph = "end" /\ Emit(sc) /\ ph' = "done" /\ UNCHANGED <<mvars, sc, ch>>
Done == ph = "done" /\ UNCHANGED MCvars
MCNext == PickChecked \/ PickParts \/ PickLegacy \/ PickPlaces \/ Assemble \/ Harm \/ HarmKey \/ CkD \/ CkE \/ KeyP \/ KeyQ \/ Finish \/ Done

\* --- what must hold of the specification itself: right text gives back what it was made of, and wrong text is
\* refused, whatever is wrong with it.  Otherwise the call with that outcome is not possible and TLC finds a deadlock.
Answered == ph \in {"end", "done"} => (IF ch.ok THEN Len(sc) = 2 ELSE Len(sc) = 1)
=============================================================================
