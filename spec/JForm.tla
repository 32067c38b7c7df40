------------------------------- MODULE JForm --------------------------------
(***************************************************************************)
(* The nodeos JSON form of typed and ABI-decoded values, as a tree:        *)
(*   [k "jo", e members [k "f", b name, e <<tree>>] in name order],        *)
(*   [k "ja", e trees], [k "js", b text], [k "jn", e <<number>>],          *)
(*   [k "jb", b <<0 or 1>>], [k "jnull"].                                  *)
(* Floating point numbers have no form specified here.                     *)
(***************************************************************************)
EXTENDS Text, Schema, JNames

JS(s) == Node("js", s, <<>>)
JNum(v) == Node("jn", <<>>, <<v>>)
JNull == Node("jnull", <<>>, <<>>)
JArr(ts) == Node("ja", <<>>, ts)
JObj(fs) == Node("jo", <<>>, Sorted(Ty("field"), fs))
JM(n, t) == FieldNode(n, t)

\* member names of the chain records; empty: the members of that part are the record's own
JFields == [
    perm |-> <<"actor", "permission">>,
    action |-> <<"account", "name", "authorization", "data">>,
    txhdr |-> <<"expiration", "ref_block_num", "ref_block_prefix", "max_net_usage_words", "max_cpu_usage_ms", "delay_sec">>,
    txext |-> <<"type", "data">>,
    extasset |-> <<"quantity", "contract">>,
    abitype |-> <<"new_type_name", "type">>,
    abifield |-> <<"name", "type">>,
    abiclause |-> <<"id", "body">>,
    abistruct |-> <<"name", "base", "fields">>,
    abiaction |-> <<"name", "type", "ricardian_contract">>,
    abitable |-> <<"name", "index_type", "key_names", "key_types", "type">>,
    abiext |-> <<"type", "data">>,
    abierr |-> <<"error_code", "error_msg">>,
    abivariant |-> <<"name", "types">>,
    abi |-> <<"version", "types", "structs", "actions", "tables", "ricardian_clauses", "error_messages", "abi_extensions", "variants">>]
\* members left out when empty
JOmit == {"error_messages", "abi_extensions", "variants"}

JPlain == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "vu", "vi", "nu32", "nu64", "ni32", "ni64"}
JText == {"name", "symbol", "symcode", "asset", "uint128", "int128", "tp", "tps", "bts", "blob"} \cup HexKinds \cup KeyKinds

\* names of driver-made struct fields: f0, f1, ...
FName(i) == <<102>> \o Digits(IntToMag(i - 1))

RECURSIVE JOf(_, _)
Members(fts, names, v) ==
    LET all == [i \in 1..Len(names) |-> [n |-> names[i], t |-> JOf(fts[i], v.e[i]), z |-> names[i] \in JOmit /\ v.e[i].e = <<>>]]
        keep == SelectSeq(all, LAMBDA m : ~m.z)
    IN  [i \in 1..Len(keep) |-> JM(JN[keep[i].n], keep[i].t)]
JOf(ty, v) ==
    IF v.k = "nil" THEN JNull
    ELSE CASE ty.t \in JPlain -> JNum(v)
      [] ty.t = "bool" -> Node("jb", IF v.b = <<>> THEN <<0>> ELSE <<1>>, <<>>)
      [] ty.t = "str" -> JS(v.b)
      [] ty.t = "bytes" -> JS(Base64(v.b))
      [] ty.t \in {"uint64", "blocknum"} -> IF FitsU(v, 32) THEN JNum(v) ELSE JS(Digits(v.b))
      [] ty.t \in JText -> JS(TextOf(ty.t, v).s)
      [] ty.t = "ptr" -> JOf(ty.e[1], v)
      [] ty.t \in {"slice", "array"} -> JArr([i \in 1..Len(v.e) |-> JOf(ty.e[1], v.e[i])])
      [] ty.t = "map" -> JObj([i \in 1..Len(v.e) |-> JM(v.e[i].e[1].b, JOf(ty.e[2], v.e[i].e[2]))])
      [] ty.t = "struct" -> JObj([i \in 1..Len(v.e) |-> JM(FName(i), JOf(ty.e[i], v.e[i]))])
      [] ty.t = "tx" ->
            JObj(Members(TxHdrT.e, JFields["txhdr"], v.e[1])
                 \o <<JM(JN.context_free_actions, JOf(TxT.e[2], v.e[2])), JM(JN.actions, JOf(TxT.e[3], v.e[3])),
                      JM(JN.transaction_extensions, JOf(TxT.e[4], v.e[4]))>>)
      [] OTHER -> JObj(Members(Expand(ty).e, JFields[ty.t], v))

\* an object ABI-driven decoding returned
RECURSIVE JDyn(_)
JDyn(v) == CASE v.k = "map" -> JObj([i \in 1..Len(v.e) |-> JM(v.e[i].b, JDyn(v.e[i].e[1]))])
             [] v.k = "slice" -> JArr([i \in 1..Len(v.e) |-> JDyn(v.e[i])])
             [] v.k = "nil" -> JNull
             [] OTHER -> JOf(Ty(v.k), v.e[1])
=============================================================================
