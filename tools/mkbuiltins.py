#!/usr/bin/env python3
"""Writes spec/Builtins.tla: the built-in ABI types (names as character codes), the kind each decodes to and the kinds encoding accepts."""
import os
B = [("bool", "bool"), ("string", "str"), ("uint8", "u8"), ("uint16", "u16"), ("uint32", "u32"), ("uint64", "uint64", "u64"), ("uint128", "uint128"),
     ("int8", "i8"), ("int16", "i16"), ("int32", "i32"), ("int64", "i64"), ("int128", "int128"), ("float32", "f32"), ("float64", "f64"), ("float128", "float128"),
     ("varuint32", "vu"), ("varint32", "vi"), ("bytes", "cbytes", "bytes"), ("asset", "asset"), ("block_timestamp_type", "bts"),
     ("checksum160", "c160"), ("checksum256", "c256"), ("checksum512", "c512"), ("eosio::name", "name"), ("extended_asset", "extasset"), ("name", "name"),
     ("public_key", "pubkey"), ("signature", "sig"), ("symbol_code", "symcode"), ("symbol", "symbol"), ("time_point_sec", "tps"), ("time_point", "tp")]
s = "------------------------------ MODULE Builtins ------------------------------\n(* Generated by tools/mkbuiltins.py *)\nEXTENDS Naturals, Sequences\n\nBuiltins == <<\n"
rows = []
for b in B:
    rows.append('  [n |-> <<%s>>, k |-> "%s", acc |-> {%s}]' % (", ".join(str(ord(c)) for c in b[0]), b[1], ", ".join('"%s"' % x for x in b[1:])))
s += ",\n".join(rows) + ">>\n=============================================================================\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Builtins.tla"), "w").write(s)
