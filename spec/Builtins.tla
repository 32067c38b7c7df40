------------------------------ MODULE Builtins ------------------------------
(* Generated by tools/mkbuiltins.py *)
EXTENDS Naturals, Sequences

Builtins == <<
  [n |-> <<98, 111, 111, 108>>, k |-> "bool", acc |-> {"bool"}],
  [n |-> <<115, 116, 114, 105, 110, 103>>, k |-> "str", acc |-> {"str"}],
  [n |-> <<117, 105, 110, 116, 56>>, k |-> "u8", acc |-> {"u8"}],
  [n |-> <<117, 105, 110, 116, 49, 54>>, k |-> "u16", acc |-> {"u16"}],
  [n |-> <<117, 105, 110, 116, 51, 50>>, k |-> "u32", acc |-> {"u32"}],
  [n |-> <<117, 105, 110, 116, 54, 52>>, k |-> "uint64", acc |-> {"uint64", "u64"}],
  [n |-> <<117, 105, 110, 116, 49, 50, 56>>, k |-> "uint128", acc |-> {"uint128"}],
  [n |-> <<105, 110, 116, 56>>, k |-> "i8", acc |-> {"i8"}],
  [n |-> <<105, 110, 116, 49, 54>>, k |-> "i16", acc |-> {"i16"}],
  [n |-> <<105, 110, 116, 51, 50>>, k |-> "i32", acc |-> {"i32"}],
  [n |-> <<105, 110, 116, 54, 52>>, k |-> "i64", acc |-> {"i64"}],
  [n |-> <<105, 110, 116, 49, 50, 56>>, k |-> "int128", acc |-> {"int128"}],
  [n |-> <<102, 108, 111, 97, 116, 51, 50>>, k |-> "f32", acc |-> {"f32"}],
  [n |-> <<102, 108, 111, 97, 116, 54, 52>>, k |-> "f64", acc |-> {"f64"}],
  [n |-> <<102, 108, 111, 97, 116, 49, 50, 56>>, k |-> "float128", acc |-> {"float128"}],
  [n |-> <<118, 97, 114, 117, 105, 110, 116, 51, 50>>, k |-> "vu", acc |-> {"vu"}],
  [n |-> <<118, 97, 114, 105, 110, 116, 51, 50>>, k |-> "vi", acc |-> {"vi"}],
  [n |-> <<98, 121, 116, 101, 115>>, k |-> "cbytes", acc |-> {"cbytes", "bytes"}],
  [n |-> <<97, 115, 115, 101, 116>>, k |-> "asset", acc |-> {"asset"}],
  [n |-> <<98, 108, 111, 99, 107, 95, 116, 105, 109, 101, 115, 116, 97, 109, 112, 95, 116, 121, 112, 101>>, k |-> "bts", acc |-> {"bts"}],
  [n |-> <<99, 104, 101, 99, 107, 115, 117, 109, 49, 54, 48>>, k |-> "c160", acc |-> {"c160"}],
  [n |-> <<99, 104, 101, 99, 107, 115, 117, 109, 50, 53, 54>>, k |-> "c256", acc |-> {"c256"}],
  [n |-> <<99, 104, 101, 99, 107, 115, 117, 109, 53, 49, 50>>, k |-> "c512", acc |-> {"c512"}],
  [n |-> <<101, 111, 115, 105, 111, 58, 58, 110, 97, 109, 101>>, k |-> "name", acc |-> {"name"}],
  [n |-> <<101, 120, 116, 101, 110, 100, 101, 100, 95, 97, 115, 115, 101, 116>>, k |-> "extasset", acc |-> {"extasset"}],
  [n |-> <<110, 97, 109, 101>>, k |-> "name", acc |-> {"name"}],
  [n |-> <<112, 117, 98, 108, 105, 99, 95, 107, 101, 121>>, k |-> "pubkey", acc |-> {"pubkey"}],
  [n |-> <<115, 105, 103, 110, 97, 116, 117, 114, 101>>, k |-> "sig", acc |-> {"sig"}],
  [n |-> <<115, 121, 109, 98, 111, 108, 95, 99, 111, 100, 101>>, k |-> "symcode", acc |-> {"symcode"}],
  [n |-> <<115, 121, 109, 98, 111, 108>>, k |-> "symbol", acc |-> {"symbol"}],
  [n |-> <<116, 105, 109, 101, 95, 112, 111, 105, 110, 116, 95, 115, 101, 99>>, k |-> "tps", acc |-> {"tps"}],
  [n |-> <<116, 105, 109, 101, 95, 112, 111, 105, 110, 116>>, k |-> "tp", acc |-> {"tp"}]>>
=============================================================================
