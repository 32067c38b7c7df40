------------------------------- MODULE JNames -------------------------------
(* Generated by tools/mkjson.py *)
EXTENDS Naturals, Sequences

JN == [
  actor |-> <<97, 99, 116, 111, 114>>,
  permission |-> <<112, 101, 114, 109, 105, 115, 115, 105, 111, 110>>,
  account |-> <<97, 99, 99, 111, 117, 110, 116>>,
  name |-> <<110, 97, 109, 101>>,
  authorization |-> <<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>,
  data |-> <<100, 97, 116, 97>>,
  expiration |-> <<101, 120, 112, 105, 114, 97, 116, 105, 111, 110>>,
  ref_block_num |-> <<114, 101, 102, 95, 98, 108, 111, 99, 107, 95, 110, 117, 109>>,
  ref_block_prefix |-> <<114, 101, 102, 95, 98, 108, 111, 99, 107, 95, 112, 114, 101, 102, 105, 120>>,
  max_net_usage_words |-> <<109, 97, 120, 95, 110, 101, 116, 95, 117, 115, 97, 103, 101, 95, 119, 111, 114, 100, 115>>,
  max_cpu_usage_ms |-> <<109, 97, 120, 95, 99, 112, 117, 95, 117, 115, 97, 103, 101, 95, 109, 115>>,
  delay_sec |-> <<100, 101, 108, 97, 121, 95, 115, 101, 99>>,
  type |-> <<116, 121, 112, 101>>,
  context_free_actions |-> <<99, 111, 110, 116, 101, 120, 116, 95, 102, 114, 101, 101, 95, 97, 99, 116, 105, 111, 110, 115>>,
  actions |-> <<97, 99, 116, 105, 111, 110, 115>>,
  transaction_extensions |-> <<116, 114, 97, 110, 115, 97, 99, 116, 105, 111, 110, 95, 101, 120, 116, 101, 110, 115, 105, 111, 110, 115>>,
  quantity |-> <<113, 117, 97, 110, 116, 105, 116, 121>>,
  contract |-> <<99, 111, 110, 116, 114, 97, 99, 116>>,
  version |-> <<118, 101, 114, 115, 105, 111, 110>>,
  types |-> <<116, 121, 112, 101, 115>>,
  structs |-> <<115, 116, 114, 117, 99, 116, 115>>,
  tables |-> <<116, 97, 98, 108, 101, 115>>,
  ricardian_clauses |-> <<114, 105, 99, 97, 114, 100, 105, 97, 110, 95, 99, 108, 97, 117, 115, 101, 115>>,
  error_messages |-> <<101, 114, 114, 111, 114, 95, 109, 101, 115, 115, 97, 103, 101, 115>>,
  abi_extensions |-> <<97, 98, 105, 95, 101, 120, 116, 101, 110, 115, 105, 111, 110, 115>>,
  variants |-> <<118, 97, 114, 105, 97, 110, 116, 115>>,
  new_type_name |-> <<110, 101, 119, 95, 116, 121, 112, 101, 95, 110, 97, 109, 101>>,
  base |-> <<98, 97, 115, 101>>,
  fields |-> <<102, 105, 101, 108, 100, 115>>,
  ricardian_contract |-> <<114, 105, 99, 97, 114, 100, 105, 97, 110, 95, 99, 111, 110, 116, 114, 97, 99, 116>>,
  index_type |-> <<105, 110, 100, 101, 120, 95, 116, 121, 112, 101>>,
  key_names |-> <<107, 101, 121, 95, 110, 97, 109, 101, 115>>,
  key_types |-> <<107, 101, 121, 95, 116, 121, 112, 101, 115>>,
  id |-> <<105, 100>>,
  body |-> <<98, 111, 100, 121>>,
  error_code |-> <<101, 114, 114, 111, 114, 95, 99, 111, 100, 101>>,
  error_msg |-> <<101, 114, 114, 111, 114, 95, 109, 115, 103>>]
=============================================================================
