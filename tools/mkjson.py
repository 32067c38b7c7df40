#!/usr/bin/env python3
"""Writes spec/JNames.tla: the nodeos JSON member names as character codes."""
import os
N = "actor permission account name authorization data expiration ref_block_num ref_block_prefix max_net_usage_words max_cpu_usage_ms delay_sec type " \
    "context_free_actions actions transaction_extensions quantity contract version types structs tables ricardian_clauses error_messages abi_extensions variants " \
    "new_type_name base fields ricardian_contract index_type key_names key_types id body error_code error_msg".split()
s = "------------------------------- MODULE JNames -------------------------------\n(* Generated by tools/mkjson.py *)\nEXTENDS Naturals, Sequences\n\nJN == [\n"
s += ",\n".join("  %s |-> <<%s>>" % (n, ", ".join(str(ord(c)) for c in n)) for n in N)
s += "]\n=============================================================================\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "JNames.tla"), "w").write(s)
