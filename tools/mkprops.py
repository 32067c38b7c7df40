#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here, one place."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

A, C = "pkg/abi/", "pkg/chain/"

p("C01", "Primitive values have exactly the EOSIO byte layout",
  "For every bool, fixed-width integer, float, varuint32, varint32, string and byte-string value, encoding writes exactly the EOSIO bytes (little-endian two's complement, IEEE-754 bits, minimal LEB128 varuints, zig-zag varints, length-prefixed strings and bytes), and the matching read returns the same value and consumes exactly those bytes. A number that does not fit 32 bits is refused with an error when written or read as varuint32/varint32; no value makes a read or write panic.",
  ["inputs"], "every value of every primitive type, every payload length",
  "Tests encode and decode about a dozen constants; the varint boundaries (2^7, 2^14, 2^21, 2^28, 2^32), sign edges and long payloads are never reached.",
  [A+"encode.go", A+"decode.go"],
  [("Write*/Read* primitives", A+"encode.go, "+A+"decode.go"), ("Encode/Decode built-in fast path", A+"encode.go:Encode, "+A+"decode.go:Decode")],
  observe=["bytes handed to the io.Writer", "value and reader position after the read"])

p("C02", "Composite Go values have exactly the EOSIO composite layout",
  "For every Go type built from primitives, 32/64-bit named integers, pointers, structs, slices, arrays, maps and fields tagged optional, variant or extension, encoding writes struct fields in order, a varuint32 count before slice and map elements, no count before array elements, a presence byte before optionals, an index byte before variants, and pointers as the value they point to; decoding those bytes yields an equal value. A nil pointer where a value is required, and a variant without exactly one alternative set, are encode errors. Values of other kinds (channels, functions, complex numbers, untyped nil) and decode targets that are not pointers are refused with an error.",
  ["inputs", "programs"], "every composite type of the supported grammar and every value of it",
  "Tests use five hand-written struct types; nesting, tag combinations, pointer positions and empty/one/many counts are a product space.",
  [A+"encode.go", A+"decode.go"],
  [("EncodeValue", A+"encode.go:EncodeValue"), ("DecodeValue/DecodeVariant/indirect", A+"decode.go")],
  observe=["bytes written", "decoded value"])

p("C03", "Chain objects have exactly the nodeos binary layout",
  "Names, symbols, symbol codes, assets, extended assets, 64/128-bit integers, 128-bit floats, block numbers, time points, block timestamps, checksums, byte strings, blobs, permission levels, actions, transaction headers, extensions, transactions, public keys and signatures each encode to exactly the nodeos byte layout for every value, and decoding that layout yields an equal object. Public keys and signatures carry a type byte (K1=0, R1=1, WA=2) followed by 33 resp. 65 bytes, WA adding its length-prefixed tail, and an unknown type byte is a decode error.",
  ["inputs"], "every object of every chain type",
  "Tests pin one or two objects per type; field widths, order, counts (0, 1, 127, 128...) and sign/size extremes are not covered.",
  [C+f for f in ["action.go","transaction.go","asset.go","symbol.go","name.go","numbers.go","time.go","checksum.go","bytes.go","blob.go","public_key.go","signature.go","encoding.go"]],
  [("MarshalABI/UnmarshalABI of each type", C+"*.go")], observe=["bytes written", "decoded object"])

p("C04", "Values on one stream are self-delimiting and come back in order",
  "For every sequence of values written to one writer, decoding with the same sequence of types from one reader returns the same values in the same order. Each decode consumes exactly the bytes its value's encode wrote and takes nothing from the reader beyond them (the decoder's byte count grows by exactly that), so values of different kinds and different decoders can be interleaved on one stream.",
  ["histories", "inputs"], "every sequence of typed values on one stream, with one or several encoder/decoder objects",
  "Every test encodes or decodes a single value on a fresh buffer; no test looks at the reader position afterwards.",
  [A+"encode.go", A+"decode.go", C+"encoding.go"],
  [("unbuffered exact-length reads", A+"decode.go:ReadBytes"), ("ReadVaruint via ReadByte", A+"decode.go")],
  state=[("stream position", "bytes consumed from the reader", "caller's io.Reader")], observe=["reader position after each Decode"])

p("C05", "Truncated input never decodes successfully",
  "For every type without extension fields and every value of it, decoding any proper prefix of the value's encoding returns an error. A decode that needs more bytes than the reader holds never reports success and never panics.",
  ["inputs", "fault_sequences"], "every value, every cut point of its encoding",
  "No test decodes truncated data; a cut between two fields is exactly where a swallowed error would go unnoticed.",
  [A+"decode.go"] + [C+f for f in ["action.go","transaction.go","public_key.go","signature.go","abi.go"]],
  [("io.ReadFull and error propagation in every UnmarshalABI", A+"decode.go:ReadBytes")], observe=["error result of Decode on each prefix"])

p("C06", "Hostile bytes cannot crash the decoder or make it over-allocate",
  "For every byte string and every type whose vector and map elements occupy at least one byte, decoding (typed or ABI-driven) terminates with a value or an error and never panics. Memory allocated while decoding stays proportional to the bytes actually supplied, whatever lengths or counts those bytes announce and however deep they nest.",
  ["inputs"], "arbitrary byte strings against every typed and ABI-driven decoder, in particular huge announced lengths, counts and variant indices",
  "Tests decode only well-formed data.",
  [A+"decode.go", C+"abi.go", C+"transaction.go", C+"action.go", C+"public_key.go", C+"signature.go", C+"bytes.go", C+"blob.go"],
  [("length checks before allocation", A+"decode.go:ReadBytes, DecodeValue"), ("variant index bound", C+"abi.go:decodeInner, "+A+"decode.go:DecodeVariant")],
  observe=["panic/termination", "bytes allocated"])

p("C07", "All encode and decode paths give the same result",
  "A value encodes to the same bytes whether it is passed by value or by pointer, through the chain encoder, the plain reflection encoder or a custom encoder whose function declines every type; decoding through the chain decoder, the plain reflection decoder and a declining custom decoder accepts the same inputs with the same result. A custom function that handles a type takes precedence over the built-in handling of that type wherever it occurs inside structs, slices, arrays, maps and behind pointers, and an error it returns is the error of the whole call.",
  ["inputs", "programs", "configurations"], "every type and value, every combination of path and of pass-by-value/pointer",
  "Tests exercise the chain path only (the plain path only for non-chain types) and never compare paths.",
  [C+"encoding.go", A+"encode.go", A+"decode.go"],
  [("chainEncoder/chainDecoder type switch", C+"encoding.go"), ("NewCustomEncoder/NewCustomDecoder", C+"encoding.go"), ("Marshaler/Unmarshaler detection", A+"encode.go:EncodeValue, "+A+"decode.go:indirect")],
  observe=["bytes and values per path"])

p("C08", "A failing writer is always reported and never followed by more data",
  "If the writer refuses any write while a value is being encoded (typed, ABI-driven or by a chain object's own encoding), the encode call returns a non-nil error matching the writer's. The bytes the writer accepted for that value are a prefix of its encoding: nothing is written after a failed write.",
  ["fault_sequences", "crash_points"], "every value, every write call at which the writer fails, permanently or once",
  "No test uses a failing writer.",
  [A+"encode.go", C+"action.go", C+"transaction.go", C+"abi.go", C+"asset.go", C+"public_key.go", C+"signature.go"],
  [("error propagation from every Write*", A+"encode.go, "+C+"*.go")], observe=["error returned by Encode", "bytes accepted by the writer"])

p("C09", "Reader chunking is irrelevant and reader errors always surface",
  "Decoding gives the same result however the reader splits its data: short reads, one byte at a time, empty reads, or data returned together with end-of-file. If the reader fails with an error before the value is complete, the decode call returns that error and is never taken for success or for an absent extension.",
  ["schedules", "fault_sequences", "inputs"], "every value, every way of splitting its bytes into reads, every position at which the reader fails",
  "Tests read from bytes.Reader only, which always returns everything asked for and never fails.",
  [A+"decode.go", C+"action.go", C+"transaction.go", C+"abi.go"],
  [("io.ReadFull", A+"decode.go:ReadBytes"), ("error propagation", C+"*.go")], observe=["result of Decode", "error identity"])

p("C10", "Decoding into a used variable equals decoding into a fresh one",
  "Decoding into a variable that already holds any earlier value of its type gives the same result as decoding the same bytes into a zero variable: no element, map entry, optional, variant alternative, extension or authorization of the earlier value survives. This holds for every history of earlier decodes into that variable, including failed ones.",
  ["histories", "inputs"], "every history of decodes into one variable",
  "One test reuses one struct three times; chain objects, variants, nested pointers and failed decodes in between are not covered.",
  [A+"decode.go", C+"action.go", C+"transaction.go", C+"public_key.go", C+"signature.go"],
  [("reset of slices, maps, optionals, variants", A+"decode.go:DecodeValue, DecodeVariant"), ("UnmarshalABI of composite chain types", C+"action.go, "+C+"transaction.go")],
  state=[("target variable", "contents left by earlier decodes", "caller")], observe=["value after each Decode"])

p("C11", "Encoding is repeatable and no call modifies or aliases its input",
  "Encoding the same value again, in any process and after any other calls, gives the same bytes; maps with integer, bool or string keys are written in ascending key order. Encoding never changes the value, decoding and text parsing never change the bytes they are given nor anything behind them, and a decoded value shares no memory with its input nor with any other decoded value: what its owner does to it shows nowhere else, and in no later call.",
  ["histories", "inputs"], "every value, repeated encodes, every input buffer layout (spare capacity, shared arrays)",
  "Go randomises map iteration, so a single comparison per test cannot show order stability; no test inspects buffers after a call.",
  [A+"encode.go", A+"decode.go", C+"blob.go", C+"bytes.go", "pkg/base58/base58check.go"],
  [("ordered map encoding", A+"encode.go:EncodeValue"), ("fresh buffers", A+"decode.go:ReadBytes, "+C+"blob.go:UnmarshalText")],
  observe=["bytes of repeated encodes", "input buffers including spare capacity", "other decoded values after one was changed"])

p("C12", "ABI-driven decoding follows the schema exactly",
  "For every ABI definition, type name and byte string, decoding by type or by action name yields exactly the value the schema prescribes: struct fields in order with the base struct's fields first, arrays, optionals, aliases and variants as [type name, value], each built-in type as its Go type. Input that the schema does not admit (truncated, variant index out of range, unknown type or action) is an error.",
  ["inputs", "programs"], "every ABI definition, every type in it, every byte string",
  "Two tests decode one action of one ABI.",
  [C+"abi.go", C+"action.go"],
  [("resolver.resolve/allFields", C+"abi.go"), ("decodeType/decodeInner", C+"abi.go"), ("DecodeAction", C+"abi.go"), ("Action.Decode", C+"action.go")],
  observe=["decoded interface{} tree", "reader position"])

p("C13", "ABI-driven encoding is exact and inverse to decoding",
  "For every ABI definition and type, encoding a value of the schema's shape writes exactly the bytes the schema prescribes. Whatever ABI-driven decoding returns is accepted by ABI-driven encoding under the same type and reproduces the canonical bytes, and encoding then decoding returns the same value.",
  ["inputs", "programs"], "every ABI definition, every type in it (all built-ins), every value",
  "Tests round-trip one value of one type using four of the thirty built-ins.",
  [C+"abi.go"],
  [("encodeType/encodeInner", C+"abi.go"), ("EncodeAction", C+"abi.go")], observe=["bytes written", "re-decoded value"])

p("C14", "Every ABI definition resolves or is reported, never crashes or hangs",
  "Type names resolve by stripping the extension ($), optional (?) and array ([]) suffixes in that order, then looking up structs, variants, aliases and built-ins, for names of any length including one character and for structs without fields. Undefined, empty, malformed or cyclic definitions (alias cycles, base cycles, structs containing themselves) make encoding and decoding return an error; they never panic, hang or overflow the stack.",
  ["programs", "inputs"], "every ABI definition, well-formed or not",
  "Tests use two well-formed ABIs with long type names and non-empty structs.",
  [C+"abi.go"],
  [("resolver.resolve", C+"abi.go"), ("allFields cycle guard", C+"abi.go"), ("recursion bound in decodeType/encodeType", C+"abi.go")],
  observe=["error/value/panic per definition"])

p("C15", "ABI-driven encoding rejects values that do not fit the schema",
  "For every schema type and every Go value whose shape does not match it (wrong dynamic type, missing or nil required field, wrong variant name or arity, non-list for an array), ABI-driven encoding returns an error and does not panic. It never reports success for such a value.",
  ["inputs", "programs"], "every (schema type, mismatching value) pair, at any depth",
  "No test passes a mismatching value.",
  [C+"abi.go"], [("type assertions in encodeType/encodeInner", C+"abi.go")], observe=["error result"])

p("C16", "Trailing binary extensions may be absent, and only when nothing is left",
  "A trailing extension field (typed tag or $ suffix) decodes as absent (zero value, or no entry in an ABI-decoded map) exactly when the input ends before its first byte; input that ends inside an extension is an error. An absent extension (a nil pointer, or no entry) encodes to nothing, and encoding a present field after an absent extension is an error, so a value decoded with absent pointer or ABI extensions re-encodes to the bytes it came from.",
  ["inputs", "fault_sequences"], "every struct with trailing extensions, every cut point",
  "No test decodes or encodes an extension.",
  [A+"decode.go", A+"encode.go", C+"abi.go"],
  [("extension tag in DecodeValue/EncodeValue", A+"decode.go, "+A+"encode.go"), ("isExtension in decodeType/encodeType", C+"abi.go")],
  observe=["decoded value or error per cut point", "re-encoded bytes"])

p("C17", "ABI definition documents survive binary and JSON transport",
  "Every ABI definition encodes to the nodeos abi_def layout (version, types, structs, actions, tables, ricardian clauses, error messages, extensions, trailing variants) and decodes back equal; data from before variants existed decodes with no variants. Its JSON form uses the nodeos field names and parses back to an equal definition, and lookups by name return the first matching entry or nothing.",
  ["inputs"], "every ABI definition document",
  "No test encodes an ABI definition to binary or compares its JSON.",
  [C+"abi.go"], [("Abi struct layout and tags", C+"abi.go"), ("GetTable/GetAction/GetStruct/GetType/GetVariant", C+"abi.go")],
  observe=["bytes", "JSON tree", "lookup results"])

p("C18", "Names and 64-bit values correspond one to one through text",
  "For every 64-bit value, the name's text uses only [.1-5a-z], has at most 13 characters, no trailing dot, and parses back to the same value. For every valid name string (at most 12 characters of the alphabet, optionally a 13th of [.1-5a-j]) the parsed value is the EOSIO base-32 packing and prints back without trailing dots; other characters count as dots and text after the 13th character is ignored.",
  ["inputs"], "every 64-bit value and every string",
  "FuzzName checks the alphabet of its seed strings only; six constants are compared.",
  [C+"name.go"], [("stringToName/nameToString/charToSymbol", C+"name.go")], observe=["NewName/N/String/MarshalText/UnmarshalText"])

p("C19", "Assets and symbols print and parse exactly",
  "Every asset prints as its exact decimal value with exactly its symbol's number of decimals, including negative, extreme (int64 minimum) and zero amounts, and parsing that text returns the same asset for every valid symbol (1-7 letters A-Z, precision 0-18). Text that is malformed, out of int64 range, has over 18 decimals or a symbol with other characters or over 7 letters is rejected, accepted text is never rounded, rejected text leaves the variable unchanged, an asset's float value is the double nearest to it, and printing never panics whatever symbol was decoded from the wire.",
  ["inputs"], "every int64 amount, every 64-bit symbol, every string",
  "Tests cover seven strings; extreme amounts and wire-supplied precisions are not reached.",
  [C+"asset.go", C+"symbol.go"],
  [("NewAssetFromString/String", C+"asset.go"), ("NewSymbolFromString/rawSymbolValue/Precision", C+"symbol.go")],
  observe=["String, Decimals, Precision, Name, Code, parse results"])

p("C20", "Wide integers convert exactly between binary, text and JSON",
  "Unsigned and signed 128-bit integers print as their exact decimal value and parse back to the same value over their whole range; text outside the range or not a decimal integer is rejected and leaves the variable unchanged, and no big integer outside the range is turned into one. 64-bit integers and block numbers appear in JSON as numbers up to 2^32-1 and as decimal strings above, and both forms parse back to the same value; out-of-range or malformed JSON is rejected. A block number's text is its ten-digit zero-padded decimal.",
  ["inputs"], "every 128-bit, 64-bit and 32-bit value, every text",
  "Tests cover eleven constants; the range ends and out-of-range text are not reached.",
  [C+"numbers.go"], [("NewInt128/NewUint128/BigInt", C+"numbers.go"), ("readUintJSON/writeUintJSON", C+"numbers.go")],
  observe=["String/MarshalText/UnmarshalText/MarshalJSON/UnmarshalJSON"])

p("C21", "Timestamps print and parse exactly in UTC",
  "Every time point (in years 1-9999), time point in seconds and block timestamp prints as the UTC calendar time nodeos prints (milliseconds, seconds, half-second slots since 2000-01-01), regardless of the local time zone, and parses back to the same value at that resolution. Calendar text that does not name a real date and time, or that the type cannot represent, is rejected rather than wrapped and leaves the variable unchanged; a trailing Z is accepted. Converting to time.Time and back is exact.",
  ["inputs", "configurations"], "every timestamp value, every well-formed or ill-formed date text, every local time zone",
  "Tests print and parse seven constants in the test machine's zone.",
  [C+"time.go"], [("New*FromString/String/Time", C+"time.go")], observe=["String and parse results under several TZ settings"])

p("C22", "Hex and base64 text forms are exact and strict",
  "Byte strings and checksums and 128-bit floats print as lower-case hex, blobs as padded base64, and each parses back to the same bytes; base64 missing some or all of its padding is accepted. Text that is not hex/base64 or has the wrong length for a fixed-size type is rejected with an error and leaves the variable unchanged, without panicking.",
  ["inputs", "histories"], "every byte string of every length, every text",
  "Tests cover one value per type and no invalid text.",
  [C+"bytes.go", C+"blob.go", C+"checksum.go", C+"numbers.go"],
  [("UnmarshalText/MarshalText", C+"bytes.go, "+C+"blob.go, "+C+"checksum.go, "+C+"numbers.go")], observe=["text results and target variable"])

p("C23", "Base58 is an exact bijection on byte strings",
  "For every byte string, base58 encoding is its base-58 numeral with one leading 1 per leading zero byte, and decoding returns the original bytes, for every length. Decoding any string that contains a character outside the alphabet, including non-ASCII text, returns an empty result and never panics.",
  ["inputs"], "every byte string and every string",
  "Tests use two dozen constants, all invalid ones being ASCII.",
  ["pkg/base58/base58.go", "pkg/base58/alphabet.go"], [("Encode/Decode 10-digit chunking", "pkg/base58/base58.go"), ("b58 table", "pkg/base58/alphabet.go")],
  observe=["Encode/Decode results"])

p("C24", "Checked base58 verifies its checksum on every decode",
  "Checked encoding appends the first four bytes of double SHA-256, or of RIPEMD-160 over payload followed by the suffix, and base58-encodes the result; checked decoding returns exactly the payload for such a string. A string whose decoded bytes are fewer than four or whose last four bytes are not the checksum of the rest (any corrupted character, other suffix, other checksum kind) is rejected with an error.",
  ["inputs", "fault_sequences"], "every payload, suffix and corruption",
  "Tests decode four constants, one of them corrupt.",
  ["pkg/base58/base58check.go"], [("checksum/checksumEosio/CheckDecode/CheckDecodeEosio", "pkg/base58/base58check.go")], observe=["results and errors"])

p("C25", "Public keys and signatures convert exactly between binary and text",
  "Every public key and signature prints as PUB_/SIG_ plus key type (K1, R1, WA), underscore and checked base58 of its data, and parses back equal; compressed K1 keys (first byte 02 or 03) also parse from and print to the legacy prefix form with its suffix-less RIPEMD checksum. Text with a wrong prefix, type, separator, checksum or data length is rejected with an error, leaves the variable unchanged and never panics; the JSON form is the same text for values and pointers alike.",
  ["inputs"], "every key and signature of every type, every string",
  "Tests cover one K1 and one WA object each; R1, legacy text and invalid text are not covered.",
  [C+"public_key.go", C+"signature.go", C+"key_type.go"],
  [("NewPublicKeyFromString/String/LegacyString", C+"public_key.go"), ("NewSignatureString/String/MarshalText", C+"signature.go"), ("KeyType.String", C+"key_type.go")],
  observe=["text, JSON, parse results"])

p("C26", "RIPEMD-160 digests depend only on the bytes written since the last reset",
  "For every history of Write, Sum and Reset calls on a hash object, Sum appends the RIPEMD-160 digest of the concatenation of everything written since the last Reset to its argument, however the data was split into writes. Sum does not disturb the running state, Write reports the full length and no error, and distinct hash objects do not influence each other.",
  ["histories", "inputs"], "every history of Write/Sum/Reset with every split and total length",
  "Tests hash nine messages with at most one split point.",
  ["pkg/ripemd160/ripemd160.go", "pkg/ripemd160/ripemd160block.go"],
  [("digest buffering in Write", "pkg/ripemd160/ripemd160.go"), ("padding in Sum", "pkg/ripemd160/ripemd160.go"), ("_Block", "pkg/ripemd160/ripemd160block.go")],
  state=[("digest.s, x, nx, tc", "chaining value, partial block, its fill, total count", "pkg/ripemd160/ripemd160.go")], observe=["Sum results per history"])

p("C27", "Content digests identify exactly the serialized content",
  "The 160/256/512-bit checksum digests are RIPEMD-160, SHA-256 and SHA-512 of exactly the given bytes for every message length. An action's digest is the SHA-256 of its binary encoding, so it does not change the action and changes whenever account, name, authorization list or data change.",
  ["inputs"], "every message and every action",
  "Tests hash one message per digest and never an action.",
  [C+"checksum.go", C+"action.go"], [("Checksum*Digest", C+"checksum.go"), ("Action.Digest", C+"action.go")], observe=["digests"])

p("C28", "Chain objects have the nodeos JSON form and survive JSON transport",
  "Actions, transactions, headers, extensions, permission levels, extended assets and every scalar chain type marshal to JSON with the nodeos field names and textual forms, as values, pointers, struct fields, slice elements or members of an ABI-decoded tree. Unmarshalling that JSON, with members in any order and with arbitrary whitespace, yields an equal object.",
  ["inputs"], "every chain object, every JSON layout of it",
  "Tests marshal one object per type.",
  [C+f for f in ["action.go","transaction.go","asset.go","symbol.go","name.go","numbers.go","time.go","checksum.go","bytes.go","blob.go","public_key.go","signature.go"]],
  [("json tags and MarshalText/MarshalJSON methods", C+"*.go")], observe=["JSON tree", "unmarshalled object"])

p("C29", "Generated encoders behave like the reflection encoder",
  "For every struct of supported field kinds (a primitive or a type with its own binary encoding, alone or as element of one slice, fixed array, pointer or optional pointer), the generated source compiles, and the generated methods write the same bytes, accept the same input and yield the same value as the reflection codec does for that struct. A nil required pointer is an encode error, and an absent optional decodes to nil even into a used variable.",
  ["programs", "inputs"], "every struct type of the supported grammar and every value of it",
  "The code generator has no tests.",
  ["pkg/codegen/codegen.go"], [("GenUnmarshalFn and its templates", "pkg/codegen/codegen.go")], observe=["compiler result", "bytes and values of the generated methods"])

p("C30", "Concurrent use of independent objects does not interfere",
  "Any number of goroutines may encode, decode, hash, parse and print at the same time, each with its own encoder, decoder, hash object and target, while sharing ABI definitions, types and input values read-only. Every call returns what it returns when run alone, and no schedule has a data race.",
  ["schedules", "histories"], "every interleaving of calls from several goroutines sharing an ABI definition and input values",
  "All tests are single-threaded.",
  [C+"abi.go", A+"encode.go", A+"decode.go", "pkg/base58/base58.go", "pkg/ripemd160/ripemd160.go"],
  [("per-call resolver, encoder and decoder state", C+"abi.go:Decode, Encode"), ("read-only package tables", "pkg/base58/base58.go, pkg/base58/alphabet.go, "+C+"name.go")],
  observe=["results per goroutine", "race detector"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
