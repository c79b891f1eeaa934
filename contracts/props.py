"""Registry: which contract TUs decide which property."""
PROPS = {
 "C01": {"tus": [{"src": "C01.cpp", "entry_opts": {"prove_C01_uuid_roundtrip": {"shards": 10}}}]},
 "C02": {"tus": [{"src": "C02.cpp", "opts": {"cut": ["ron::Uuid::Uuid\\(ron::Slice\\)"]}}]},
 "C03": {"tus": [{"src": "C03.cpp", "entry_opts": {"prove_C03_text_order": {"shards": 8}}}]},
 "C04": {"tus": [{"src": "C04.cpp"}]},
 "C05": {"tus": [{"src": "C05.cpp"}]},
 "C25": {"tus": [{"src": "C25.cpp"}]},
}
PROPS.update({
 "C07": {"tus": [{"src": "C07.cpp"}]},
 "C09": {"tus": [{"src": "C09.cpp", "entry_opts": {"prove_C09_parse_any": {"shards": 10}, "prove_C09_write_parse": {"shards": 20}}}]},
 "C11": {"tus": [{"src": "C11.cpp", "entry_opts": {"prove_C11_uuid_value": {"shards": 10, "weight": 3}, "prove_C11_id": {"shards": 10}, "prove_C11_ref": {"shards": 10}, "prove_C11_int_value": {"shards": 19}, "prove_C11_char_span": {"shards": 15}, "prove_C11_string_value": {"shards": 15}, "prove_C11_two_ops": {"shards": 24}}}],
   "bounded": ["texts of up to two chars; spans of two chars, of up to 17 ops with one UUID value", "two_ops: 1152 shapes of two ops (relations of ids and references, kinds of values, terminators) with arbitrary one-digit words", "floats are not covered (printf %G / strtod are outside the contracts)"]},
 "C18": {"tus": [{"src": "C18.cpp", "opts": {"max_unroll": 400}, "entry_opts": {"prove_C18_hex_roundtrip": {"shards": 65}, "prove_C18_base64_roundtrip": {"shards": 44}, "prove_C18_bad_digit_hex": {"shards": 22}, "prove_C18_bad_digit_base64": {"shards": 22}, "prove_C18_matches": {"shards": 32}}}]},
 "C19": {"tus": [{"src": "C19.cpp"}]},
 "C17": {"tus": [{"src": "C17.cpp", "opts": {"cut": ["operator\\+="]}}]},
 "C28": {"tus": [{"src": "C28.cpp", "opts": {"cut": ["CompareOps","CompareWithCursors"]}, "entry_opts": {"prove_C28_ops": {"no_contracts": 1}, "prove_C28_ops_differ": {"no_contracts": 1}}, "contracts": {"ron::Status ron::CompareOps<.*>\\(.*\\)": "C_compare"}}],
   "assumptions": ["a frame's cursor is known by contract (contracts/ghost.h): a fixed sequence of ops; a string atom's text by its identity (ReadString by contract)"]},
})
LT = {"also": {"ron::(LastWriteWins|Meta)RDT<.*>::less_than\\(.*\\)": "C_less"}}
MERGE = {"opts": {"cut": ["MergeCursor"]}, "entry_opts": {"prove_C13_push": dict(LT, shards=7), "prove_C13_pop": dict(LT, shards=7), "prove_C13_next": LT, "prove_C13_ctor": LT},
   "contracts": {"ron::MergeCursor<.*>::push\\(.*\\)": "C_push", "ron::MergeCursor<.*>::pop\\(.*\\)": "C_pop",
      "ron::MergeCursor<.*>::Next\\(\\)": "C_next", "ron::MergeCursor<.*>::MergeCursor\\(std::vector<.*\\)": "C_ctor"}}
PROPS.update({
 "C13": {"tus": [dict(MERGE, src="C13.cpp"), dict(MERGE, src="C13m.cpp")],
   "assumptions": ["an input's cursor is known by contract: a fixed sequence of ops; Next() moves to the next one"]},
})
PROPS.update({
 "C14": {"tus": [{"src": "C14.cpp", "opts": {"cut": ["Merge"], "bv_rank": 64, "houdini_timeout": 90000}, "entry_opts": {"prove_C14_order": {"no_contracts": 1}, "prove_C14_merge": {"shards": 3}}, "contracts": {"ron::MaxRDT<.*>::Less\\(.*\\)": "C_less"}}],
   "assumptions": ["an input's cursor is known by contract (contracts/ghost.h)", "inputs are positioned at an op; a max root op has no value; floats are not NaN (the grammar has none)"]},
})
PROPS.update({
 "C24": {"tus": [{"src": "C24.cpp", "opts": {"cut": ["SplitLogIntoChains", "SkipChain"]}}],
   "assumptions": ["an input's cursor is known by contract: a fixed sequence of ops; Next() moves to the next one, data() ends where the op does"]},
})
