#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

B = "binschema/src/"
VL, EN, DE, CO, CA = B + "var_len.rs", B + "encoder.rs", B + "decoder.rs", B + "coder/coder.rs", B + "coder/coder_alloc.rs"
SC, ER, VA, KS, SER, SDE = B + "schema.rs", B + "error.rs", B + "value.rs", B + "known_schema.rs", B + "serde/ser.rs", B + "serde/de.rs"
DR, FMT, MOD, DOIF = "binschema_derive/src/lib.rs", "FORMAT.txt", B + "serde/mod.rs", B + "do_if_err.rs"

STACK = [{"name": "coding stack", "meaning": "which part of the schema is being coded, and which schema node is needed next",
          "where": CO + " CoderState"}]


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": mech, "hook_needed": None}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=anchors))


prop("C01", "Unsigned var-len integers and lengths code exactly as the format says",
     "Every 32, 64 and 128-bit unsigned integer and every sequence length is encoded as the documented little-endian "
     "base-128 byte string, and decoding yields the same number and consumes exactly those bytes. Any other byte "
     "string is reported as malformed (or, if it is cut off, as an I/O error) rather than decoded to a wrong number: a "
     "number that does not fit the type, or does not fit 128 bits, is never silently truncated.",
     ["inputs"], "every value of each width; every byte string given to the decoder",
     "The unit tests sample a few values per width and never feed the decoder bytes the encoder did not write; "
     "boundaries, overlong, overflowing and truncated inputs are not touched.",
     [VL, EN, DE, FMT], m(("write_var_len_uint / read_var_len_uint", VL), ("narrowing to the schema's width", DE + " decode_var_len_uint!"),
                          ("length reading", DE + " read_len")),
     observe=["Encoder::encode_u32/u64/u128", "Decoder::decode_u32/u64/u128", "begin_var_len_seq"])
prop("C02", "Signed var-len integers code exactly as the format says",
     "Every 32, 64 and 128-bit signed integer is encoded as the documented sign-and-base-128 byte string, and decoding "
     "yields the same number and consumes exactly those bytes. Any byte string that denotes no number of the type is "
     "reported as malformed (or, if cut off, as an I/O error), never decoded to a different number.",
     ["inputs"], "every value of each width including the most negative one; every byte string given to the decoder",
     "The unit tests sample a few positive and negative values; the extremes of each width and hostile inputs "
     "are not touched.",
     [VL, EN, DE, FMT], m(("write_var_len_sint / read_var_len_sint", VL), ("narrowing to the schema's width", DE + " decode_var_len_sint!")),
     observe=["Encoder::encode_i32/i64/i128", "Decoder::decode_i32/i64/i128"])
prop("C03", "Enum ordinals take the documented width and range",
     "A variant ordinal is written little-endian in as many bytes as the largest ordinal of that enum needs (none for "
     "an enum of one variant), and decodes to the same ordinal. An ordinal outside the enum is refused by the encoder "
     "without writing anything and reported as malformed by the decoder, and a variant is accepted only under its own name.",
     ["inputs"], "every number of variants around the width boundaries, every ordinal, name and encoded ordinal",
     "The tests use enums of two to four variants, always with valid ordinals: other widths and rejected ordinals are never reached.",
     [VL, CO, EN, DE, FMT], m(("ord_byte_len, write_ord, read_ord", VL), ("begin_enum, begin_enum_variant_ord/name, cancel_enum", CO)),
     state=STACK, observe=["Encoder::begin_enum", "Decoder::begin_enum", "begin_enum_variant"])
prop("C04", "Fixed-size scalars, chars, bools and unit code exactly as documented",
     "Every 8 and 16-bit integer, float, char, bool and unit value is encoded as the documented bytes and decodes to the "
     "same value (floats: the same bits). Bytes that denote no value of the type (a bool other than 0 and 1, a number "
     "that is no Unicode scalar value) are reported as malformed, and a cut-off value as an I/O error.",
     ["inputs"], "every value of each type; every byte string given to the decoder",
     "The tests code a few fixed values of some of the types and feed the decoder nothing malformed.",
     [EN, DE, FMT], m(("encode_le_bytes!, encode_char, encode_bool", EN), ("decode_le_bytes!, decode_char, decode_bool", DE)),
     observe=["Encoder::encode_*", "Decoder::decode_*"])
prop("C05", "Strings and byte strings code as a length and their exact content",
     "A string or byte string is encoded as its length and then exactly its bytes, and decodes to the same content, "
     "consuming exactly those bytes. Content that is not valid UTF-8 is reported as malformed for a string, and a "
     "string shorter than its length as an I/O error; the result never contains bytes that were not in the input.",
     ["inputs"], "every content within the bound, lengths around the length-encoding boundaries, every byte string given to the decoder",
     "The tests code a handful of short ASCII strings and feed the decoder nothing malformed.",
     [EN, DE, FMT], m(("encode_str, encode_bytes", EN), ("read_len, read_into, decode_str, decode_bytes", DE)),
     observe=["Encoder::encode_str/encode_bytes", "Decoder::decode_str/decode_bytes"])
prop("C06", "The encoder accepts exactly the traversals its schema allows",
     "A sequence of encoder calls is accepted if and only if it is a traversal of a value of the schema, in schema "
     "order with the schema's lengths, names and ordinals; the bytes it writes are exactly that value's encoding. Every "
     "other call is refused with an error, and the encoder reports being finished exactly when one whole value was encoded.",
     ["histories", "inputs"], "every sequence of calls, with every argument, on each schema",
     "The tests drive only conforming traversals of four schemas; what happens at each of the states if any other "
     "call is made is not sampled at all.",
     [EN, CO, FMT], m(("validate_top!, validate_need_eq!, push_need, pop", CO), ("encode_*, begin_*, finish_*", EN)),
     state=STACK, observe=["Encoder's methods", "CoderState::is_finished", "bytes written"])
prop("C07", "The decoder accepts exactly the traversals and bytes its schema allows",
     "A sequence of decoder calls on an input is accepted if and only if it is a traversal of a value of the schema "
     "which the input encodes; it then returns exactly that value's parts and consumes exactly its bytes. Every other "
     "call is refused and every other input reported, and the decoder reports being finished exactly when one whole value was decoded.",
     ["histories", "inputs"], "every sequence of calls and every input on each schema",
     "The tests drive only conforming traversals over bytes that the encoder just wrote.",
     [DE, CO, FMT], m(("validate_top!, validate_need_eq!, push_need, pop", CO), ("decode_*, begin_*, finish_*", DE)),
     state=STACK, observe=["Decoder's methods", "CoderState::is_finished", "bytes consumed"])
prop("C08", "A refused call leaves no trace; a failed one stops the coder for good",
     "A call refused because the schema does not allow it there writes nothing, consumes nothing and changes nothing: "
     "the traversal goes on as if it had not been made. After an error from the stream, malformed data or an illegal "
     "schema, every later call is refused and nothing more is written or consumed.",
     ["histories", "inputs"], "every history of right, wrong and failing calls, in any order",
     "No test makes a call that is refused, let alone goes on after one.",
     [CO, EN, DE, DOIF], m(("validation before mutation", CO + " validate_*!"), ("mark_broken on failure", DOIF + "; " + EN + "; " + DE),
                           ("cancel_enum", CO)), state=STACK, observe=["results of every later call", "bytes written or consumed"])
prop("C09", "Hostile bytes neither crash, hang, nor exhaust memory",
     "Decoding any byte string whatsoever under a legal schema, as a dynamic value, a serde type, into a buffer or as a "
     "schema, ends with a value or an error. It never panics, never loops without consuming input, and never allocates "
     "memory out of proportion to the input actually read, whatever lengths the input claims.",
     ["inputs"], "every byte string, including claimed lengths up to and beyond the address space",
     "The tests decode only bytes just encoded from small values.",
     [DE, VA, SDE, CO], m(("chunked reading", DE + " read_into"), ("bounded preallocation", VA + " decode_from"),
                          ("length hints", SDE + " size_hint")),
     observe=["results", "panics", "allocation sizes"])
prop("C10", "A recursion stands for the schema that many levels up the schema",
     "Wherever a schema recurses a given number of levels, coding behaves exactly as if the schema node that many levels "
     "up in the schema stood there, however deep the value already is and however it was reached, for recursions "
     "through every constructor, to the direct parent, the root or anything between.",
     ["configurations", "inputs"], "every nesting of constructors around every level of recursion, every value and traversal",
     "The tests have one recursive schema (a binary tree, two levels) and the meta-schema; other levels and nestings, and "
     "recursion reached through recursion, are not sampled.",
     [CO, SC, FMT], m(("static resolution of recurse levels", CO + " push_need"), ("frames remember their schema level", CO + " StackFrame")),
     state=STACK, observe=["accepted traversals", "bytes"])
prop("C11", "A recursion that leads nowhere is reported, never followed",
     "A recursion of zero levels, beyond the root, or standing for another recursion is reported as an illegal schema "
     "as soon as coding reaches it, by every operation, and breaks the coder. It never panics, loops or reads outside "
     "the schema, and the rest of such a schema is usable as long as the recursion is not reached.",
     ["configurations", "inputs"], "every level (including the largest) at every place of a schema, every traversal and value",
     "The tests contain no illegal schema.",
     [CO, VA, SER, SDE], m(("legality checks", CO + " push_need"), ("root check", CO + " CoderState::new / first call")),
     state=STACK, observe=["ErrorKind::IllegalSchema", "panics"])
prop("C12", "Every dynamic value round-trips",
     "Encoding any dynamic value that conforms to a schema succeeds, writes exactly the bytes the format prescribes, and "
     "decoding them under the schema gives back an equal value, consuming all of them and finishing both coders.",
     ["inputs", "configurations"], "every conforming value within the bound under every schema shape, and long sequences, strings and recursions",
     "The tests round-trip four hand-written values.",
     [VA, EN, DE, CO, FMT], m(("Value::encode_to", VA), ("Value::decode_from", VA)),
     observe=["Value::encode_to", "Value::decode_from"])
prop("C13", "Bytes and values are judged exactly by the documented format",
     "Decoding arbitrary bytes as a dynamic value succeeds if and only if the documented format assigns a value to a "
     "prefix of them, with that value and that prefix; otherwise it reports malformed data or the end of input, as the case may be. "
     "Encoding an arbitrary dynamic value succeeds if and only if it conforms to the schema.",
     ["inputs", "configurations"], "every byte string and every dynamic value, conforming or not, under every schema shape",
     "The tests give the decoder only valid bytes and the encoder only conforming values.",
     [VA, DE, EN, CO, FMT], m(("Value::decode_from / encode_to", VA), ("decode_*", DE)),
     observe=["Value::encode_to", "Value::decode_from"])
prop("C14", "Serde types round-trip through their schemas",
     "Serializing any value of a type with a serde implementation under a schema that describes the type succeeds, writes "
     "the same bytes as the equivalent dynamic value, and deserializes to an equal value, consuming all of them and "
     "finishing both coders. Bytes that are no encoding of a value of the type give an error, never a value.",
     ["inputs", "programs"], "every value within the bound of types covering serde's whole data model; every input",
     "The tests serialize three values of two types.",
     [SER, SDE, EN, DE], m(("impl Serializer", SER), ("impl Deserializer and accesses", SDE)),
     observe=["Serialize::serialize", "Deserialize::deserialize"])
prop("C15", "The schemas of standard types fit the types' serde implementations",
     "For every standard-library type the library gives a schema to, that schema is the documented one, and every value "
     "of the type serializes under it and deserializes to an equal value, also when such types are nested in one another.",
     ["inputs", "programs"], "every such type, every value within the bound",
     "The tests use the schemas of four of the some forty types.",
     [KS, SER, SDE], m(("KnownSchema implementations", KS)), observe=["KnownSchema::schema", "round trips"])
prop("C16", "Derived schemas fit the types they are derived for",
     "The schema derived for a struct or enum has its fields and variants in order under the names serde uses, and every "
     "value of the type serializes under it and deserializes to an equal value, whatever the kinds of fields and "
     "variants and however the type refers to itself directly or through other types.",
     ["inputs", "programs"], "type definitions covering every kind of item and recursion, every value within the bound",
     "The tests derive the schema of two types, one of them recursive.",
     [DR, KS, CO], m(("field_schema, fields_schema, derive_known_schema", DR), ("RecurseStack", KS)),
     observe=["KnownSchema::schema", "round trips"])
prop("C17", "Schemas round-trip as messages of their own published schema",
     "Every schema serializes under the published schema of schemas and deserializes to an equal schema, including the "
     "published one itself. Bytes that encode no schema give an error.",
     ["inputs"], "every schema within the bound, every input",
     "The tests round-trip one schema (the schema of schemas).",
     [SC, KS, SER, SDE], m(("KnownSchema for Schema", KS), ("serde derives of Schema", SC)), observe=["round trips", "errors"])
prop("C18", "Reusing a coder's allocation changes nothing and leaks nothing",
     "A coder built from the allocation of an earlier one, wherever that one stopped, behaves exactly like one built "
     "afresh, also with another schema, and so does one built from a clone. Nothing is leaked, freed twice or used after being freed.",
     ["histories", "inputs"], "every state in which the first coder is abandoned, every following message, pairs of schemas",
     "No test reuses an allocation.",
     [CA, CO], m(("from_stack, into_stack, Drop", CA), ("into_alloc", CO)),
     state=[{"name": "allocation", "meaning": "the stack's buffer kept between coders", "where": CA}],
     observe=["behaviour of the second coder", "heap"])
prop("C19", "A stream failing or ending anywhere gives its error and a broken coder",
     "If the stream fails or ends after any number of bytes less than the message needs, coding reports an I/O error "
     "carrying the stream's own error, having written or consumed only a prefix of the message. The coder is not finished and refuses "
     "every further call.",
     ["fault_sequences", "inputs"], "every point of failure of every message within the bound, several kinds of failure",
     "The tests use streams that never fail.",
     [EN, DE, VL, DOIF, ER], m(("error conversion", ER + " From<io::Error>"), ("mark_broken on failure", DOIF)),
     observe=["Error kind and source", "bytes", "later calls"])
prop("C20", "Debug logging never changes what is coded",
     "With a debug log attached, working or failing, every operation gives the same result, bytes and coder state as "
     "without, and never panics.",
     ["inputs", "fault_sequences", "histories"], "every value, input and call sequence within the bound; a log that works, or fails at any point",
     "The tests attach no debug log, except one that discards.",
     [CO], m(("dbg_log!, dbg_log_push!, dbg_log_pop!", CO)), observe=["results and bytes with and without a log"])
prop("C21", "Messages are self-delimiting and can follow one another in a stream",
     "Messages written one after another into a stream are read back one after another, each from exactly where the "
     "previous one ended, whatever follows. In particular a schema can be sent first and its value decoded with the schema received.",
     ["inputs", "histories"], "sequences of messages of every pair of schemas, every value within the bound",
     "The tests put a single message into each stream.",
     [EN, DE, VA], m(("no read-ahead", DE + " read"), ("is_finished", CO)), observe=["stream position after each message"])
prop("C22", "Schemas, errors and coders render without failing, and faithfully",
     "Rendering any schema, error or coder state as text succeeds, for legal and illegal schemas alike. A rendered schema has one "
     "line for each of its nodes, in order and under the names in the schema, and connects each legal recursion to the "
     "node it stands for; an error names its kind.",
     ["inputs", "configurations"], "every schema, name and error within the bound",
     "The tests print four schemas without looking at the result.",
     [SC, ER, CO], m(("inner_pretty_fmt", SC), ("Display for Error", ER), ("Debug for CoderState", CO)),
     observe=["pretty_fmt", "Display", "Debug"])
prop("C23", "Values can be decoded without knowing their type",
     "Deserializing under a schema without naming a type presents exactly the value the input encodes: every part, with "
     "the right kind, names, order and lengths, also for types that buffer before choosing (untagged enums) and for ignored "
     "parts. Other input gives an error.",
     ["inputs", "configurations"], "every input and every value under every schema shape",
     "No test deserializes into a self-describing type.",
     [SDE], m(("deserialize_any, deserialize_ignored_any", SDE)), observe=["visitor calls", "errors"])
prop("C24", "A coder always names the schema node it needs next",
     "Before every call, asking what is needed gives the schema node that the next call must code, with recursions "
     "already resolved, and an error exactly when none is needed. Following these answers alone codes every value.",
     ["histories", "inputs"], "every state reachable by conforming and refused calls",
     "No test asks.",
     [CO, EN, DE], m(("need", CO)), state=STACK, observe=["Encoder::need", "Decoder::need"])
prop("C25", "Decoding into a caller's buffer replaces its content, and only on success",
     "Decoding a string into a caller's buffer leaves there exactly the decoded content, whatever it held before, and consumes and reports exactly "
     "as decoding a new one does. After a failed decode a string buffer is still valid text.",
     ["inputs", "histories"], "every input, buffers of any size and content, buffers used repeatedly",
     "No test uses these operations.",
     [DE], m(("decode_str_into, decode_bytes_into", DE)), observe=["buffer content", "results", "bytes consumed"])
prop("C26", "Short and interrupted reads and writes do not change the result",
     "A stream that transfers fewer bytes than asked, or is interrupted and retried, any number of times, gives the same "
     "bytes, values, errors and final state as one that transfers everything at once.",
     ["fault_sequences", "inputs"], "every placement of short and interrupted transfers within the bound",
     "The tests use in-memory streams, which transfer everything at once.",
     [EN, DE, VL], m(("read_exact / write_all", EN + "; " + DE + "; " + VL), ("chunked reading", DE + " read_into")),
     observe=["bytes", "results"])
prop("C27", "Type and schema mismatches are reported, never miscoded",
     "Serializing a value under a schema either writes an encoding that the schema's other users decode to the same "
     "content, or reports an error; it never finishes a message that says something else. Deserializing a type under a "
     "schema either yields exactly what the bytes say, or reports an error; neither panics.",
     ["programs", "configurations", "inputs"], "types against schemas that fit, nearly fit, and do not fit; every value and input",
     "The tests pair each type with its own schema only.",
     [SER, SDE, CO], m(("validation by the coder", CO), ("serialize_seq_like", SER), ("deserialize_seq_like", SDE)),
     observe=["results", "bytes", "coder state"])

prop("C28", "No serde implementation can finish a message that says something else",
     "Whatever calls a Serialize implementation makes, with wrong lengths, missing, surplus or misordered parts or "
     "ignored errors, the message is finished only if it is a whole valid message, with exactly the parts passed. "
     "Whatever a Deserialize implementation asks for, and wherever it stops, the decoder is finished only if one whole "
     "value was handed over as it is in the input; an implementation that passes on every error never gets a wrong one.",
     ["inputs", "histories"], "every sequence of serializer and deserializer calls, every input, every schema",
     "The tests only use derived implementations, which make the right calls in the right order.",
     [SER, SDE, CO], m(("SeqLikeSerializer, SerializeMap, SerializeStruct", SER), ("SeqDecoder, MapDecoder, StructDecoder, EnumDecoder", SDE),
                       ("validation by the coder", CO)),
     observe=["results", "bytes", "is_finished", "what the visitor is handed"])
prop("C29", "Schemas are built exactly as the schema macro spells them",
     "The schema macro builds exactly the schema it spells: the constructors, scalar types, names, order, lengths and levels "
     "written, with any schema spliced in anywhere, every expression evaluated once and in order. Schemas compare as equal "
     "exactly if all their parts are equal, and a clone equals its original.",
     ["inputs"], "every rule of the macro, every length and level, every spliced schema, every pair of schemas",
     "The tests spell a handful of schemas, and never compare them with anything.",
     [SC], m(("schema!", SC), ("From for fields and variants", SC), ("derived Eq and Clone", SC)),
     observe=["the schema built"])
prop("C30", "A message coded piecemeal is the same message",
     "The parts of one message may be coded by different interfaces (calls, dynamic values, serde) in any combination, each "
     "with an encoder or decoder of its own over the coder state, and over different streams: the bytes together, the "
     "values, errors and final state are those of coding it in one go.",
     ["inputs", "histories"], "every value, input, schema and way to divide the coding among interfaces and encoders",
     "The tests code each message by one interface, with one encoder.",
     [EN, DE, VA, SER, SDE, CO], m(("CoderState kept between encoders", CO), ("Encoder::new / Decoder::new", EN),
                                   ("Value::encode_to / decode_from", VA), ("Serializer / Deserializer", SER)),
     observe=["bytes", "values", "is_finished"])
prop("C31", "Recursion levels computed for nested types lead to the type meant",
     "While the schema of a type is being built within others, asking for a type gives the number of schema levels up to "
     "its innermost occurrence around the place, counting every level in between, and nothing exactly if it does not "
     "occur around it.",
     ["inputs", "histories"], "every stack of types and nameless levels, every type asked for",
     "The tests contain one recursive derived type.",
     [KS], m(("RecurseStack", KS), ("parent_recurse / find_type", KS)),
     observe=["RecurseStack::parent_recurse", "RecurseStack::find_type", "KnownSchema::schema"])
prop("C32", "Schemas and values compare, order and hash by content",
     "Two schemas, scalar types, error kinds or values are equal exactly if all their parts are (floats compare as numbers). "
     "Their order agrees with equality, is antisymmetric and chains, and is total except for values containing NaN; equal "
     "schemas have equal hashes; a clone has the same content.",
     ["inputs"], "every pair and triple of schemas, values, scalar types and error kinds",
     "The tests only compare a few values that are expected to be equal.",
     [SC, VA, ER], m(("PartialEq/Eq/PartialOrd/Ord/Hash/Clone of Schema and its parts", SC), ("PartialEq/PartialOrd/Clone of Value", VA),
                     ("ErrorKind", ER)),
     observe=["==", "cmp", "partial_cmp", "Hash::hash", "clone"])

NA = []

LEVEL_NOTE = (
    "Bounded: the solver decides every path of the compiled code over all values within the bounds stated in "
    "DESIGN.md and the evidence file; outside them nothing is claimed. Trusts rustc's LLVM IR for x86-64 at the "
    "stated optimization level, the symbolic executor's semantics (each path model replayed natively is compared), Z3, "
    "and the reference model of FORMAT.txt in harness/src."
)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    na = {n["property"] for n in NA}
    checks = []
    for p in P:
        if p["id"] in na:
            continue
        checks.append(dict(
            property=p["id"],
            quick_cmd="python3 run_check.py " + p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="solver-based symbolic execution of the compiled code (LLVM IR to SMT, Z3), counterexamples replayed natively",
            level="model_checking",
            level_note=LEVEL_NOTE,
        ))
    man = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NA,
               notes="No hooks in /repo are needed: the harness crate uses its public API. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
