"""Which harness entries decide which property, with their bounds."""

import re

CRATES = ["hx", "hd", "hr", "hg", "hc", "hm"]
PRE = {}


def J(name, quick=True, thorough=None, reach=(), **k):
    """quick: dict of options, True for defaults, None to run only in the thorough tier"""
    d = dict(name=name, quick={} if quick is True else quick, thorough=thorough or {}, reach=list(reach))
    d.update(k)
    return d


def generated_code_broken(crate, out):
    """a harness over generated code that does not build: is the generated code to blame?"""
    m = re.search(r"GENERATOR: (.*)", out)
    if m:
        return m.group(1) + "\n" + out
    m = re.search(r"panicked at (/repo/rpcgen/src/\S+)", out)
    if m:
        return "the generator panics at %s for a schema under hg/schema\n%s" % (m.group(1), out)
    if re.search(r"could not compile `%s`" % crate, out):
        m = re.search(r"error(?:\[E\d+\])?: (.*)\n\s*--> (\S+)", out)
        return "code generated for the schemas under hg/schema does not compile or lacks what the definition names: %s\n%s" % (m.group(1) + " at " + m.group(2) if m else "", out)
    return None


def derive_broken(which):
    def f(crate, out):
        if re.search(r"could not compile `%s`" % crate, out) and re.search(r"(derive macro `%s`|proc-macro derive panicked)" % which, out):
            return "code the derive generates does not compile\n" + out
        return None

    return f


COMMON = [
    "LLVM IR of the harness and of the crates under test, as rustc 1.99.1 produces it from /repo's current tree (opt-level 1, fat LTO, overflow checks on), has the semantics the executor gives it; sampled paths are replayed on the native debug build in every run",
    "memory allocation succeeds; single-threaded; the harness drives only the public API",
    "core::str::from_utf8 on symbolic bytes is summarised by an RFC 3629 automaton (the summary is itself checked against the real function for all inputs up to 6 bytes under C07)",
]


def P(crate, entries, bounds, outside="types outside the corpus and larger values", assumptions=(), **k):
    return dict(crate=crate, entries=entries, bounds=bounds, outside=outside, assumptions=COMMON + list(assumptions), **k)


LEN1 = "variable-length content longer than the stated bounds; user types outside the corpus; user-written Serialize/Deserialize implementations outside the corpus"
GT = "definition lists of other shapes; longer texts, names and numbers than stated"
PT = "longer texts, names and numbers than stated; stack depth"
PROPS = {
    "C01": P("hx", [J("c01_wire", reach=["encoded"]), J("c01_unwire", reach=["decoded"])],
             "all values of bool, i8..i64, u8..u64, f32, f64 (every bit pattern), char, (), a unit struct, and a 12-field struct of all scalar kinds", "128-bit integers (see C08)"),
    "C02": P("hx", [J("c02_wire", reach=["encoded"]), J("c02_unwire", reach=["decoded"]), J("c02_long", reach=["long"]), J("c02_deep", quick=None, reach=["long"]), J("c02_api", reach=["text"]), J("c02_xl", reach=["long"])],
             "every content of every length 0..=9 (any UTF-8 / any bytes) through each string and byte-string method, alone and followed by further values; lengths 0..=40 and 12 lengths in 127..=1027 with arbitrary bytes / arbitrary ASCII (thorough: every length 0..=299 and 9 lengths up to 4103); 8 lengths up to 131074 with arbitrary bytes at the ends and around powers of two; text given piece by piece, boxed, borrowed, C strings and paths", LEN1),
    "C03": P("hx", [J("c03_wire", reach=["encoded"]), J("c03_map", reach=["encoded"]), J("c03_unwire", reach=["decoded"]), J("c03_longseq", reach=["longseq"]), J("c03_more_wire", reach=["encoded"]), J("c03_more_unwire", reach=["decoded"]), J("c03_xl", reach=["longseq"]), J("c03_longmap", reach=["longmap"]), J("c03_custom", reach=["decoded"])],
             "25 composite types (options, sequences, tuples, arrays, structs, newtype/unit/tuple structs, enums with unit/newtype/tuple/struct variants, boxed recursion, maps): every value with at most 3 elements per sequence and 3 bytes per string; u16 sequences of 13 lengths up to 257; 43 further types (standard-library collections, ranges, results, durations, elements without content, 35-field struct, 16-tuple, rename/skip/default/transparent/from attributes), maps and sequences driven call by call, maps of 8 sizes up to 257, sequences of up to 131074 elements", LEN1),
    "C04": P("hx", [J("c04_round", reach=["round"]), J("c04_deep", quick=None, thorough=dict(shards=9), reach=["round"]), J("c04_more", reach=["round"])],
             "46 types, every value with at most 4 bytes per string/byte string and 3 elements per sequence (thorough: 6 and 4 for nested types); 60 further types (those of C03, nested options, maps of each kind of key)", LEN1),
    "C05": P("hx", [J("c05_any", reach=["accepted", "rejected"]), J("c05_big", reach=["accepted", "rejected"]), J("c05_more", reach=["accepted", "rejected"]), J("c05_deep", quick=None, thorough=dict(shards=10), reach=["accepted"])],
             "52 target types, every input of every length 0..=N bytes with N between 2 and 64 by type (thorough: up to 48 for the nested types); 46 further types", LEN1),
    "C06": P("hx", [J("c06_framing", reach=["short", "trailing"]), J("c06_more", reach=["short", "trailing"])],
             "41 types, every value with at most 5 bytes per string and 2 elements per sequence; every strict prefix; 1..=5 arbitrary extra bytes; 36 further types", LEN1),
    "C07": P("hx", [J("c07_any", reach=["accepted", "rejected", "trailing"]), J("c07_big", reach=["accepted", "rejected", "trailing"]), J("c07_faithful", reach=["accepted"]), J("c07_text", reach=["valid", "invalid"]),
                    J("c07_utf8_summary", reach=["valid", "invalid"], opts=["--no-utf8-summary"]), J("c07_deep", quick=None, thorough=dict(shards=10), reach=["accepted"]), J("c07_more", reach=["accepted", "rejected", "trailing"])],
             "52 target types, every input of every length 0..=N bytes with N between 2 and 64 by type, against an independent reference decoder; 26 further types", LEN1,
             ["a bool or presence word other than 0 is taken as true/present (documented leniency); pad byte contents are not constrained"]),
    "C08": P("hx", [J("c08_unrepresentable", reach=["refused"]), J("c08_more", reach=["refused"]), J("c08_fail_ser", reach=["encoded", "refused"]), J("c08_fail_de", reach=["accepted", "refused"])], "the nine kinds of request the wire format cannot express, with arbitrary field contents; 14 such requests inside of other values or made by derive attributes; an error at every element of 15 composites when encoding, for every word refused by the element type in 12 composites when decoding", "other user-defined Serialize implementations"),
    "C09": P("hx", [J("c09_fixed", reach=["encoded", "decoded"]), J("c09_variable", reach=["encoded", "decoded"]), J("c09_mixed", reach=["encoded", "decoded"]), J("c09_same_as_bytes", reach=["same"]), J("c09_long", reach=["long"]), J("c09_decode", reach=["accepted", "rejected"]), J("c09_xl", reach=["long"])],
             "fixed arrays of 29 sizes 0..=300, variable data of every length 0..=40 and 12 lengths up to 4099 with arbitrary contents; decoding of every input up to 8..24 bytes by type; 8 lengths up to 131074", LEN1),
    "C10": P("hx", [J("c10_signed", reach=["encoded", "decoded", "accepted", "rejected"])], "every i32 value; every decoder input up to 14 bytes; one accepted set with negative, zero, range and extreme members"),
    "C11": P("hx", [J("c11_counts", reach=["ok", "refused"]), J("c11_variants", reach=["ok", "refused"]), J("c11_bytes", reach=["refused"]), J("c11_decode", reach=["ok", "refused"]), J("c11_index", reach=["ok", "refused"]), J("c11_hint", reach=["ok"])],
             "every usize count for sequences and maps; every u32 variant index for the four variant kinds; byte strings of 2^32, 2^32+1 and 2^32+4 zero bytes; every 32-bit discriminant word; every discriminant and count as a visitor sees it", "byte-string lengths between 2^20 and 2^32-1"),
    "C12": P("hx", [J("c12_alloc", reach=["accepted", "rejected"]), J("c12_more", reach=["accepted", "rejected"])], "17 target types, every input of every multiple-of-4 length up to 12..68 bytes by type: no single allocation above 2 MiB; 23 further types", "total allocation over many small ones; allocations made by user types"),
    "D01": P("hd", build_violation=derive_broken("XdrIndexer"), entries=[J("d01_wire", reach=["encoded"]), J("d01_unwire", reach=["decoded"]), J("d01_round", reach=["round"]), J("d01_any_index", reach=["encoded", "decoded", "accepted", "rejected"]), J("d01_decode", reach=["accepted", "rejected", "trailing"]), J("d01_framing", reach=["short", "trailing"]), J("d01_deep", quick=None, thorough=dict(shards=5), reach=["accepted"])],
             bounds="12 types with derived indexers (unit, newtype and tuple variants of up to 14 fields, nested, in sequences and options; extreme and negative indexes), every value with at most 4 bytes per string and 2 elements per sequence; one 4-variant enum with every assignment of distinct 32-bit indexes; every input up to 9..66 bytes by type"),
    "D02": P("hd", build_violation=derive_broken("XdrUnion"), entries=[J("d02_wire", reach=["encoded"]), J("d02_unwire", reach=["decoded"]), J("d02_round", reach=["round"]), J("d02_any_value", reach=["encoded", "decoded", "accepted", "rejected"]), J("d02_decode", reach=["accepted", "rejected", "trailing"]), J("d02_framing", reach=["short", "trailing"]), J("d02_deep", quick=None, thorough=dict(shards=5), reach=["accepted"])],
             bounds="13 types with derived unions over int, unsigned, bool and two enum kinds (arms of up to 13 fields, with and without fall-back arm, nested), every value with at most 4 bytes per string and 2 elements per sequence; two unions with every assignment of distinct 32-bit case values; every input up to 9..64 bytes by type"),
    "P01": P("hr", [J("p_any1", reach=["accepted", "rejected"]), J("p_any2", reach=["accepted", "rejected"]), J("p_any3", reach=["accepted", "rejected"]), J("p01_unicode", reach=["accepted", "rejected"]), J("p01_nested", reach=["accepted", "rejected"]), J("p01_runs", reach=["accepted", "rejected"]),
                    J("p_any4", quick=None, thorough=dict(shards=8), reach=["accepted"])],
             "41 texts each with a hole of 0..=3 (thorough: 4) arbitrary ASCII bytes or 2..=4 bytes of any UTF-8 with a non-ASCII character; nesting up to 14 anonymous types and 20 kinds of run of 60 equal pieces, each with one arbitrary byte; 30 million executed instructions per text is taken as not terminating", PT),
    "P02": P("hr", [J("p02_any", reach=["accepted", "rejected"]), J("p02_any4", reach=["accepted", "rejected"]), J("p02_long", reach=["accepted", "rejected"]), J("p02_places", quick=dict(shards=4), reach=["accepted", "rejected"]), J("p02_long2", quick=None, thorough=dict(shards=4), reach=["accepted"])],
             "every ASCII text of 0..=3 characters in 14 number positions (4 in constants); 29 long numbers around the 32- and 64-bit limits in three bases with one (thorough: two) arbitrary characters replaced or inserted at every offset, in every position", PT),
    "P03": P("hr", [J("p03_exact", reach=["accepted", "rejected"]), J("p03_affix", reach=["accepted", "rejected"]), J("p03_words", reach=["accepted", "rejected"]), J("p03_affix2", quick=None, thorough=dict(shards=4), reach=["accepted"]), J("p03_words6", quick=None, thorough=dict(shards=4), reach=["accepted"])],
             "45 name positions; each of 26 type words and keywords, with any one character replaced, and with one (thorough: two) arbitrary characters before or after; every word of 1..=4 (thorough: 6) identifier characters", PT),
    "P04": P("hr", [J("p04_gap", reach=["relaid"]), J("p04_all", reach=["relaid"]), J("p04_glue", reach=["accepted", "rejected"]), J("p04_gap4", quick=None, thorough=dict(shards=2), reach=["relaid"])],
             "10 token lists covering every construct; in each gap between tokens every blank sequence of 1..=2 (thorough: 4), every comment of 0..=2 (thorough: 4) arbitrary ASCII characters, and mixtures; the same layout in all gaps; no layout where words meet", PT),
    "P05": P("hr", [J("p05_decl", reach=["parsed"]), J("p05_decl2", quick=None, thorough=dict(shards=2), reach=["parsed"])],
             "the 8 declaration forms with 18 types and 8 kinds of bound in 7 positions, with symbolic names and bounds", PT),
    "P06": P("hr", [J("p06_lists", reach=["parsed", "accepted", "rejected"]), J("p_any2", reach=["accepted", "rejected"]), J("p06_lists4", quick=None, thorough=dict(shards=4), reach=["parsed"])],
             "up to 3 (thorough: 4) definitions of the 7 kinds, enumerators, members, cases with 1..=2 labels, procedures and versions, up to 5 labels per arm, with symbolic names and numbers; 41 texts with a hole of 0..=2 arbitrary bytes", PT),
    "T01": P("hg", [J("t01_plain", reach=["encoded", "decoded"]), J("t01_lists", reach=["encoded", "decoded"]), J("t01_unions", reach=["encoded", "decoded"]), J("t01_opaque", reach=["encoded", "decoded"]), J("t01_negative", reach=["encoded", "decoded"]),
                    J("t01_dplain", quick=dict(shards=2), reach=["accepted", "rejected"]), J("t01_dlists", quick=dict(shards=2), reach=["accepted", "rejected"]), J("t01_dunions", reach=["accepted", "rejected"]), J("t01_dopaque", quick=dict(shards=2), reach=["accepted", "rejected"]), J("t01_dnegative", reach=["accepted", "rejected"]),
                    J("t01_constants", reach=["constants"]), J("t01_names", reach=["encoded", "decoded"]), J("t01_rec", reach=["encoded", "decoded"]), J("t01_drec", reach=["accepted", "rejected"]), J("t01_rec_deep", quick=None, reach=["encoded", "decoded"]), J("t01_default_complement", reach=["encoded"]), J("t01_default_indexer", reach=["decoded"]),
                    J("t01_plain_deep", quick=None, reach=["encoded"]), J("t01_lists_deep", quick=None, reach=["encoded"]), J("t01_unions_deep", quick=None, reach=["encoded"]), J("t01_dlists_deep", quick=None, thorough=dict(shards=4), reach=["accepted"]), J("t01_dplain_deep", quick=None, thorough=dict(shards=4), reach=["accepted"])],
             "the code generated from hg/schema/*.x (4 definition files, 55 types covering every construct, recursion through aliases, options, arms and several types included) in 9 mode combinations with and 3 without removing typedefs: every value with at most 4 bytes per string, 2 elements per list and 2 optional values (thorough: 9, 4 and 4); every input of 0 to 2..13 words by type",
             "definitions outside the schemas (G01 to G07 vary the definitions); arrays above 32 elements, quadruple; the placeholders of complement mode",
             ["a bool or presence word other than 0 is taken as true/present (documented leniency)"], build_violation=generated_code_broken),
    "T02": P("hg", [J("t02_enums", reach=["refused", "placeholder"]), J("t02_unions", reach=["refused"])],
             "every 32-bit word for 4 enums and 10 unions, in 12 mode combinations, followed by 0..=4 arbitrary words", "definitions outside the schemas", build_violation=generated_code_broken),
    "M01": P("hm", [J("m01_options", reach=["generated", "refused"]), J("m01_source", reach=["generated", "refused"]), J("m01_path", reach=["generated"]), J("m01_io", reach=["generated", "refused"]), J("m01_words", reach=["generated", "refused"]), J("m01_usage", reach=["refused"]), J("m01_many", reach=["generated", "refused"]), J("m01_source2", quick=None, thorough=dict(shards=8), reach=["generated", "refused"])],
             "every set of the four options with the path before, among and after them; each option word with any one printable character replaced, inserted or left out; every path of 1..=3 letters in three directories; files that cannot be opened or read with 7 error numbers; 8 definition files with 0..=1 (thorough: 2) arbitrary bytes and a comment with 0..=3, read whole or in pieces of 7 and 16 bytes; no path and two paths; 6 files of up to 257 definitions with one arbitrary character at the end",
             "options given twice, --help and --version; errors when writing the output; what the program writes to standard error",
             ["the C library calls the program makes (open, read, fstat, write, exit, ...) are answered by a model of the operating system in hm/src/os.rs, in the symbolic execution and in the native replay alike"]),
    "G01": P("hc", [J("g01_any1", reach=["generated", "refused", "rejected"]), J("g01_any2", quick=dict(shards=2), reach=["generated", "refused"]), J("g01_refs", quick=dict(shards=3), reach=["generated", "refused"]), J("g01_names", quick=dict(shards=6), reach=["generated", "refused"]),
                    J("g01_numbers", quick=dict(shards=3), reach=["generated", "refused"]), J("g01_any3", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g01_any2_modes", quick=None, thorough=dict(shards=4), reach=["generated"]),
                    J("g01_names_modes", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g01_numbers_modes", quick=None, thorough=dict(shards=8), reach=["generated"])],
             "47 texts each with a hole of 0..=2 (thorough: 3) arbitrary ASCII characters; 12 definition lists whose three references are any of six names and numbers, or any one-letter names; 12 lists with any number of 1..=2 characters or a number around the 8- to 64-bit limits with any one character; with 0..=1 characters and with the six references in all 32 option sets, otherwise in the 6 main ones (thorough: 32); 30 million executed instructions per text is taken as not terminating",
             GT + "; complement mode with values above 200 (its output grows with the largest value); stack depth"),
    "G02": P("hc", [J("g02_values", quick=dict(shards=2), reach=["generated", "refused"]), J("g02_two", quick=dict(shards=4), reach=["generated", "refused"]), J("g02_long", quick=dict(shards=2), reach=["generated", "refused"]), J("g02_gap", quick=dict(shards=3), reach=["generated"]), J("g02_many", reach=["generated"]), J("g02_long_deep", quick=None, thorough=dict(shards=4), reach=["generated"]), J("g02_gap_deep", quick=None, thorough=dict(shards=4), reach=["generated"]), J("g02_many_deep", quick=None, reach=["generated"])],
             "11 lists of definitions with an enum whose values are literals, constants, chains of constants or enumerators, before or after their use, with one value any number of 1..=2 characters or around the 8- to 64-bit limits with any one character; 4 lists with two such values; enums of 17 and 33 (thorough: 9, 65, 130) enumerators in three orders, one with any last digit; in the 4 enum modes; complement mode with gaps of about 255, 512 and 1024 (thorough: up to 4096) with any last digit", GT + "; complement mode with other values above 300"),
    "G03": P("hc", [J("g03_int", quick=dict(shards=3), reach=["generated", "refused"]), J("g03_enum", quick=dict(shards=3), reach=["generated", "refused"]), J("g03_bool", quick=dict(shards=2), reach=["generated", "refused"]), J("g03_bool_number", reach=["generated", "refused"]), J("g03_long", quick=dict(shards=4), reach=["generated", "refused"]), J("g03_names", quick=dict(shards=3), reach=["generated"]), J("g03_many", quick=dict(shards=2), reach=["generated"]), J("g03_many_deep", quick=None, thorough=dict(shards=4), reach=["generated"]),
                    J("g03_int_deep", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g03_enum_deep", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g03_bool_deep", quick=None, thorough=dict(shards=4), reach=["generated"]), J("g03_long_deep", quick=None, thorough=dict(shards=8), reach=["generated"])],
             "26 unions over int, unsigned, bool, enums and aliases of these, with 1..=4 labels (literal, constant, enumerator), one of them symbolic (any number of 1..=2 characters or around the 8- to 64-bit limits with any one character; TRUE and FALSE with any one character replaced), 13 kinds of arm (three per union, thorough: all), with and without default arm, in 9 mode combinations; two enums with any names of 1..=3 characters, either of them as discriminant; unions of 11 (thorough: 5, 17, 33) labels in three orders on arms of one or three labels, one with any last digit, over int, unsigned and enum", GT + "; complement mode with labels above 200; negative labels, which the generator may refuse; index and union mode together"),
    "G04": P("hc", [J("g04_forms", quick=dict(shards=2), reach=["generated", "refused"]), J("g04_multi", quick=dict(shards=2), reach=["generated"]), J("g04_self", reach=["generated"]), J("g04_names", reach=["generated"]), J("g07_struct", reach=["generated"])],
             "11 declaration forms with 19 types alone and 11 x 11 forms in pairs between two fixed members, array lengths of 1..=2 characters or around the 8- to 64-bit limits with any one character, struct names of 1..=3 letters for self references, member names of 1..=4 characters and 17 longer words with any one character replaced or added; in the 3 enum modes with and without aliases; an enum and a struct with any names of 1..=3 characters as the member's type", GT),
    "G05": P("hc", [J("g05_const", reach=["generated"]), J("g05_bound", reach=["generated", "refused"]), J("g05_long", quick=dict(shards=3), reach=["generated", "refused"]), J("g05_names", reach=["generated", "refused"])],
             "7 lists of constants defined by literals, constants and enumerators, and 10 lists with array lengths given by literal, constant and enumerator, with any number of 1..=2 characters or around the 8- to 64-bit limits with any one character; 11 lists with constants and enumerators of any names of 1..=2 letters, referred to by any such name", GT + "; names not defined in the text"),
    "G06": P("hc", [J("g06_alias", reach=["generated"]), J("g06_kept", reach=["generated"]), J("g06_names", reach=["generated"]), J("g06_alias2", quick=None, thorough=dict(shards=4), reach=["generated"])],
             "29 pairs of definition lists with aliases (recursive ones too, chains of up to 3, every declaration form, as member, element, arm and discriminant) and without, with any number of 1 (thorough: 2) characters in the mode combinations; any alias names of 1..=2 letters", GT + "; aliases of opaque data with aliases kept, which the generator refuses"),
    "G07": P("hc", [J("g07_struct", reach=["generated"]), J("g07_enum", quick=dict(shards=2), reach=["generated"]), J("g07_union", reach=["generated"]), J("g07_const", reach=["generated"]), J("g07_struct5", quick=None, thorough=dict(shards=4), reach=["generated"]), J("g07_enum5", quick=None, thorough=dict(shards=4), reach=["generated"])],
             "every identifier of 1..=4 (thorough: 6) characters and 21 longer words with any one character replaced or added, as name of a struct, member, alias, enum, enumerator, union and constant, with references to it, in the modes", GT + "; names that differ only in case or underscores; names of types of the generated code's own vocabulary"),
    "G08": P("hc", [J("g08_enum", quick=dict(shards=2), reach=["default", "refused"]), J("g08_int", quick=dict(shards=2), reach=["default", "discriminant"]), J("g08_of_enum", quick=dict(shards=2), reach=["default", "discriminant"]), J("g08_bool", reach=["default", "discriminant"]), J("g08_long", quick=dict(shards=2), reach=["default", "discriminant"]), J("g08_many", reach=["default", "discriminant"]),
                    J("g08_enum_long", quick=None, thorough=dict(shards=4), reach=["default"]), J("g08_int_deep", quick=None, thorough=dict(shards=8), reach=["default"]), J("g08_of_enum_deep", quick=None, thorough=dict(shards=8), reach=["default"]),
                    J("g08_values", reach=["default"], crate="hg"), J("g08_other", reach=["default"], crate="hg"), J("g08_alias", reach=["default"], crate="hg"), J("g08_alias_complement", crate="hg")],
             "the enums of G02 with one value any number of 1..=2 characters (thorough: also around the 8- to 64-bit limits), the unions of G03 over int, unsigned, bool, enums and aliases of these with one label any number of one character (5 of them also around the limits) and unions of 11 labels, with and without default arm, in 9 mode combinations; the default of every type of hg/schema/*.x encoded and decoded in every mode",
             GT + "; complement mode with labels above 200; the discriminant that indexer and complement mode write for a default arm (known findings of T01)", build_violation=generated_code_broken),
    "G09": P("hc", [J("g09_two", quick=dict(shards=3), reach=["generated", "refused", "endless"]), J("g09_three", quick=dict(shards=3), reach=["generated", "refused"]), J("g09_two_deep", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g09_three_deep", quick=None, thorough=dict(shards=8), reach=["generated"])],
             "2 definitions (struct, union with void arm, union with default arm, alias; thorough: 7 kinds with two members or arms) and 3 definitions (struct, union, alias), each referring to any of the names a to d (d is not defined) plain, as option, fixed array or variable array (3 definitions: plain or option; thorough: also fixed array), in the 3 modes, with and without aliases", GT + "; cycles of more than three definitions"),
    "G10": P("hc", [J("g10_order", quick=dict(shards=3), reach=["generated"]), J("g10_other", quick=dict(shards=2), reach=["generated"]), J("g10_none", quick=dict(shards=3), reach=["generated"]), J("g10_order_modes", quick=None, thorough=dict(shards=8), reach=["generated"]), J("g10_other_modes", quick=None, thorough=dict(shards=8), reach=["generated"])],
             "6 lists of 3 to 4 definitions that refer to each other, in every order, with any name of up to 2 characters and any digit; 7 other definitions before or after them; 2 programs, a line for the output and a comment before or after them, which may name what the list defines; one of 3 modes for each (thorough: all modes, with and without aliases)", GT),
}
