"""Source of properties.jsonl (python3 lib/props_src.py rewrites properties.jsonl and MANIFEST.json)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DE, SER, OPQ, PRIM, DRV = "serde-xdr/src/de.rs", "serde-xdr/src/ser.rs", "serde-xdr/src/opaque.rs", "serde-xdr/src/primitive.rs", "serde-xdr-derive/src/lib.rs"
PAR, GEN, KW, MAIN = "rpcgen/src/parser.rs", "rpcgen/src/gen_code.rs", "rpcgen/src/keyword.rs", "rpcgen/src/main.rs"
PROPS = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None)))


IO = ["serde_xdr::to_bytes", "serde_xdr::from_bytes"]
p("C01", "Scalars have the XDR wire form", "Encoding a scalar yields its RFC 4506 big-endian form: 4 bytes for bool, char and integers up to 32 bits (signed ones sign-extended, bool as 0/1, char as its code point), 8 bytes for 64-bit integers, IEEE bits for floats, nothing for unit; decoding that form yields the same value bit for bit.",
  ["inputs"], "every value of every scalar type (all 2^64 for the 64-bit ones)", "the unit tests encode one or two values per type; wrong extension, byte order or range handling shows only for others", [SER, DE],
  [("serialize_bool..serialize_char", SER), ("read_i32, read_u64, read_f64, ...", DE)], IO)
p("C02", "Strings and byte strings are counted and padded", "A string or byte string of n bytes is encoded as the 4-byte count n, the n bytes unchanged, and zero bytes up to the next multiple of four; decoding that form restores exactly those bytes and leaves the following value aligned.",
  ["inputs"], "every length and content, alone or followed by other values", "tests use a handful of short texts; each length modulo 4, and large lengths, need their own case", [SER, DE],
  [("serialize_bytes", SER), ("read_string, read_bytes", DE)], IO)
p("C03", "Composite values are the concatenation of their parts", "Structs, tuples and fixed arrays are encoded as their members in order without framing; sequences and maps as a 4-byte element count followed by the elements; options as 0 or 1 followed by the value; enums as the 4-byte variant index followed by the fields of that variant; at every nesting depth, in both directions.",
  ["inputs", "programs"], "every value of every serde data-model shape", "tests cover one instance per shape and almost no nesting", [SER, DE], [("serialize_seq/_map/_some/_struct/_*_variant", SER), ("Seq, Map, Enum accessors", DE)], IO)
p("C04", "Decoding an encoded value gives the value back", "For every serialisable value that encoding accepts, decoding the produced bytes as the same type succeeds and yields an equal value (floats compared by bits), for every type whose decoding does not ask for a self-describing format.",
  ["inputs", "programs"], "every value of every supported type", "tests check the two directions on separate samples", [SER, DE, OPQ, PRIM], [("to_bytes / from_bytes", "serde-xdr/src/lib.rs")], IO)
p("C05", "Decoding arbitrary bytes never crashes", "For every input byte string and every target type, decoding returns a value or an error; it never panics, overflows, reads outside its input, or fails to terminate (as long as the nesting of a recursive type fits the stack).",
  ["inputs"], "every byte string, of every length, for every target type", "tests decode well-formed inputs almost only", [DE, OPQ, PRIM], [("Deserializer::read", DE), ("enumerate_u8", OPQ)], ["serde_xdr::from_bytes"])
p("C06", "Input must be consumed exactly", "An encoding followed by k>0 extra bytes is rejected with the trailing-data error carrying exactly k, and every strict prefix of an encoding is rejected with the not-enough-data error carrying a positive count no larger than what is missing.",
  ["inputs"], "every value, every cut position, every number of extra bytes", "tests have one trailing-data case", [DE], [("from_bytes", DE), ("Deserializer::read", DE)], ["serde_xdr::from_bytes"])
p("C07", "Decoding accepts exactly the encodings of values", "Decoding succeeds exactly when the input is an encoding of some value of the target type, and returns that value: out-of-range words for 8/16-bit integers, invalid UTF-8, non-scalar char words and unknown or negative discriminants are refused, never altered into something else.",
  ["inputs"], "every byte string for every target type (pad contents and non-canonical non-zero bool/presence words excepted)", "tests exercise almost no invalid input", [DE, OPQ, PRIM], [("read_char, deserialize_i8.., variant_seed", DE)], ["serde_xdr::from_bytes"])
p("C08", "What XDR cannot express is refused", "Requests the wire format cannot express (sequences or maps of unknown length, 128-bit integers, self-describing or ignored-any decoding) return an error, and an error raised by any element's own serialisation or deserialisation surfaces as the overall error.",
  ["inputs", "programs"], "every such request at every position in a value", "few of these requests are tested", [SER, DE], [("serialize_seq/_map", SER), ("deserialize_any", DE)], IO)
p("C09", "Opaque adapters carry bytes unchanged", "The fixed adapter encodes n bytes as themselves plus zero padding to a multiple of four; the variable adapter and its wrapper type prepend the 4-byte count; both decode exactly what they encode, whatever surrounds them, and agree with the codec's byte-string form.",
  ["inputs"], "every length and content", "tests use lengths 3 to 5", [OPQ], [("enumerate_u32 / enumerate_u8", OPQ)], ["serde_xdr::opaque::fixed", "serde_xdr::opaque::variable", "serde_xdr::opaque::VariableArray"])
p("C10", "Signed enumeration values survive", "With the signed adapter a value is encoded as the two's complement word of its code, for every 32-bit code; decoding accepts exactly the words whose code the type accepts, and returns the value for that code.",
  ["inputs"], "every 32-bit code, every input", "tests use one or two codes", [PRIM], [("signed32", PRIM)], ["serde_xdr::primitive::signed32"])
p("C11", "Counts and discriminants are never truncated", "An element count or byte length above 2^32-1, or a variant index above 2^31-1, makes encoding fail; every smaller one is written exactly; on decoding every 32-bit discriminant word selects the variant with that index or is refused.",
  ["inputs"], "every count and index", "values near 2^31 and 2^32 never occur in tests", [SER, DE], [("serialize_seq, serialize_bytes, serialize_*_variant", SER), ("variant_seed", DE)], IO)
p("C12", "Claimed sizes do not drive allocation", "While decoding, no single allocation exceeds a small constant (2 MiB is checked) unless the input actually contains that much data: a short input that claims a huge length or count is refused without allocating for the claim.",
  ["inputs"], "every short input, whatever its length words claim", "no test measures allocation", [DE, OPQ], [("Seq::size_hint, read", DE), ("enumerate_u8", OPQ)], ["serde_xdr::from_bytes"])
p("D01", "Index-based enum derive is faithful", "For an enum with the derived indexer, each variant is encoded as its declared index followed by its fields and decoding selects the variant whose name the index maps to; index, name and variant agree in both directions, and indexes that name no variant are refused.",
  ["inputs", "programs"], "every variant shape, index and field value", "tests have one enum with a few shapes and values", [DRV], [("derive XdrIndexer: Serialize/Deserialize", DRV)], IO)
p("D02", "Union derive is faithful", "For a union with the derived codec, each arm is encoded as exactly its fields (the discriminant being the first one) and decoding selects the arm by the discriminant value, including fall-back arms, and returns the same arm and fields.",
  ["inputs", "programs"], "every arm shape, discriminant and field value", "tests have one union with fixed values", [DRV], [("derive XdrUnion: Serialize/Deserialize", DRV)], IO)
p("P01", "Parsing any text terminates without crashing", "For every input text, parsing an interface definition returns the definitions or an error: no panic, no endless loop, and no work that explodes with nesting or length (as long as the nesting fits the stack).",
  ["inputs"], "every text", "tests parse well-formed definitions", [PAR], [("parse and its combinators", PAR)], ["rpcgen::parser::parse"])
p("P02", "Constants denote their numeric value", "A decimal (optionally negative), 0x hexadecimal or 0-prefixed octal constant in a definition means exactly that number wherever it is used; digits invalid for the base are refused, and a value is never converted to a width it does not fit.",
  ["inputs"], "every digit string", "tests use a few literals", [PAR, GEN], [("constant", PAR)], ["rpcgen::parser::parse", "rpcgen::gen_code::gen_code"])
p("P03", "Keywords are whole words", "An identifier that merely begins with or contains a keyword or type name is an ordinary identifier, a keyword is never accepted as one, and type words are recognised exactly when they stand alone as a word.",
  ["inputs"], "every identifier", "tests use a few fixed names", [PAR], [("identifier, type_specifier", PAR)], ["rpcgen::parser::parse"])
p("P04", "Layout and comments carry no meaning", "Replacing any white space or comment between two tokens by any other, or adding some where tokens meet, leaves the parsed definitions unchanged.",
  ["inputs"], "every layout of every definition", "tests use a fixed layout each", [PAR], [("white space and comment handling", PAR)], ["rpcgen::parser::parse"])
p("P05", "Declarations are parsed as written", "Each declaration form (plain, pointer, fixed and variable array, opaque, string, void, with or without bound) of each type is parsed to exactly that form with that type, name and bound, in struct, union and typedef position alike.",
  ["inputs"], "every form, type, name and bound", "tests cover one instance of each form", [PAR], [("declaration", PAR)], ["rpcgen::parser::parse"])
p("P06", "Nothing in the source is dropped", "Parsing succeeds only if the entire text is a sequence of definitions, and the result contains every definition, member, enumerator, case label and arm of the text, once, in order.",
  ["inputs"], "every text", "tests count members of fixed texts", [PAR], [("parse, many/separated lists", PAR)], ["rpcgen::parser::parse"])
p("G01", "Code generation never crashes", "For every parsed interface definition and every option set, code generation returns code or an error; it never panics, overflows, loops or recurses without end.",
  ["inputs", "configurations"], "every parsed definition list and every option set", "tests generate from valid definitions only", [GEN], [("gen_code", GEN)], ["rpcgen::gen_code::gen_code"])
p("G02", "Generated enums keep their values", "For every enum, in every mode, the generated code associates each enumerator with exactly the value given in the definition (literal, constant or other enumerator), in both directions; values that are no 32-bit signed number, or that occur twice, are refused, and all others are accepted (complement mode refuses negative ones).",
  ["inputs", "configurations"], "every list of values and every mode", "tests compare the output for fixed values", [GEN], [("enum generation", GEN)], ["rpcgen::gen_code::gen_code"])
p("G03", "Generated unions select arms by case value", "For every union, in every mode, the generated code has an arm for each case value of the definition with that arm's payload, puts it at that discriminant, and routes remaining values to the default arm exactly when there is one; labels that occur twice, do not fit the discriminant or name no enumerator of it are refused, and non-negative others are accepted.",
  ["inputs", "configurations"], "every set of case labels and every mode", "tests compare the output for fixed unions", [GEN], [("union generation", GEN)], ["rpcgen::gen_code::gen_code"])
p("G04", "Generated structs mirror their definition", "A struct generates exactly one field per non-void member, in order, with the type corresponding to its declaration and the adapter its wire form requires; names that collide with the target language's keywords are escaped.",
  ["inputs", "configurations"], "every member list", "tests compare fixed structs", [GEN, KW], [("struct generation", GEN), ("keyword table", KW)], ["rpcgen::gen_code::gen_code"])
p("G05", "Constants generate their value", "Every constant definition generates a constant with exactly the value of the definition, of a type that holds it, and array lengths written as literals or with a constant's or enumerator's name resolve to that value; what has no such value or is negative as a length is refused.",
  ["inputs"], "every value", "tests use fixed values", [GEN], [("const generation, Context", GEN)], ["rpcgen::gen_code::gen_code"])
p("G06", "Type aliases are transparent", "Using a typedef name in any position generates the same types (but for the box around a recursive member) and wire form as writing out the type it stands for, through any chain of aliases.",
  ["inputs", "programs"], "every alias chain and use position", "tests have single-level aliases", [GEN], [("typedef resolution", GEN)], ["rpcgen::gen_code::gen_code"])
p("G07", "Name conversion is stable and total", "Each definition, member and enumerator name is converted to the target's naming style deterministically and with all its letters and digits preserved in order, so that references and definitions always agree; no type gets the name of a type or trait that generated code itself uses.",
  ["inputs"], "every identifier", "tests convert a few names", [GEN], [("case conversion", GEN)], ["rpcgen::gen_code::gen_code"])
p("G08", "Defaults are values of their definition", "In every mode the default value of a generated type is a value of its definition: the default of an enum is one of its enumerators, never a placeholder; the default of a union is one of its case arms, or the default arm if some discriminant is left for it, and where the generated type keeps the discriminant (union mode) it is one that selects that arm; so a default value can be encoded and decodes to itself (a default arm in indexer mode excepted, which keeps no discriminant).",
  ["inputs", "configurations"], "every set of enumerators and case labels, every mode", "tests compare the output for fixed definitions", [GEN], [("Default of enums and unions", GEN)], ["rpcgen::gen_code::gen_code", "Default::default() of generated types"])
p("G09", "Recursive types are finite", "For every list of definitions that refer to each other or themselves, by value, as option, as array or through aliases, code is generated in every mode (only an alias of itself is refused), and no generated type holds itself by value: each member or arm that leads back to its own type is boxed or in a list. The default value of a union does not lead back to the union if some arm does not.",
  ["inputs", "configurations", "programs"], "every graph of references among definitions", "tests have a struct that refers directly to itself", [GEN], [("struct and union generation", GEN)], ["rpcgen::gen_code::gen_code"])
p("G10", "Definitions do not depend on their surroundings", "The code generated for a list of definitions of different names is the same in whatever order they stand, but for the order of its items. Definitions that share no name generate together exactly what each generates alone, and are refused together exactly if one is refused alone. Programs, lines for the output (%) and comments generate nothing and change nothing, whatever names and numbers they hold.",
  ["inputs", "configurations", "programs"], "every order, every pair of unrelated lists", "tests have one order and mostly one definition", [GEN, PAR], [("Context, gen_code", GEN)], ["rpcgen::parser::parse", "rpcgen::gen_code::gen_code"])
p("T01", "Generated code speaks the defined wire format", "For a definition the generator accepts (fixed arrays of at most 32 elements, as serde has them), the generated types compile and encode and decode every value exactly as RFC 4506 prescribes for the definition, identically in every generation mode (complement mode additionally knows the documented placeholders for values between the defined ones).",
  ["inputs", "programs", "configurations"], "every value of every type of the definition, every mode", "tests compare generated text, and round-trip a few fixed values", [GEN, DRV, OPQ, PRIM], [("gen_code + derives + codec", GEN)], ["generated types through serde_xdr::to_bytes / from_bytes"])
p("T02", "Generated code refuses unknown discriminants", "Decoding a union without default or an enum with generated code fails for every discriminant word the definition does not list (except the documented placeholders that complement mode puts between the defined values).",
  ["inputs", "configurations"], "every 32-bit word", "not tested beyond one value", [GEN, DRV], [("generated Deserialize", GEN)], ["generated types through serde_xdr::from_bytes"])
p("M01", "The command line selects the mode", "The command line program writes to its standard output exactly the code the generator produces for the content of the file it is given, with aliases removed and in the mode the options select: --use-std-trait gives enums the standard traits, otherwise --use-indexer gives them indexers; --use-union gives unions union attributes, otherwise --use-extra-trait and --use-indexer give them indexers. When the file cannot be read, is no UTF-8 text, or its definitions are refused, when the path is missing or there are two, or when there is an unknown option, the program ends with a non-zero exit status and no output.",
  ["inputs", "configurations"], "every set and order of options, every path and every content of the file", "the command line is not tested", [MAIN, GEN], [("main", MAIN)], ["rpcgen program: standard output and exit status"])


NA = {}
TECH = "symbolic execution of the compiled LLVM IR of the real code with Z3, counterexamples replayed natively"
NOTE = "Bounded model checking by exhaustive symbolic path exploration: within the stated bounds every input is covered by a completed path whose assertions Z3 (or a byte-domain decision) discharged; outside the bounds nothing is claimed. Trusts rustc's lowering to LLVM IR, the executor's instruction semantics (validated by native replay of sampled paths in every run), Z3, and the reference model in the harness."


def main():
    import jobs
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in PROPS:
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="./check.py --setup", checks=[], not_applicable=[], notes="All checks share lib/driver.py; engine/ is the symbolic executor, h*/ are the harness crates, rt/ their runtime.")
    for q in PROPS:
        i = q["id"]
        if i in jobs.PROPS:
            m["checks"].append(dict(property=i, quick_cmd="./check.py " + i, thorough_cmd="./check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                                    level_note=NOTE + " Bounds: " + jobs.PROPS[i]["bounds"] + "."))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        for q in PROPS:
            jsonschema.validate(q, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        print("valid:", len(m["checks"]), "checks")
    except ImportError:
        pass


main()
