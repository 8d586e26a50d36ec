#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties and their checks."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SET, ARR, PRIM, REPR, TRAITS, MACROS, DERIVE = ("enumset/src/set.rs", "enumset/src/repr/array.rs", "enumset/src/repr/primitive.rs",
                                                 "enumset/src/repr/mod.rs", "enumset/src/traits.rs", "enumset/src/macros.rs",
                                                 "enumset_derive/src/lib.rs")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, level="model_checking", technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [],
                  state=state or [], level=level, technique=technique, note=note))


BITS = dict(name="the bits of a set", meaning="bit d is set iff the variant with discriminant d is a member; all other bits are zero", where=SET + " EnumSet::__priv_repr")
EXH = "exhaustive enumeration of a bounded state space on the real code, compared with a reference model at every step"

prop("C01", "Set algebra equals mathematical sets",
     "For any sets A and B over any enum that can be derived, union, intersection, difference, symmetric difference, complement, and the predicates subset, superset, disjoint, contains, is_empty and len, in their method, operator and assigning-operator forms and with a set or a single variant on the right-hand side, give exactly the result the same operation has on mathematical sets of variants; the operands are left as they were. The complement is taken within the variants the enum has, never within the storage.",
     ["inputs", "configurations"], "all pairs of sets over all enum shapes (dense, sparse, every storage: 8..128-bit integers and arrays of any length)",
     "Tests try a handful of sets on a handful of enums; a wrong word, carry or mask shows only for particular members and storage widths.",
     [SET, ARR, PRIM, REPR], [dict(name="bitwise operations of the storage", where=ARR + ", " + PRIM), dict(name="complement masks with the valid bits", where=SET)], ["return values of the methods and operators of sets"], [BITS],
     technique=EXH, note="All pairs of subsets for enums of up to 9 (thorough 11) variants; for larger ones all pairs from the family of boundary sets (every subset of 6 (9) variants next to storage boundaries over three backgrounds, singletons, co-singletons, prefixes, suffixes). 187 enum declarations: dense of every size from 0 to 66 and boundary sizes to 300, sparse of up to 1094 words, every representation. Assumes other sets of large enums fail like the boundary ones do.")
prop("C02", "Any history of mutations leaves the set a mathematical set would be",
     "After any finite sequence of insertions, removals, clears, bulk insertions and removals, extensions and assigning operators, a set contains exactly what a mathematical set would after the same sequence. insert reports whether the variant was absent before, remove whether it was present, and no operation disturbs any other member or any other set.",
     ["histories", "inputs"], "all sequences of mutating calls from any reachable set",
     "Tests run a few fixed sequences; the guarantee is about every sequence from every reachable state, and a fault may need a particular state of a particular word.",
     [SET, ARR, PRIM], [dict(name="insert, remove, clear, insert_all, remove_all", where=SET), dict(name="add_bit, remove_bit, has_bit", where=ARR + ", " + PRIM)], ["contains, len and the answers of the calls"], [BITS],
     technique="breadth-first exploration of all reachable states under all mutating operations, on the real code against a model", note="All states reachable over 9 (12) boundary variants (all variants of smaller enums) with every mutating operation applied in each; states merge only when both memory and members are equal.")
prop("C03", "Iteration yields every member once, in discriminant order, from both ends",
     "Iterating over a set yields exactly its members, each once, in ascending order of discriminant from the front and descending from the back, under any interleaving of front, back and skipping calls. At every point the reported remaining length is exact, cloning continues independently from the same point, and an exhausted iterator keeps yielding nothing.",
     ["inputs", "histories"], "all sets and all sequences of iterator calls on them",
     "Tests drain iterators from one end, mostly; the two cursors meeting inside a word or at a word boundary needs a particular interleaving on a particular set.",
     [SET, ARR, PRIM, REPR], [dict(name="pop_min and pop_max of the storage's iterators", where=ARR + ", " + PRIM), dict(name="EnumSetIter", where=SET)],
     ["next, next_back, nth, size_hint, len, fold, rev ... of the iterators"], [dict(name="what is left of the set", meaning="the members not yet yielded from either end", where=SET + " EnumSetIter")],
     technique="exhaustive depth-first exploration of all call sequences on the real iterators against a model", note="Subsets of small enums (boundary families for large ones), all sequences of front/back/skip calls on the smaller sets and every split on the others; every adaptor is compared in every intermediate state.")
prop("C04", "Collecting, extending and summing equal the union of what was given",
     "Collecting into a set, extending a set, or summing into a set, from any iterator of variants or of sets, by value or by reference, with repetitions and in any order, gives exactly the union of everything the iterator yielded and, for extending, of what was there before. The iterator is consumed to its end, and what it claims about its length is not relied on.",
     ["inputs", "histories"], "all sequences of variants and sets, in all orders and multiplicities, with any claimed length",
     "Tests collect a few lists without repetition from well-behaved iterators.",
     [SET], [dict(name="FromIterator, Extend and Sum impls", where=SET)], ["the resulting set"], [BITS],
     technique=EXH, note="All sequences up to a length over boundary variants and sets, each through every collecting interface, with honest, missing and lying size hints.")
prop("C05", "One set, one representation: bits of no variant never appear",
     "However a set was made (safe constructors, operators, complement, conversion with truncation, deserialization, iteration, constants), no bit that belongs to no variant is ever set in it. So two sets with the same members are equal, hash alike and convert to the same numbers, whatever their histories, and the full set has exactly the enum's variants.",
     ["histories", "inputs"], "all ways of making a set, composed in any order",
     "Tests compare sets made in the same way; a stray bit is invisible to contains and shows only in another operation's answer, later.",
     [SET, ARR, PRIM, DERIVE], [dict(name="masking with the valid bits", where=SET), dict(name="the mask of valid bits", where=DERIVE)], ["equality, hash, len, exported words"], [BITS],
     technique=EXH, note="Every set of the family made in 34 ways, pairs under 16 operations, all constants of C12, and every set deserialized from the inputs of C18 and from junk; each compared in every observable with the set made by inserts.")
prop("C06", "Integers made from a set are its bits, or there is no integer",
     "Converting a set to an unsigned integer of 8, 16, 32, 64, 128 bits or pointer size gives the number whose n-th bit is set exactly for each member of discriminant n, whenever the conversion that fails on overflow is used and every member fits; when some member does not fit, that conversion reports it. The truncating form gives exactly the low bits, and the panicking form panics exactly when the checking one reports failure.",
     ["inputs", "configurations"], "all sets, all target widths, all storages",
     "Tests cover a few values and widths; truncation errors need a member just above a width boundary in a wider storage.",
     [SET, ARR, PRIM], [dict(name="as_*/try_as_*/as_*_truncated", where=SET), dict(name="to_*_opt and friends", where=ARR + ", " + PRIM)], ["the returned integers"], [BITS],
     technique=EXH, note="All sets of the family through every integer conversion, compared with numbers computed from the declared discriminants; usize also on 32-bit and big-endian platforms, under Miri.")
prop("C07", "Sets made from integers have exactly the members the bits say",
     "From an unsigned integer of any width, the checking conversion gives the set whose members' discriminants are exactly the set bits, or reports failure when some bit belongs to no variant; the panicking form panics exactly then; the truncating form drops exactly those bits. Converting to an integer and back gives the same set.",
     ["inputs", "configurations"], "all integers of all widths, all storages",
     "Tests try a few integers; a wrong mask needs an invalid bit at a particular position relative to the storage and the source width.",
     [SET, ARR, PRIM], [dict(name="from_*/try_from_*/from_*_truncated", where=SET), dict(name="from_*_opt and friends", where=ARR + ", " + PRIM)], ["the returned sets"], [BITS],
     technique=EXH, note="All 8- and 16-bit integers; for wider ones all combinations of boundary bits, every single bit and every pair; usize also on 32-bit and big-endian platforms, under Miri.")
prop("C08", "Exporting words to arrays, slices and vectors is exact or refused",
     "Exporting a set as an array of 64-bit words, into a caller's slice, or as a vector gives bit n%64 of word n/64 for each member of discriminant n and zero everywhere else, including all excess words of a longer destination. When the destination cannot hold a member, the checking form reports failure leaving the caller's slice as it was, the panicking form panics, and the truncating form writes exactly the low words.",
     ["inputs", "configurations"], "all sets, all destination lengths from zero up, all prior contents of the destination",
     "Tests use matching lengths and zeroed destinations.",
     [SET, ARR, PRIM], [dict(name="as_array, copy_into_slice, to_vec families", where=SET), dict(name="to_u64_slice, to_u64_array", where=ARR + ", " + PRIM)], ["arrays, slices and vectors returned or written"], [BITS],
     technique=EXH, note="All sets of the family with slices and arrays of every length from 0 to two more than needed (arrays to 10), over several fill patterns, guarded on both sides.")
prop("C09", "Sets made from words have exactly the members the words say",
     "From an array or slice of 64-bit words of any length, shorter or longer than the storage, the checking conversion gives exactly the set the words describe or reports failure when any bit of any word belongs to no variant; the panicking form panics exactly then; the truncating form drops exactly those bits.",
     ["inputs", "configurations"], "all word lists of all lengths, all storages",
     "Tests use matching lengths with few invalid bits; words beyond the storage and missing words are rarely tried.",
     [SET, ARR, PRIM], [dict(name="from_array, from_slice families", where=SET), dict(name="from_u64_slice, from_u64_array", where=ARR + ", " + PRIM)], ["the returned sets"], [BITS],
     technique=EXH, note="All word lists of length 0 to two beyond the needed one over per-position letters (none, valid, lowest/highest invalid bit, ...), plus every single bit of every position over two backgrounds.")
prop("C10", "An explicitly chosen representation is the memory layout, both ways",
     "For an enum with an explicitly chosen integer representation, a set has exactly that integer's size, alignment and bytes, the integer obtained from it has bit n set exactly for members of discriminant n, and the checking, truncating and panicking conversions from that integer accept, mask or refuse exactly the bits of no variant. This holds in memory shared with foreign code and in aggregates of sets.",
     ["inputs", "configurations"], "all declarations with an explicit representation, all values of the integer",
     "Tests check few representations, at one or two values.",
     [SET, TRAITS, DERIVE], [dict(name="repr attribute and EnumSetTypeWithRepr", where=DERIVE + ", " + TRAITS), dict(name="transparent layout", where=SET)], ["size, alignment, bytes, repr conversions"], [BITS],
     technique=EXH, note="All combinations of 11 (15) boundary bits of every explicit representation, all sets of the family; bytes read and written through pointers and in aggregates.")
prop("C11", "Equality, order and hash of sets agree and are lawful",
     "Sets are equal exactly when they have the same members, and equal sets hash alike with every hasher. Comparison is a total order consistent with equality, with partial and total comparison agreeing, and for sets stored in one integer it is the order of the numbers they convert to. Comparing a set with a variant asks whether the set is exactly that one variant.",
     ["inputs"], "all pairs and triples of sets",
     "Laws over pairs and triples are not settled by samples; tests compare few sets.",
     [SET, ARR, PRIM], [dict(name="PartialEq, Ord, Hash impls", where=SET + ", " + ARR)], ["==, cmp, partial_cmp, hash output"], [BITS],
     technique=EXH, note="All pairs (and triples of a sub-family) of sets of the family under ==, partial_cmp, cmp, <, max and three hashers.")
prop("C12", "Constant set macros equal the run-time operations",
     "Every constant-context macro (literal, union, intersection, difference, symmetric difference, complement), with any number of operands, each a variant or a constant set, with any trailing separators, evaluates at compile time to exactly the set that the run-time operators give on the same operands from left to right, for every storage. They need nothing imported but the macro itself.",
     ["inputs", "programs"], "all operand lists (length, order, repetition, mix of variants and constant sets), all storages",
     "Each macro use is a program; tests have about a dozen, with one or two operands and small integers.",
     [MACROS, DERIVE, SET], [dict(name="enum_set! family", where=MACROS), dict(name="const helpers generated per storage", where=DERIVE)], ["constants, compared with run-time results"], [BITS], level="exploration",
     technique="exhaustive generation of const expressions up to a size bound; each compiled, evaluated by rustc and compared with the model",
     note="All macro invocations up to 3 operands (thorough 4) over an operand alphabet, for enums of every storage; evaluated in const context and compared with the model's words and with the run-time operators.")
prop("C13", "The derive maps every variant to the bit of its discriminant",
     "For every declaration the derive accepts, in any order of variants, with explicit or implied discriminants in any notation, each variant occupies the bit of the discriminant rustc gives it and no other; the bit width is the highest discriminant plus one, the variant count is the number of variants, and the full set has exactly them. Where all discriminants are below 64 (or an integer is requested) the set is as small as the smallest (requested) integer that holds them.",
     ["programs", "inputs"], "all enum declarations up to a size: variants, order, discriminants, notation, attributes",
     "Every declaration is a separate program; tests have a few dozen, nearly all in ascending order.",
     [DERIVE, SET], [dict(name="discriminant tracking and mask generation", where=DERIVE), dict(name="bit_width, variant_count, all", where=SET)], ["bit_width, variant_count, all, only, size_of, conversions both ways"], level="exploration",
     technique="bounded exhaustive generation of declarations; each compiled with the real derive and its sets compared with the model", note="All declarations up to a size bound over a discriminant alphabet around storage boundaries, in all orders and implied/explicit combinations; expected mapping computed independently by Rust's rules.")
prop("C14", "The derive accepts exactly what is documented and refuses the rest",
     "A declaration within the documented limits (fieldless, discriminants that are non-negative integer literals up to the documented maximum, a representation or serialization integer wide enough for the highest discriminant) compiles with any combination of documented options; any declaration outside them is a compile error, never a program that behaves differently. Suppressing the generated operators or basic traits removes exactly those.",
     ["programs", "configurations"], "all declarations near each documented limit, all combinations of options",
     "Tests have some twenty accepted or refused programs; limits are conjunctions of shape, discriminant, representation and options.",
     [DERIVE], [dict(name="attribute parsing and validation", where=DERIVE)], ["whether rustc accepts the program"], level="exploration",
     technique="bounded exhaustive generation of programs at the documented limits, each judged by rustc against the documented rule", note="17 240 programs (quick): boundary discriminants x representations x serialization formats x options, every refused construct x layout x option, option sets to 4; each judged by rustc, the refused ones alone in their file. Discriminants near the documented maximum are checked for refusal only: accepting one would make a 512 MB constant.")
prop("C15", "Integer serialization is the bits in the smallest or chosen width",
     "A set in an integer format is written as exactly one unsigned integer, of the smallest standard width that fits the highest discriminant or of the width chosen by attribute, holding the set's numeric representation whatever its storage. Reading accepts every integer the format can give whose bits are valid and gives back exactly that set, and refuses everything else with an error and no panic.",
     ["inputs", "configurations"], "all sets, widths, storages, and all tokens a deserializer can produce",
     "Tests round-trip a few sets through one format, so writer and reader can be wrong together.",
     [DERIVE, PRIM, ARR, SET], [dict(name="generated serialize/deserialize for integers", where=DERIVE)], ["calls made to serializer and deserializer; JSON text; binary bytes"], [BITS],
     technique=EXH + " (recording serializer, token-driven deserializer)", note="All sets of the family x 372 (enum, format, policy, storage) combinations; all integer tokens around every power of two, all other token kinds.")
prop("C16", "List and map serialization carry exactly the members",
     "In the list format a set is written as a sequence of its members, each once, and read back as the set of whatever variants are listed, in any order and with repetitions; in the map format as a map of its members to true, and read back as the set of the keys that any of its entries maps to true. The announced length equals what is written, no size hint of the input is relied on, and an unknown element or a wrongly typed entry is an error.",
     ["inputs", "histories"], "all sets; all sequences of elements or entries up to a length, with any size hint",
     "Tests read back what was written; order, repetition, false entries, lying hints and unknown names are not covered.",
     [DERIVE], [dict(name="generated serialize/deserialize for list and map", where=DERIVE)], ["calls made to serializer and deserializer; JSON and binary round trips"], [BITS],
     technique=EXH + " (recording serializer, token-driven deserializer)", note="All sets of the family, all element sequences up to 6 (map: 4; thorough 9 and 6) over boundary variants and an unknown one, each under honest, missing and lying hints.")
prop("C17", "Array serialization is the word list, of any length when reading",
     "In the array format a set is written as a sequence of 64-bit words where bit n%64 of word n/64 says whether the variant of discriminant n is a member (words left out at the end being zero), with the announced length equal to what is written. Reading takes a word list of any length, missing words being zero and further zero words being harmless, gives back exactly the set described, consumes all input, and refuses wrongly typed elements with an error.",
     ["inputs", "configurations"], "all sets, all storages, all word lists",
     "Tests round-trip through matching lengths only.",
     [DERIVE, ARR, PRIM, SET], [dict(name="generated serialize/deserialize for arrays", where=DERIVE)], ["calls made to serializer and deserializer; JSON and binary bytes"], [BITS],
     technique=EXH + " (recording serializer, token-driven deserializer)", note="All sets of the family for 128 enums, every list length up to two beyond the storage and far longer zero-padded ones, junk at every position.")
prop("C18", "Unknown bits are ignored or refused as declared, never kept, never a panic",
     "When an integer or word list being deserialized has a bit that belongs to no variant, the result is by default exactly the set of the known bits, as if the others were zero, and with the denying option it is an error; a value without such bits is accepted either way. This holds for every format, storage and position of the unknown bits, including words beyond the storage, and nothing panics.",
     ["inputs", "configurations"], "all values with unknown bits, all formats, storages and policies",
     "Tests try one unknown bit on one or two enums; the policy is implemented separately per format and the position of the bit matters.",
     [DERIVE, SET, ARR, PRIM], [dict(name="serialize_deny_unknown", where=DERIVE), dict(name="truncating conversions", where=SET)], ["deserialization results"], [BITS],
     technique=EXH + " (token-driven deserializer, JSON, binary)", note="All 8-bit values (thorough 16-bit), every single and pair of unknown bits over boundary sets otherwise, all word lists up to two beyond the storage over letters with unknown bits, for 500 (enum, format, policy, storage) combinations.")
prop("C19", "A failing serializer or deserializer surfaces as its own error",
     "If any call a set makes to a serializer or deserializer fails, at whatever point of whatever format, the operation returns that same error, without panicking and without making any further call. Nothing is returned as success after a failure, and what was announced (lengths, key-value alternation) has been kept up to that point.",
     ["fault_sequences", "inputs"], "a fault at every call position of every serialization and deserialization",
     "No test injects a fault.",
     [DERIVE], [dict(name="error propagation in generated code", where=DERIVE)], ["the error returned and the calls made after the fault"], level="fault_enumeration",
     technique="exhaustive fault injection at every call position, on the real code", note="For each of 590 (enum, format, policy, storage) combinations and each set and input of the family, every call is made to fail once.")
prop("C20", "Debug and Display list exactly the members in order",
     "Formatting a set names exactly its members, in ascending order of discriminant, using the variants' own formatting: Debug as the set type around a separated list, Display as the bare list. A failing writer makes formatting fail, without panic and without further writes.",
     ["inputs", "fault_sequences"], "all sets, all formatter options, a write failing at every position",
     "Tests format two or three sets and never fail a write.",
     [SET], [dict(name="Debug and Display impls", where=SET)], ["formatted text; error on failing writer"], [BITS],
     technique=EXH + "; fault at every write", note="All sets of the family under 12 format specifications, 576 combinations of flags on members that echo what they see, a writer failing at every call and byte, and members that fail.")
prop("C21", "Operators on variants equal operators on one-element sets",
     "A variant used as an operand behaves as the set of just that variant: not, and, or, xor and minus between variants, and between variants and sets, give exactly what the same operation gives on sets, in either order. The generated equality, copy and clone of variants are those of ordinary field-less enums, and comparing a variant with a set asks whether the set is exactly that variant.",
     ["inputs", "configurations"], "all pairs of variants and of variant and set, all declarations",
     "Tests use a few pairs of one enum.",
     [DERIVE, SET], [dict(name="operator impls generated on the enum", where=DERIVE), dict(name="From<T> and operators generic over Into", where=SET)], ["results of the operators"], [BITS],
     technique=EXH, note="All pairs of variants and all (variant, set of the family) pairs for all enums with operators.")
prop("C22", "No undefined behaviour is reachable from safe code, on any platform",
     "No sequence of safe calls on sets, iterators, conversions and serialization has undefined behaviour: every variant handed out is a valid value of its enum, whatever its integer type, layout or discriminants, and no memory is misused. This includes 32-bit and big-endian platforms, where the results are also the same.",
     ["inputs", "configurations", "histories"], "all safe uses, all enum layouts, all platforms",
     "Tests run natively, where producing an invalid enum value or reading beyond a value goes unnoticed.",
     [DERIVE, SET, ARR, PRIM], [dict(name="reconstruction of variants from bit numbers by pointer cast", where=DERIVE), dict(name="unsafe conversions", where=SET)], ["an interpreter that detects undefined behaviour"], [BITS],
     technique="exhaustive enumeration of sets and operations executed under an undefined-behaviour-detecting interpreter (Miri)", note="One exploration of the public safe API over 53 enums (every layout, storage and platform-dependent conversion) under Miri on x86-64 and 32-bit big-endian (thorough: also 32-bit little-endian, 64-bit big-endian, tree borrows, features); the transcripts equal the native one. Smaller bounds than the native checks: interpretation is slow. Undefined behaviour that Miri does not detect would be missed.")
prop("C23", "Answers do not depend on cargo features, optimization or build profile",
     "Every observable answer of the library (sets, integers, words, order, iteration, formatting, serialized form, whether a call panics) is the same under every combination of cargo features and under every build profile. A feature only adds interfaces.",
     ["configurations", "inputs"], "all feature combinations x build profiles, same inputs",
     "The tests run under one configuration; enumset has code that differs by feature and debug assertion.",
     ["enumset/Cargo.toml", "enumset_derive/Cargo.toml", SET, DERIVE, "enumset/src/lib.rs"], [dict(name="feature gates", where=SET + ", " + DERIVE)], ["fingerprint of all answers of a fixed exhaustive exploration"],
     technique="differential exhaustive exploration: one bounded state space explored under every configuration, transcripts compared with the model and each other", note="The exploration of C22 run natively under 13 (thorough 67) combinations of features, optimization level, overflow checks and debug assertions.")
prop("C24", "Derive and macros work in any scope, under any crate name, without std",
     "Code generated by the derive and the macros compiles and behaves the same wherever it is used: without any import, where the names of the prelude and of the crates are shadowed by other types, traits, modules or macros, for enums and variants of any name, in functions, modules and macros, with warnings denied, with the library renamed and named by option or found automatically, and in crates without std. It leaks no name into the surrounding scope.",
     ["programs", "configurations"], "all surrounding scopes and names",
     "Each scope is a program of its own; tests use the library under its own name with everything imported.",
     [DERIVE, MACROS], [dict(name="fully qualified paths in generated code", where=DERIVE + ", " + MACROS), dict(name="crate name resolution", where=DERIVE)], ["whether the program compiles, and its answers"], level="exploration",
     technique="bounded exhaustive generation of programs (scope x shadowed name x option), compiled and run", note="Every name the generated code could capture as type, variant, trait, module, macro or function in scope, over kinds of storage and format, in 19 scopes and 4 editions; every macro with every number of operands with nothing imported; renamings; no_std. Stated for scopes that follow Rust's naming conventions for values (a constant named x breaks most macros).")

prop("C25", "Sets of different enums never mix; what is unsafe has to say so",
     "Any macro, operator, method, conversion, comparison or collection whose operands belong to different enums, or are neither variant nor set, is refused by the compiler, however alike the enums are. So are an unchecked constructor outside unsafe code, a hand-written implementation of enumset's traits that does not say unsafe, and a representation integer of another type than the chosen one. With operands of one enum each compiles and works, in constants where documented, in functions generic over the enum, and a set is plain data (Copy, Send, Sync, Eq, Ord, Hash, Default) whatever its enum.",
     ["programs"], "all operations x operand positions x kinds of operand x storages",
     "Each use is a program of its own; the tests refuse two or three, and a macro that lost its type check goes on accepting every correct program.",
     [MACROS, DERIVE, SET, TRAITS], [dict(name="typed const helpers", where=DERIVE + ", " + MACROS), dict(name="bounds of the operators", where=SET), dict(name="unsafe traits", where=TRAITS)], ["whether the program compiles, and its answers"], level="exploration",
     technique="bounded exhaustive generation of programs (operation x position x operand x storage), judged by rustc and run", note="13 kinds of storage, every macro of up to 3 (thorough 4) operands with an operand of a twin enum at each position, 44 run-time operations, every unchecked constructor, every trait of sets and iterators; each refused program has an accepted twin. Thorough: three editions.")

CLAIMED = None  # None: all


def main():
    from_ids = os.environ.get("CLAIM")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
    import sys
    sys.path.insert(0, os.path.join(HERE, "lib"))
    from checks import CHECKS
    checks, na = [], []
    for p in P:
        if p["id"] in CHECKS:
            assert CHECKS[p["id"]][1] == p["level"], p["id"]
            checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                               evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo are needed: every property is decided through the public API and rustc. Known findings and fixed defects: known_findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
