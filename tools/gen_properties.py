#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and edit)."""
import json, os
A = "src/bv/arithmetic.rs"; O = "src/bv/ops.rs"; W = "src/bv/owned.rs"; B = "src/bv/borrowed.rs"
I = "src/bv/indexed.rs"; S = "src/bv/io/strings.rs"; Y = "src/bv/io/bytes.rs"; G = "src/bv/io/bigint.rs"
R = "src/array/owned.rs"; RO = "src/array/ops.rs"; L = "src/lib.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Values stay canonical and exact through any program of operations",
 "Every bit-vector value of width w that can be obtained from the public API, by any sequence of constructors, arithmetic, bitwise, shift, structural, conversion and in-place operations used within their preconditions, occupies exactly ceil(w/64) 64-bit words and has every bit at position w or above equal to zero. Its numeric value equals what the same program computes on unbounded integers reduced modulo 2^w, and operations never change their operands.",
 ["programs", "histories"], "every finite program of API calls over a pool of owned values and borrowed/mutable views, at every width from 1 bit upwards (multi-word and spilled storage included)",
 "The unit tests call one internal function at a time on fresh inputs; they never chain operations, so an operation that leaves a stray upper bit or corrupts an operand is only visible in a later comparison, hash or conversion that no test performs.",
 [A, O, W, B, Y, G, S], [("masking of the most significant word after each operation", A+":mask_msb"), ("allocation of the result words", W+":value_vec_zeros"), ("operation front ends", O)],
 ["BitVecOps::words", "BitVecOps::width"], [("words", "little-endian 64-bit words of a value", W+":BitVecValue"), ("width", "number of bits", W+":BitVecValue")])

prop("C02", "Addition, subtraction, negation and multiplication are modulo 2^width",
 "For two values of the same width w, addition, subtraction and multiplication, and negation of one value, return a value of width w equal to the integer result reduced modulo 2^w. This holds for every width, for the operator forms as well as the named operations, and for every mix of owned, borrowed and mutably borrowed operands.",
 ["inputs"], "every width >= 1 and every pair of values of that width, in every operand representation",
 "Tests sample 2000 random pairs with small magnitudes or few words; carries that ripple through several all-ones words, widths that are exact multiples of the word size and multiplication beyond 64 bits (its test is ignored) are not settled.",
 [A, O, W], [("carry chain", A+":adc"), ("add/sub/mul/negate", A), ("one-word fast path", O+":declare_arith_bin_fn"), ("operator impls", W)],
 ["BitVecOps::add", "BitVecOps::sub", "BitVecOps::mul", "BitVecOps::negate", "&a + &b", "&a - &b"])

prop("C03", "Bitwise operations and bit access act on exactly the addressed bits",
 "Bitwise and, or, xor and complement of values of width w return, at every bit position below w, the Boolean function of the operands' bits at that position, with no other bit set. Reading bit i returns bit i of the value, setting or clearing bit i changes bit i and no other bit, and the word-mask helper returns a word with exactly the requested number of low bits set (all 64 for 0 and for 64).",
 ["inputs"], "every width >= 1, every value pair, every bit position below the width, every operand representation",
 "There is no test at all of and/or/xor/not or of set/clear/test bit; position and width are unbounded.",
 [A, O], [("bitwise loops", A+":bitwise_bin_op"), ("bit addressing", A+":is_bit_set,set_bit,clear_bit"), ("mask", A+":mask")],
 ["BitVecOps::and/or/xor/not/is_bit_set", "BitVecMutOps::set_bit/clear_bit", "mask"])

prop("C04", "Shifts move bits by the full shift value and saturate beyond the width",
 "Shifting a value of width w by an amount given as another value of width w multiplies or divides by 2^amount: a left shift is modulo 2^w, a logical right shift fills with zeros, an arithmetic right shift fills with the sign bit. The amount is interpreted as the full unsigned w-bit number, so every amount >= w yields zero (or all sign bits for the arithmetic shift).",
 ["inputs"], "every width >= 1, every value, every shift amount representable in that width including amounts that need more than one word",
 "The tests take shift amounts below 2^32 from strings of at most 32 characters, so no tested value exceeds one word except four fixed cases, and no shift amount ever has non-zero upper words.",
 [A, O], [("amount decoding", A+":get_shift_amount"), ("left shift loop", A+":shift_left"), ("right shift as slice", A+":shift_right"), ("sign fill", A+":arithmetic_shift_right")],
 ["BitVecOps::shift_left/shift_right/arithmetic_shift_right"])

prop("C05", "Slicing, concatenation and extension place every bit exactly",
 "slice(hi, lo) with lo <= hi < w returns the hi-lo+1 bits from lo to hi; a concatenation has the summed width, the right operand in the low bits and the left operand directly above it; zero and sign extension by n bits keep the low bits and fill the n new upper bits with zeros or with copies of the sign bit. This holds for every alignment of the positions and widths to the storage words.",
 ["inputs"], "every width >= 1, every value, every legal hi/lo pair, every extension amount (including 0) and every pair of widths",
 "The tests use bit strings of at most 32 characters, so slices and concatenations crossing one or several 64-bit word boundaries are practically never exercised.",
 [A, O], [("shifted word copy", A+":slice"), ("shifted append", A+":concat"), ("sign fill", A+":sign_extend"), ("one-word fast paths", O)],
 ["BitVecOps::slice/concat/zero_extend/sign_extend"])

prop("C06", "Every comparison predicate agrees with the integer order",
 "For two values of equal width, equality, inequality and the four unsigned order predicates agree with comparing the unsigned integers, and the four signed order predicates agree with comparing the two's complement integers; hence exactly one of less, equal, greater holds and 'or equal' forms are their unions. Zero, negative, true and false tests agree with the value, true and false being recognised only at width 1.",
 ["inputs"], "every width >= 1, every pair of values, in every operand representation",
 "Tests compare random pairs through the internal functions only; equal multi-word operands, operands that differ only in one middle or low word, and the public front ends (including the 'less' forms) are not covered.",
 [A, O], [("word-wise comparison", A+":is_greater_and_not_less"), ("sign cases", A+":cmp_greater_signed,cmp_greater_equal_signed"), ("front ends", O)],
 ["BitVecOps::is_equal ... is_less_or_equal_signed", "BitVecOps::is_zero/is_negative/is_tru/is_fals"])

prop("C07", "Equality, hashing and ordering of values are mutually consistent",
 "Two values compare equal with == exactly when they have the same width and the same bits, no matter whether each is owned, borrowed or mutably borrowed and how each was computed; equal values hash equally, owned or borrowed, and the provided total order returns Equal exactly for equal values and is antisymmetric and transitive. Therefore a value can be stored and found again in hash and ordered collections, also when looked up by a borrowed view.",
 ["inputs", "histories"], "all pairs and triples of values of equal or different width, values produced along different computation paths, and map/set histories keyed by values",
 "One test hashes values of at most 32 bits against their own borrowed view; distinct values, different widths with equal words, ordering and use in collections are never exercised.",
 [W, B], [("PartialEq across representations", W+":PartialEq, "+B+":PartialEq"), ("derived Hash and Ord", W+":BitVecValue"), ("Borrow for hash map lookup", B+":Borrow")],
 ["==", "Hash", "Ord", "HashMap/BTreeMap keyed by BitVecValue"])

prop("C08", "Machine-integer and bool conversions are exact or refuse",
 "Creating a w-bit value from an unsigned or signed 64-bit integer that fits in w bits gives exactly that unsigned or two's complement number. Reading a value back as unsigned (signed) 64-bit returns that number whenever the unsigned (two's complement) value is representable in 64 bits and nothing otherwise, at every width; conversion to bool gives the bit at width 1 and nothing at any other width.",
 ["inputs"], "every width >= 1 (width 0 for reading), every 64-bit integer that fits, and every value of any width including negative numbers wider than 64 bits",
 "The tests round-trip only at width 64, plus a handful of 1- and 4-bit cases.",
 [O, W, A], [("from_u64/from_i64", O+":assign_from_u64,assign_from_i64"), ("to_u64/to_i64", O), ("bool", O+":to_bool, "+W+":from_bool")],
 ["BitVecValue::from_u64/from_i64/from_bool", "BitVecOps::to_u64/to_i64/to_bool"])

prop("C09", "Little-endian byte conversion is exact and lossless",
 "Exporting a w-bit value yields exactly ceil(w/8) bytes, least significant first, whose unused top bits are zero. Importing at most ceil(w/8) bytes yields the w-bit value those bytes denote, missing bytes counting as zero and bits at position w or above being ignored, so that import after export is the identity.",
 ["inputs"], "every width >= 0, every value, every byte string of at most ceil(w/8) bytes",
 "The test derives the width from the byte string itself, so short inputs, wide targets and non-zero bits above the width are never tried.",
 [Y, W], [("byte loops", Y), ("mask", A+":mask_msb")], ["BitVecValue::from_bytes_le", "BitVecOps::to_bytes_le"])

prop("C10", "Big-integer conversion is exact in both signs",
 "Converting a value to a big unsigned (signed) integer gives its unsigned (two's complement) number. Converting a big integer to w bits gives the unique w-bit value congruent to it modulo 2^w, and the width-inferring conversions choose a width at which converting back returns the same integer.",
 ["inputs"], "every width >= 1 (width 0 for reading), every value, and every big integer of either sign and any magnitude, fitting or not",
 "Tests cover integers at their inferred width only; wider and narrower targets, the most negative value and word-aligned widths are left to chance.",
 [G, W], [("digit copy and masking", G+":iter_to_word"), ("sign handling", G+":to_big_int,from_big_int"), ("width inference", G+":count_big_int_bits")],
 ["BitVecOps::to_big_int/to_big_uint", "BitVecValue::from_big_int/from_big_uint", "From<&BigInt>/From<&BigUint>"])

prop("C11", "Fixed-point conversion is exact or refuses",
 "Interpreting a value as an unsigned or signed fixed-point number with f fraction bits (f <= width) returns either exactly the unsigned (two's complement) value divided by 2^f or nothing. It does return a number whenever the width is at most 64 and f is at most 63.",
 ["inputs"], "every width >= 1, every value and every fraction width from 0 to the width",
 "There is no test of the fixed-point conversions at all.",
 [O], [("to_signed_fixed_point / to_unsigned_fixed_point", O)], ["BitVecOps::to_signed_fixed_point/to_unsigned_fixed_point"])

prop("C12", "Every textual rendering denotes the value exactly",
 "The binary and hexadecimal renderings of a w-bit value consist of exactly w binary or ceil(w/4) lower-case hexadecimal digits and denote the unsigned value; the decimal rendering is the unsigned value without leading zeros. The signed binary and hexadecimal renderings denote the two's complement value, starting with '-' exactly when the value is negative, including the most negative value. Debug output contains the binary rendering.",
 ["inputs"], "every width (>= 0 unsigned, >= 1 signed), every value, every representation it can be rendered from",
 "Tests render strings of at most 33 characters, so they never render the most negative value, wide decimal numbers, or signed values whose magnitude ends exactly at a word boundary.",
 [S, O, W, B], [("bit digits", S+":to_bit_str_internal"), ("hex digits", S+":to_hex_str_internal"), ("decimal", S+":to_dec_str_internal"), ("signed forms", S+":to_bit_str_signed,to_hex_str_signed")],
 ["BitVecOps::to_bit_str/to_hex_str/to_dec_str/to_bit_str_signed/to_hex_str_signed", "Debug"])

prop("C13", "Parsing a numeral that fits yields exactly its value and round-trips",
 "Parsing a well-formed numeral (optional sign, at least one digit of the radix, upper or lower case, any number of leading zeros) that fits the requested width yields exactly that number, negative numerals in two's complement; radix 2, 10 and 16 work at every width and any radix from 2 to 36 at widths up to 128. The width-inferring parsers use one bit per binary and four per hexadecimal digit, plus one for a leading minus. Parsing any rendering of a value at its width gives the value back.",
 ["inputs"], "every width, every numeral that fits, every supported radix, owned construction and assignment over an arbitrary previous value",
 "Test strings have at most 33 characters, so the multi-word parsers see almost no input; leading zeros, decimal above 128 bits and radixes other than 2, 10 and 16 are untested.",
 [S, W, O], [("narrow parse via std", S+":from_str_radix"), ("wide parse", S+":parse_base_2,parse_base_10,parse_base_16"), ("width inference", S+":determine_width_from_str_radix")],
 ["BitVecValue::from_bit_str/from_hex_str/from_str_radix", "BitVecMutOps::assign_from_str_radix"])

prop("C14", "Any other text is rejected cleanly, never accepted, never a crash",
 "Parsing arbitrary text never panics: non-empty text that is not a numeral of the radix is rejected with an error (an invalid-digit error unless it is also too long for the width), and a numeral that does not fit the width (unsigned value >= 2^w, or negative below -2^(w-1)) is rejected with an exceeds-width error instead of being truncated or stored. Whatever the outcome of parsing into an existing value, that value keeps its width and has no bit set at or above it.",
 ["inputs"], "every string (ASCII or not, any length), every width >= 1, radix 2, 10 and 16 (2 to 36 at widths up to 128)",
 "No test parses an invalid or oversized string.",
 [S, W, O], [("digit checks", S+":hex_digit_value,parse_base_2,parse_base_16"), ("width check", S+":from_str_radix")],
 ["Result of BitVecValue::from_bit_str/from_hex_str/from_str_radix", "BitVecMutOps::assign_from_str_radix"])

prop("C15", "In-place updates replace the whole value and touch nothing else",
 "After any sequence of in-place updates (assign from a value, from a 64-bit integer, from text, set to zero, set to all ones, set or clear a bit, re-mask after raw word writes) on an owned value or through a mutable view, the target holds exactly what the last updates denote, with no residue of earlier contents. The width, the source of an assignment and any neighbouring values are unchanged.",
 ["histories"], "every sequence of in-place updates from any starting contents, at every width >= 1, through owned values and mutable views",
 "Tests update freshly zeroed values once, so residue of earlier contents and updates through views are not observed.",
 [O, B, A], [("assign*", O+":BitVecMutOps"), ("bit updates", A+":set_bit,clear_bit")], ["BitVecMutOps on BitVecValue and BitVecValueMutRef"])

prop("C16", "Arrays behave as total maps from index to value",
 "After any history of stores, clears, densification and cloning on an array with index width i and data width d, selecting an index returns the data most recently stored there, or zero if the array was cleared since, or else the initial default. Stores to one index never affect another index or another copy, dense and sparse representations answer identically, and the reported index width, data width and number of elements match the array's type.",
 ["histories"], "every history of operations on dense and sparse arrays, every data width >= 1, index widths from 0 to beyond 64 bits for sparse arrays and as far as memory allows for dense arrays",
 "The only array tests convert four fixed small arrays; store, select and clear are never called by any test.",
 [R, RO], [("dense element addressing", R+":DenseArrayValue"), ("sparse maps and default", R+":SparseArrayValue"), ("dispatch", R+":ArrayValue")],
 ["ArrayOps::select", "ArrayMutOps::store/clear", "ArrayValue::new_dense/new_sparse/make_dense", "SparseArrayValue::new"],
 [("map", "indices whose data differs from the default", R+":SparseArrayImpl"), ("default", "data of all other indices", R+":SparseArrayImpl")])

prop("C17", "Changing an array's representation preserves every element",
 "Converting a slice of bools, bytes or 64-bit words to an array keeps element k at index k, uses the smallest index width that covers the slice and fills the remaining indices with zero. Making a sparse array dense, and converting a dense array to a sparse one, preserve the type and every element, and composing such conversions in any order is the identity on contents.",
 ["inputs", "histories"], "every slice of any length and contents, every array contents and type that can be held densely, every chain of conversions",
 "The tests convert four fixed arrays with elements below 8 and never arrays with elements wider than 64 bits.",
 [R], [("slice import", R+":From<&[T]>"), ("densify", R+":From<&SparseArrayValue>"), ("sparsify and default search", R+":From<&DenseArrayValue>")],
 ["From<&[bool]>/From<&[u8]>/From<&[u64]>", "ArrayValue::make_dense", "SparseArrayValue::from(ArrayValue)"])

prop("C18", "Array and value equality is extensional and respects types",
 "Two arrays of the same index and data width are equal exactly when they agree at every index, regardless of representation, default value or the history that produced them, so equality is reflexive, symmetric and transitive; arrays of different types are reported as not comparable and as unequal. The array-or-bit-vector wrapper is equal only for equal contents of the same kind and unwraps only to the kind it holds.",
 ["inputs", "histories"], "all pairs and triples of arrays of equal or different type in any representation, built by any history, and all wrapper values",
 "Equality is tested only between an array and its own conversion; unequal arrays, different defaults and different types are not.",
 [R, L], [("same-representation comparison", R+":is_equal"), ("mixed comparison", R+":is_equal_mixed"), ("wrapper", L+":Value")],
 ["ArrayValue::is_equal", "==", "TryFrom<Value>"])

prop("C19", "A sparse array enumerates exactly its non-default entries",
 "The entry iterator of a sparse array yields each index whose data differs from the reported default exactly once, with its current data and with the array's index and data widths, and yields nothing else. Together with the default it determines the array: rebuilding from both gives an equal array.",
 ["histories"], "every store/clear/conversion history on sparse arrays, all index widths (0 to beyond 64 bits) and data widths >= 1",
 "One test enumerates one fixed eight-element array.",
 [R], [("default never stored in the map", R+":SparseArrayValue::store"), ("iterator", R+":SparseArrayEntryIter")],
 ["SparseArrayValue::non_default_entries", "SparseArrayValue::default"])

prop("C20", "The interner maps equal values to one permanent index each",
 "Interning the same value (same width, same bits) always returns the same index, different values always get different indices, and looking an index up in the interner's words returns exactly the interned value, at any later time and however many other values were interned in between. The zero and one tests on an index answer whether the interned value is zero or one. A clone answers identically and evolves independently.",
 ["histories"], "every sequence of interning requests with values of any mix of widths >= 1, in any order and multiplicity",
 "Tests intern one value twice into an empty interner plus a few small constants; sequences, mixed widths and re-reading after later insertions are not covered.",
 [I], [("small and large tables", I+":ValueInterner::get_index"), ("pre-seeded constants", I+":ValueInterner::new"), ("zero/one tests", I+":is_zero,is_one")],
 ["ValueInterner::get_index/words/is_zero/is_one", "IndexToRef::get_ref"])

prop("C21", "Views into a shared word store address exactly their own words",
 "A reference obtained for an index and width reads exactly the ceil(width/64) words starting at that index; writing through a mutable reference changes those words and no others. Requests for one mutable and one or two shared references together return views of the right words whenever the mutable region overlaps none of the shared ones, the shared ones being free to overlap each other, and are refused by a panic when it does or when a region lies outside the store.",
 ["inputs", "histories"], "every store size, every tuple of regions (any order, adjacency and overlap) and every sequence of operations through the views",
 "One fixed four-word store with three region layouts is tested.",
 [I, B], [("range computation", I+":BitVecValueIndex::to_range"), ("disjoint split", I+":split_borrow_1,split_borrow_2")],
 ["IndexToRef::get_ref", "IndexToMutRef::get_mut_ref", "BitVecValueIndex"])

prop("C22", "Serialised values and arrays deserialise to equal ones",
 "With the serialisation feature, serialising any bit-vector, dense or sparse array and deserialising the result yields a value with the same type and contents that answers every later operation identically, in a binary format and, for values and arrays whose indices fit in 64 bits, in JSON.",
 ["inputs", "histories"], "every value of any width >= 0 and every array of any type and representation, after any history",
 "No test uses the serialisation feature.",
 [W, R], [("derived Serialize/Deserialize", W+":BitVecValue, "+R+":ArrayValue,SparseArrayValue")], ["serde::Serialize/Deserialize"])

prop("C23", "Checked builds refuse contract violations; release builds truncate",
 "With debug assertions enabled, operations that require equal widths (arithmetic, bitwise, shifts, comparisons, assignment, array store and select) panic when widths differ, slices with hi < lo panic, integers that do not fit the requested width are refused on creation, and dense arrays beyond the documented 1 GiB limit are refused. Without debug assertions, creating a value from a too large 64-bit integer keeps exactly its low w bits.",
 ["inputs", "configurations"], "every pair of different widths and every oversized integer, in builds with and without debug assertions",
 "Two fixed 4-bit examples are tested in either build mode; no width mismatch is tested.",
 [O, R], [("debug assertions", O), ("1 GiB limit", R+":DENSE_ARRAY_MAX_BYTES,approx_dense_storage_size")], ["panics in builds with debug assertions", "from_u64/from_i64 in release builds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
except ImportError: pass
print(len(P), "properties")
