"""The single source of properties.jsonl and MANIFEST.json:  python3 lib/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NF = ("Static analysis of compiler IR: the library's code is specialised to one (operation, type, shape) instance by whole-program inlining, constant "
      "propagation and memory-SSA dataflow, and its value/effect normal form must coincide with the normal form of an independent reference")
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="proof", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}))
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "./check " + id, "thorough_cmd": "./check " + id, "technique": technique or NF, "level": level, "level_note": note})


CHECKS = []
EVERY_VALUE = "For all 2^64 payloads of every instance at once: the instances (function x type) are enumerated, the values are not."

prop("C01", "Reading a serialized argument returns the value its bytes denote",
     "Every typed read of a serialized argument returns the value denoted by its type tag and big-endian bytes, converted to the requested type as C converts it; true, false, nil, numeric text, timetags and a missing argument have fixed readings. "
     "Every typed write of a numeric value stores its big-endian bytes in exactly the width of its type and nothing after them, and sets the type.",
     ["inputs"], "all typed readers and writers of serialized arguments, all argument types, all byte contents", "The suite reads a handful of int32/float values; 11 readers x 17 types x all contents are out of reach of samples.",
     ["osc_atom_s.c", "osc_byteorder.h"], [("typed readers switch on the type tag and decode network order", "osc_atom_s.c: osc_atom_s_get*"), ("typed writers encode and retag", "osc_atom_s.c: osc_atom_s_set*")],
     note=EVERY_VALUE)
prop("C02", "An argument returns, converted, exactly the value last stored in it",
     "After a typed store of a scalar, boolean, nil or timetag into an argument, every typed read returns that value converted to the requested type, the type tag matches, and a copy reads the same while its source is unchanged. "
     "Reading a missing argument yields zero, and negation yields the arithmetic negation in the signed type of the same width.",
     ["inputs"], "all typed setters x all typed getters x all values x arbitrary prior contents", "The unit tests store and read back a few constants per type in the same type; conversions across types and arbitrary previous contents are not sampled.",
     ["osc_atom_u.c", "osc_atom_s.c"], [("tagged union store/read", "osc_atom_u.c: osc_atom_u_set*/get*"), ("field-wise copy", "osc_atom_u.c: osc_atom_u_copyInto"), ("negate", "osc_atom_u.c: osc_atom_u_negate")],
     note=EVERY_VALUE)
prop("C03", "Serialized arguments are big-endian, zero-padded, and never overrun the buffer",
     "Serializing an argument writes exactly its big-endian bytes (text and blobs zero-padded to four, nested bundles preceded by their size), touches nothing else, and every size query agrees with the number of bytes written. "
     "A buffer too small for the argument is left untouched and zero is returned; decoding the bytes gives back the same type and value.",
     ["inputs"], "all argument types and payload values; text lengths 0-9 and blob lengths 0-8 (every residue modulo four); buffers of exactly the needed size and one byte less", "Tests serialize a few whole bundles; they cannot see a stray padding byte, an off-by-one in a size query, or a write past a short buffer for each type.",
     ["osc_atom_u.c", "osc_atom_s.c", "osc_util.c", "osc_timetag.c", "osc_mem.c"], [("width/padding per type", "osc_util.c: osc_sizeof, osc_util_getPaddingForNBytes"), ("serializer", "osc_atom_u.c: osc_atom_u_nserialize"), ("deserializer", "osc_atom_s.c: osc_atom_s_deserializeInto")],
     note=EVERY_VALUE + " Text and blob lengths are instances (0-9, 0-8), chosen to cover every padding residue.")
prop("C04", "Type promotion order and timetag algebra",
     "Argument types form one total promotion order, and the widest type of any group of arguments is its maximum in that order. Timetags order lexicographically by (seconds, fraction), add and subtract exactly with carry and borrow, convert to and from seconds, and only the tag (0,1) means immediately.",
     ["inputs"], "all pairs of types; all timetag pairs; all doubles", "Carry, borrow and promotion bugs show only for specific pairs of values or types.",
     ["osc_typetag.c", "osc_timetag.c", "osc_timetag_ntp.c"], [("type order", "osc_typetag.c"), ("NTP arithmetic", "osc_timetag*.c")],
     note=EVERY_VALUE + " Subtraction of a later timetag from an earlier one is left open.")
prop("C05", "Expression operators and casts compute in the wider operand type",
     "For every pair of operand types, + - * / produce the exact result in the wider operand type (booleans count as 0/1, x/0 is the text Inf), % is the floored remainder, comparisons and logic depend only on the operands' values, and casts convert to the named type. "
     "Text compares bytewise and sorts after numbers, nil equals only nil, numbers stand for seconds next to timetags, and an absent operand has its documented reading.",
     ["inputs"], "12 x 12 operand type pairs per operator, all operand values", "The suite evaluates under a hundred expressions, nearly all on int32 and doubles.",
     ["osc_expr.c"], [("operators", "osc_expr.c: osc_expr_add ... osc_expr_or"), ("casts", "osc_expr.c: osc_expr_explicitCast_*")],
     note=EVERY_VALUE + " libm functions (fmod, floor) are uninterpreted; text formatting is not covered.")
prop("C06", "Operators and math functions apply element by element with broadcast",
     "A binary operator or function applied to two lists combines matching elements in order; a one-element list is combined with every element of the other, and otherwise the shorter length wins. ++ and -- add or subtract one from every element without changing its type.",
     ["inputs"], "all element values; list lengths 0-3 on both sides", "Mixed list lengths with order-sensitive operators are barely sampled by the suite.",
     ["osc_expr.c", "osc_array.c", "osc_atom_array_u.c"], [("element-wise drivers", "osc_expr.c: osc_expr_2arg, osc_expr_2arg_dbl_dbl, osc_expr_plus1, osc_expr_minus1")],
     note=EVERY_VALUE + " The applied operator is uninterpreted; lengths 0-3 are enumerated.")
prop("C07", "A message holds exactly the arguments put into it, in order",
     "After any sequence of append, prepend, insert, remove, move and clear, a message reports exactly the arguments it was given, in the right order, by iteration and by index, and frees each of them exactly once. "
     "Typed constructors carry value and type to the asked position, text and addresses are copied into the message's own storage, and copies of a message equal it and share nothing with it.",
     ["inputs", "history"], "all argument values; every operation on lists of 0-3 arguments followed by a second operation on the result", "Links, counts and ownership go wrong only after particular edit sequences; the suite only appends.",
     ["osc_message_u.c", "osc_message_iterator_u.c"], [("doubly linked argument list with head, tail and count", "osc_message_u.c: appendAtom, prependAtom, insertAtom, removeAtom, clearArgs"), ("typed constructors", "osc_message_u.c: osc_message_u_append*/prepend*/insert*"), ("copies", "osc_message_u.c: deepCopy, getArgArrayCopy, setArgArrayCopy")],
     note=EVERY_VALUE + " Lists of 0-3 arguments, one or two operations; allocation is assumed to succeed.")
prop("C08", "Arguments and arrays own what is stored in them and release it once",
     "An argument owns the text, blob or bundle stored in it: replacing, clearing or freeing it releases that storage exactly once, and a copy reads the same after the original is gone. "
     "Arrays of arguments do the same for their elements, grow when something longer is copied into them, give zeroed new elements, report absent elements outside their length, and yield the typed readings or joined texts of their elements within the buffer given.",
     ["inputs", "history"], "9 kinds of content x 9 kinds replaced by; arrays of 0-5 elements, offsets 0-2; texts and blobs of 0-8 bytes; all contents", "Leaks, double releases, stale lengths and one-byte overruns do not change any value the suite compares.",
     ["osc_atom_u.c", "osc_atom_array_u.c", "osc_array.c"], [("content ownership", "osc_atom_u.c: osc_atom_u_clear, osc_atom_u_free, osc_atom_u_copyInto, osc_atom_u_set*"), ("element ownership", "osc_atom_array_u.c"), ("generic array", "osc_array.c")],
     note=EVERY_VALUE + " Every heap block carries a guard and a live count in the model; allocation is assumed to succeed; text handed over by pointer without ownership is left open.")

prop("C09", "A bundle holds exactly the messages put into it, in order",
     "After any sequence of add, add-without-duplicates, replace, remove, add-copy, add-list and clear, a bundle's count, first message and iteration show exactly the messages it should hold, in order, and each message is released exactly once. "
     "Lookups by address return, in order, exactly the messages the matcher accepts, as a whole address or as a prefix ending at a slash; messages without an address never match.",
     ["inputs", "history"], "all contents; every operation on lists of 0-3 messages with repeated, different and missing addresses, many followed by a second one; every combination of matcher verdicts over 0-3 messages", "The count, the links and ownership go wrong only after particular edit sequences such as removing the last of two messages and adding again.",
     ["osc_bundle_u.c", "osc_bundle_iterator_u.c", "osc_message_u.c"], [("doubly linked message list with head, tail and count", "osc_bundle_u.c: addMsg_impl, removeMsg, removeMessage, addMsgList, clear"), ("lookups", "osc_bundle_u.c: addressExists, addressIsBound, getFirstFullMatch, lookupAddress"), ("copy into an existing message", "osc_message_u.c: osc_message_u_deepCopy")],
     note=EVERY_VALUE + " Lists of 0-4 messages; the address matcher is uninterpreted; allocation is assumed to succeed.")

prop("C10", "A serialized message is read back exactly as it was written",
     "A message becomes its size, its address and type tags each padded with zeros to a multiple of four, and its arguments in order, big-endian, text and blobs padded; the reported size is the size written, and a buffer too small is left alone. "
     "Readers of those bytes find the address, every type tag and every argument, by index and by iteration, with or without cached offsets, and decoding yields the same message.",
     ["inputs"], "all argument values; every argument type alone, texts and blobs of 0-5 bytes, addresses of 1-7 characters, up to 6 arguments, mixed types; short buffers", "Padding and offsets go wrong for particular lengths and type mixes that samples miss; the suite never uses cached offsets.",
     ["osc_message_u.c", "osc_message_s.c", "osc_message_iterator_s.c", "osc_atom_u.c", "osc_atom_s.c", "osc_mem.c"], [("writer", "osc_message_u.c: osc_message_u_nserialize, osc_message_u_serialize"), ("reader", "osc_message_s.c: osc_message_s_wrap, getArg, cacheDataOffsets; osc_message_iterator_s.c"), ("decoder", "osc_message_s.c: osc_message_s_deserialize")],
     note=EVERY_VALUE + " Shapes are enumerated; a nested bundle stands for one block of its own bytes; allocation is assumed to succeed.")
prop("C11", "Serialized bundles: built, read, edited and combined message by message",
     "A serialized bundle is a header and its messages in order; counting, iterating, looking up, decoding, appending, wrapping, renaming, removing and replacing act on exactly the messages asked for and leave all others byte for byte. "
     "Union, intersection, difference and concatenation keep each message they should once, in order; the sanity check accepts a block exactly when whole messages fill it and never reads past its end.",
     ["inputs", "history"], "all contents and timetags; bundles of 0-3 messages with equal, different and tagless messages; pairs of bundles; every matcher verdict; every block of 16-44 bytes with 15 sizes for its first message", "Offsets, lengths and buffer growth go wrong for particular sizes and neighbours; malformed blocks are hardly sampled.",
     ["osc_bundle_s.c", "osc_bundle_iterator_s.c", "osc_bundle_u.c", "osc_error.c", "osc_message_s.c"], [("iteration and lookups", "osc_bundle_iterator_s.c; osc_bundle_s.c: addressExists, addressIsBound, lookupAddress"), ("editing", "osc_bundle_s.c: appendMessage, replaceMessage, removeMessage, wrapMessage; osc_message_s.c: renameCopy"), ("set operations", "osc_bundle_s.c: union, intersection, difference, concat"), ("sanity check", "osc_error.c: osc_error_bundleSanityCheck")],
     note=EVERY_VALUE + " Bundles of 0-3 messages with 0-2 integers each; the address matcher is uninterpreted; allocation is assumed to succeed.")

prop("C12", "Every function of the expression language computes what it is named after",
     "Looked up by name, each mathematical, list, statistics, text, conversion and operator function gives for every element the value, the type and the order its name stands for, and no function is found under any other name. "
     "Wrong argument counts, indexes outside a list and unsuitable types give an error or leave the element alone; the arguments read the same afterwards and everything is released once.",
     ["inputs"], "all element values; lists of 0-4 elements of every type and of mixed types; every in-range and just-out-of-range index; texts of three free characters and chosen literals", "Rounding, overflow, type promotion and index limits fail for particular values and types; the suite calls a handful of functions on one input each.",
     ["osc_expr.c", "osc_expr_func.h", "osc_atom_array_u.c", "osc_atom_u.c", "osc_array.c"], [("name lookup", "osc_expr.c: osc_expr_lookupFunction; osc_expr_func.h: osc_expr_funcsym"), ("list and statistics functions", "osc_expr.c: osc_expr_nth, osc_expr_assigntoindex, osc_expr_sort, osc_expr_sum, osc_expr_median, .."), ("element-wise mathematics", "osc_expr.c: osc_expr_1arg_dbl_dbl and its relatives"), ("texts and conversions", "osc_expr.c: osc_expr_strfind, osc_expr_split, osc_expr_explicitCast, ..")],
     note=EVERY_VALUE + " Short lists; libm functions are uninterpreted; in sorts, equal elements are left open; allocation is assumed to succeed.")

prop("C13", "Expressions evaluate the arguments they need once, in order, until an error",
     "Evaluating an expression evaluates each argument exactly once from first to last and calls the function with their values; if(), && and || evaluate only the branch they need, apply(), map(), lreduce() and rreduce() call their function with the right values in the right order, and a function's parameters stand for its arguments inside its body only. "
     "The first error ends the evaluation and is its result, nothing after it is evaluated, and whatever was evaluated before is released exactly once.",
     ["inputs"], "all values of three integers in some 260 expressions: every special form with plain, nested, list, failing and unbound arguments in each position", "Order, single evaluation and release on error paths only show with an argument that fails or has an effect; the suite evaluates expressions for their value only.",
     ["osc_expr.c", "osc_expr_rec.c"], [("argument evaluation", "osc_expr.c: osc_expr_eval, osc_expr_evalInLexEnv, osc_expr_evalArgInLexEnv"), ("special forms", "osc_expr.c: osc_expr_specFunc_if, _andalso, _orelse, _apply, _map, _reduce, _quote"), ("environments and copies", "osc_expr.c: osc_expr_bindVarInLexenv, osc_expr_copyLexenv, osc_expr_copy, osc_expr_arg_copy; osc_expr_rec.c")],
     note="Expressions up to four calls deep, built with the library's own constructors (not parsed), without a bundle; functions of at most two parameters; a library call's value comes from user functions that record what they were given; environments are modelled as lists of pairs; folding an empty list is left open; allocation is assumed to succeed.")

prop("C14", "Expressions read and change exactly the addressed messages of the bundle",
     "An address in an expression stands for the arguments of the first message there, and evaluating it where there is none is an error; assignment replaces the message at its target or appends one and has the value assigned, assignment to indexes changes only the elements named, delete takes out every message at the addresses given, and every other message, its place and the bundle's time stay as they were. "
     "bound, exists, value, getaddresses, getmsgcount, emptybundle, gettimetag and settimetag report or set exactly what the bundle holds, an expression that fails leaves what it was about to change as it was, and nothing is leaked.",
     ["inputs"], "all integers and times in bundles of up to three messages of up to two arguments, under some 390 expressions with plain, computed, nested, pattern and failing arguments", "The effect on neighbouring messages, on repeated addresses and on error paths depends on where in the bundle a message lies; the suite assigns into one bundle of fixed shape.",
     ["osc_expr.c", "osc_bundle_s.c"], [("addresses", "osc_expr.c: osc_expr_evalArgInLexEnv"), ("assignment", "osc_expr.c: osc_expr_specFunc_assign, osc_expr_specFunc_assigntoindex"), ("queries and deletion", "osc_expr.c: osc_expr_specFunc_existsorbound, _value, _delete, _getaddresses, _getmsgcount, _emptybundle, _gettimetag, _settimetag"), ("bundle edits", "osc_bundle_s.c: osc_bundle_s_replaceMessage, osc_bundle_s_appendMessage, osc_bundle_s_removeMessage")],
     note="One-letter addresses; assigned values are integers; bundles inside messages (getbundlemember, assigntobundlemember) and the forms that parse text (eval, compile, tokenize) are left out; pattern matching and the serialization of one message are models (C04, C09); allocation is assumed to succeed.")

prop("C15", "Lists and tables hold exactly what was put in and not taken out",
     "After any sequence of append, prepend, removal at either end or at a position, and clear, a linked list counts, returns by position from either end, iterates and clones exactly the elements put in and not taken out, in order. "
     "After any sequence of store, safe store, remove and clear, a hash table maps each key to the value last stored for it (a safe store never replaces one), whatever other keys share its slot or its hash, and visits each entry once. "
     "An element or value that is cleared, replaced or left behind is given to the destructor exactly once, one handed back to the caller never, and no bookkeeping is leaked.",
     ["histories"], "all sequences of up to three operations (and four-element lists) over all element values; keys that share a slot, a hash or a prefix", "Which link a removal must mend depends on the whole history before it; the suite has no test of either container.",
     ["osc_linkedlist.c", "osc_hashtab.c"], [("lists", "osc_linkedlist.c: osc_linkedlist_append, _prepend, _popHead, _popTail, _popNth, _peekNth, _iterate, _clone, _clear, _destroy"), ("tables", "osc_hashtab.c: osc_hashtab_new, _store, _storeSafe, _lookup, _remove, _foreach, _clear, _destroy")],
     note="The order in which a table visits its entries is left open, as is a table asked to have more than 150,000 slots; allocation is assumed to succeed.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    json.dump({"version": 1, "setup_cmd": "make -s -j8 -C tool", "checks": CHECKS, "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
