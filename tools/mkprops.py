#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state))


SRC = ["src/runtime/mod.rs"]
CORE_T = "TLA+ abstract machine (HushCore); TLC validates recorded behaviours of random programs against it"
CORE_N = ("Model checking of the abstract machine along every behaviour recorded: TLC accepts a run only if the machine has a "
          "behaviour with the same output, exit status and panic report. Bounded by the programs generated (seeded); trusts "
          "the generator's printer, TLC, and that output and exit status reveal the state. ")
TESTS = "The tests evaluate a handful of fixed scripts and compare one final value; "

prop("C01", "Lexical scoping and closures",
     "A name always denotes the variable of the nearest enclosing declaration in the program text, so that declarations in blocks, loops, parameters and other functions never change an outer variable of the same name. "
     "A closure shares the variables it captures with the enclosing function and with its sibling closures, for reading and writing, through any depth of nesting, and also after the enclosing call has returned. "
     "Every call has variables of its own, also when recursive.",
     ["programs", "histories"], "all programs with nested functions, blocks and loops, and all orders of calling their closures",
     TESTS + "no test varies nesting depth, capture chains, shadowing and the order in which closures run.",
     ["src/semantic/scope.rs", "src/semantic/mod.rs", "src/runtime/mem.rs", "src/runtime/mod.rs"],
     [("slot resolution and capture chains", "src/semantic/scope.rs"), ("promotion of captured slots to shared cells", "src/runtime/mem.rs")],
     ["stdout of programs"], CORE_T, CORE_N)
prop("C02", "Calls, arguments, self and binding",
     "A call evaluates the function and then its arguments, each once and from left to right, binds them to the parameters, and yields the value of return or of the last statement; calling with another number of arguments, or something that is not a function, panics. "
     "Inside a function, self is the object from which the function was accessed in that call, or the one given to std.bind, or else nil; a nested function has a self of its own. "
     "Recursion, mutual recursion, calls inside arguments and calls in return position leave the variables, arguments and self of every waiting caller intact.",
     ["programs"], "all functions, argument lists, objects and call nestings",
     TESTS + "nested calls in arguments, methods inside methods, and tail calls with captured locals are not varied.",
     ["src/runtime/mod.rs", "src/runtime/lib/bind.rs"], [("argument vector and frames", "src/runtime/mod.rs call"), ("bound functions", "src/runtime/lib/bind.rs")],
     ["stdout of programs"], CORE_T, CORE_N)
prop("C03", "Control flow and order of evaluation",
     "if, while, for, and, or, break and return evaluate exactly the conditions, operands and blocks that the construct demands, each as often as demanded, from left to right (an assignment evaluates its right side, then the object, then the index). "
     "A condition or logical operand that is not a bool panics; and and or evaluate the right operand only if the left one doesn't decide. "
     "break leaves exactly the innermost loop and return exactly the innermost function, also from the middle of nested expressions; the value of a block is that of its last statement.",
     ["programs"], "all nestings of control constructs and expressions with side effects",
     TESTS + "side effects in operands and early exits from nested expressions are not enumerated.",
     ["src/runtime/mod.rs", "src/runtime/flow.rs"], [("flow values propagated through every construct", "src/runtime/mod.rs")],
     ["stdout of programs"], CORE_T, CORE_N)
prop("C04", "Error values and the try operator",
     "expr? yields the value of expr unless it's an error, in which case the innermost function returns that error at once and nothing else of it is evaluated. "
     "Apart from that an error is an ordinary, immutable value with a description and a context; std.has_error tells if a value is or contains one, in arrays and in keys and values of dicts, at any depth.",
     ["programs"], "all positions of ? in expressions, and all nested values",
     TESTS + "positions of ? inside arguments, literals and loops are not varied.",
     ["src/runtime/mod.rs", "src/runtime/lib/error.rs", "src/runtime/lib/has_error.rs", "src/runtime/value/error.rs"],
     [("Try operator as a return flow", "src/runtime/mod.rs unary_op")], ["stdout of programs"], CORE_T, CORE_N)
prop("C05", "Panics are contained by std.catch and never lose state",
     "A panic stops the evaluation at once and unwinds to the innermost std.catch, which returns an error that describes the panic and its line; all effects made before the panic persist, and the variables, arguments and self of the code around the std.catch are what they were. Calling a function with a wrong number of arguments, or one of the standard library with a value of a wrong type, is such a panic. "
     "Without a std.catch, the panic ends the program with exit status 127 and a report of the message and line on standard error, after all the output that preceded it.",
     ["programs", "fault_sequences"], "all points of a program at which a panic can happen, and all nestings of std.catch",
     TESTS + "panics in the middle of argument lists, methods and deep activations, followed by more work, are not explored.",
     ["src/runtime/lib/catch.rs", "src/runtime/mod.rs", "src/runtime/panic.rs", "src/runtime/mem.rs", "src/main.rs"],
     [("stack and argument clean-up on the way out", "src/runtime/mod.rs call")], ["stdout", "stderr", "exit status"], CORE_T, CORE_N)
prop("C06", "Operators are exact or panic, and never convert types",
     "Integer arithmetic on 64 bit signed integers yields the exact result (division truncates towards zero, the remainder has the sign of the dividend), or panics on overflow and division by zero; float arithmetic is IEEE 754. "
     "No operator converts types: arithmetic needs two ints or two floats, ordering two ints, floats, chars or strings, ++ two strings, negation a number, not, and and or bools; anything else panics, naming the offending value and the expected type.",
     ["inputs"], "all pairs of values of all types under all operators",
     TESTS + "boundary values near overflow and mixed types are not enumerated.",
     ["src/runtime/mod.rs", "src/runtime/value/float.rs"], [("checked arithmetic", "src/runtime/mod.rs arithmetic_op"), ("ordering", "src/runtime/mod.rs ord_op")],
     ["stdout of programs"], CORE_T + "; all operator/type pairs and boundary integers", CORE_N)
prop("C07", "Equality, ordering and dict keys agree",
     "== is structural equality of the current contents, never true across types, and != is its negation; dict lookup, insertion and std.contains find an entry exactly when its key equals the given one, so that a dict never has two equal keys. "
     "std.sort permutes an array in place into the ascending order of one total order over all values (by type, then by value, NaN before all other floats, strings and arrays lexicographically), with which <, <=, > and >= agree.",
     ["inputs", "histories"], "all pairs and sequences of nested values, as operands, keys and elements",
     TESTS + "pairs of nested, differently built but equal values as keys are not enumerated.",
     ["src/runtime/value/mod.rs", "src/runtime/value/float.rs", "src/runtime/value/dict.rs", "src/runtime/value/array.rs", "src/runtime/lib/sort.rs", "src/runtime/lib/contains.rs"],
     [("Ord, Eq and Hash of values", "src/runtime/value/")], ["stdout of programs"], CORE_T, CORE_N)
prop("C08", "Collections are shared, bounded and keep their contents",
     "Arrays and dicts are shared by reference: a change through one variable, element or captured variable is seen through all others and affects no other collection, whatever the history of operations; strings never change. "
     "Reading or assigning an array or string position outside of 0..length-1, or a missing dict key, panics and changes nothing; assigning a dict key inserts or replaces exactly that entry; push, pop, len, is_empty and contains reflect exactly the elements present.",
     ["histories"], "all sequences of operations on aliased, nested collections, of any size",
     TESTS + "histories of operations through aliases are not explored.",
     ["src/runtime/value/array.rs", "src/runtime/value/dict.rs", "src/runtime/value/string.rs", "src/runtime/mod.rs", "src/runtime/lib/"],
     [("shared cells and checked indices", "src/runtime/value/")], ["stdout of programs"], CORE_T, CORE_N)
prop("C09", "Iteration visits exactly the elements, in order",
     "for calls the iterator until it reports finished, and runs the body once per value; the iterators of std.iter yield every element of an array or string in order (those of an array as it is when reached) and every entry of a dict exactly once, and std.range yields from, from + step, ... strictly before to, in either direction, without ever overflowing. "
     "Each iterator has a position of its own, finished iterators stay finished, and an iterator that returns something else than such a report panics.",
     ["programs", "inputs"], "all collections, bounds and steps, interleavings of iterators, and changes during the iteration",
     TESTS + "bounds near the integer limits, negative and float steps, and concurrent iterators are not enumerated.",
     ["src/runtime/lib/iter.rs", "src/runtime/lib/range.rs", "src/runtime/mod.rs"], [("for loop", "src/runtime/mod.rs"), ("iterator state", "src/runtime/lib/iter.rs, range.rs")],
     ["stdout of programs"], CORE_T, CORE_N)
prop("C23", "Codecs",
     "std.hex, std.base64 and std.json decode exactly the texts of their formats, each to the value that it denotes, and give an error with the original string as its context for every other text, never a wrong value or a crash. "
     "Encoding yields a text of the format that denotes the value: decode(encode(v)) == v for all strings (hex, base64), and for all values of nil, bools, ints, finite floats, UTF-8 strings, arrays, and dicts with string keys (json). "
     "json.encode panics for all values that contain functions, errors or other keys; NaN and infinities are null, and bytes that aren't UTF-8 are replaced.",
     ["inputs"], "all values and texts", "There are no tests of the codecs.",
     ["src/runtime/lib/hex.rs", "src/runtime/lib/base64.rs", "src/runtime/lib/json.rs"],
     [("hex", "src/runtime/lib/hex.rs"), ("base64", "src/runtime/lib/base64.rs"), ("JSON", "src/runtime/lib/json.rs")], ["stdout of programs"], CORE_T, CORE_N)
prop("C24", "String functions",
     "std.split, replace, trim, substr, bytes, contains, len, indexing, ++ and comparisons treat strings as byte sequences and compute exactly the sequence that their description says for all inputs, including empty strings and patterns, overlapping matches and positions out of range. "
     "Joining the parts of a split with the separator gives the original string.",
     ["inputs"], "all strings, patterns and positions", "There are no tests of the string functions on more than fixed samples.",
     ["src/runtime/lib/split.rs", "src/runtime/lib/replace.rs", "src/runtime/lib/trim.rs", "src/runtime/lib/substr.rs", "src/runtime/lib/bytes.rs", "src/runtime/value/string.rs"],
     [("byte string operations", "src/runtime/lib/")], ["stdout of programs"], CORE_T, CORE_N)
prop("C25", "Types, conversions and text of values",
     "std.type names the type of every value, and std.typecheck and std.try_typecheck accept a value exactly if it has the named type; std.int and std.float convert exactly the texts and numbers that denote a number of that type, and panic otherwise. "
     "std.print, std.println and std.to_string give every value its literal-like text: chars are raw, and strings are raw at the top level, and quoted and escaped inside of collections and errors.",
     ["inputs"], "all values, of any nesting", TESTS + "conversions of malformed and boundary texts are not enumerated.",
     ["src/runtime/lib/int.rs", "src/runtime/lib/float.rs", "src/runtime/lib/typecheck.rs", "src/runtime/lib/type_.rs", "src/runtime/lib/to_string.rs", "src/runtime/lib/print.rs", "src/runtime/value/fmt.rs"],
     [("display of values", "src/runtime/value/fmt.rs")], ["stdout of programs"], CORE_T, CORE_N)
prop("C27", "Random numbers",
     "std.randint(m, n) yields an int of m..n, bounds included, all of which occur, and std.rand a float of at least 0 and less than 1, of the whole of that range. "
     "After std.randseed(s), the results depend on s and the calls made since alone: they're the same each time, also in other processes, and different for different seeds; processes that never set the seed draw different sequences. "
     "A call with wrong arguments or m > n panics, and draws nothing.",
     ["inputs", "histories"], "all seeds, ranges and sequences of calls", "Nothing tests random numbers, and their distribution and dependence on the history can't be tested by samples of single calls.",
     ["src/runtime/lib/rand.rs"],
     [("generator", "src/runtime/lib/rand.rs")], ["stdout of programs"],
     "TLA+ trace specification (HushRand): a generator as an unknown function of its seed and history; TLC validates draws recorded from several processes against it",
     "Model checking of recorded draws: the specification accepts the recorded runs of a case only if one function of seed and history explains all of them, in range. Bounded by the sequences generated; statistical coverage only of small ranges (every value within 300 draws, which fails by chance with probability below 1e-12).")

prop("C28", "Regular expressions",
     "std.regex accepts exactly the valid expressions, and yields an error described as an invalid regex for every other string. "
     "match tells whether an expression matches anywhere in a string, split yields the parts between the leftmost-first matches that don't overlap, so that their number is that of the matches plus one, and replace puts the replacement in the place of each of these matches, with $name and ${name} being the text of the group of that number or name (nothing, if there is none), and $$ a dollar. "
     "Other arguments panic.",
     ["inputs"], "all expressions, strings and replacements", "The tests use a few expressions on single strings.",
     ["src/runtime/lib/regex.rs"], [("regex objects", "src/runtime/lib/regex.rs")], ["stdout of programs"], CORE_T,
     CORE_N + " Expressions of ASCII classes, groups, alternations, greedy and lazy repetitions (whose bodies aren't empty) and assertions; flags and Unicode classes are outside, as are subjects beyond ASCII.")

NA = []
exec(open(os.path.join(V, "tools", "props_more.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in P:
        h.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {x for x, _ in NA}
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "python3 checks/check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                   "level": "model_checking", "level_note": p["note"].strip()} for p in P if p["id"] not in na],
       "not_applicable": [{"property": a, "reason": b} for a, b in NA],
       "notes": "TLA+ specification in spec/, checked with TLC; no hooks in /repo. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(man, h, indent=1)
    h.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
