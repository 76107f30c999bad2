#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
INC="include/k3/tok3n/detail/"
def P(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,
            "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
            "anchors":{"files":files,"state":[{"name":n,"meaning":m} for n,m in state],
                       "mechanism":[{"name":mech,"where":", ".join(x.split("detail/")[-1] for x in files)}],"observe_at":[observe],"hook_needed":hook}}
def d(*xs): return [INC+x for x in xs]
props=[
P("C01","A parser accepts exactly the inputs its grammar describes",
  "For every grammar built from the public operators and modifiers and every input, a parse succeeds if and only if the parsing-expression reading of that grammar (ordered choice, greedy repetition without give-back, sequencing, literal / character-class tests) matches a prefix of the input. On success it consumes exactly that prefix: the reported remainder is the rest of the input, neither shorter nor longer. Grammars whose repeated operand can succeed without consuming, and left-recursive ones, are outside the claim (they do not terminate).",
  ["programs","inputs"],"all well-formed grammars x all finite inputs (including empty, one-element, long, boundary-length and non-matching ones)",
  "Tests pin one or two inputs for a few hand-written grammars per combinator; nesting of combinators and inputs that fail late or match in part are barely sampled.",
  d("parsers/all_of.h","parsers/any_of.h","parsers/none_of.h","parsers/anything.h","parsers/basic_base.h","parsers/choice.h","parsers/sequence.h","parsers/maybe.h","parsers/zero_or_more.h","parsers/one_or_more.h","parsers/exactly.h","parsers/delimit.h","helpers.h"),
  [("input cursor","position in the input after each sub-parser"),("result","success flag and remaining input")],
  "each combinator threads the remaining input of its sub-parsers; leaves test a fixed-length prefix",
  "return value (has_value, remaining) of parse on the public parser object"),
P("C02","A failed attempt leaves no trace in the input position or the value",
  "When a parse or lookahead fails, the reported remainder is the complete original input. When an attempt fails part-way inside a grammar (a choice alternative, an optional, an iteration of a repetition, a separator or the item after it), everything that attempt consumed or produced is discarded: the next attempt starts from the position where the failed one started and the final value contains nothing from it.",
  ["programs","inputs"],"all well-formed grammars x all inputs, in particular those on which some sub-parser succeeds and a later sibling fails",
  "A leak only shows when a multi-step attempt succeeds partly, then fails, inside a construct that recovers; tests fail mostly at the first element.",
  d("helpers.h","parsers/choice.h","parsers/sequence.h","parsers/exactly.h","parsers/delimit.h","parsers/maybe.h","parsers/one_or_more.h","parsers/zero_or_more.h","parsers/complete.h","parsers/map.h","parsers/filter.h","parsers/join.h"),
  [("saved input","start of the current attempt"),("builder","partially built value")],
  "combinators return the original input on failure and only advance / append after success",
  "remaining() of failing results; value and remainder of an enclosing parse; entry positions seen by user-defined sub-parsers"),
P("C03","Lookahead gives the same verdict as parse, without producing a value",
  "For every grammar that contains no filter and no join over non-adjacent matches, lookahead succeeds exactly when parse succeeds on the same input and reports the same remainder. A lookahead never produces a value and never invokes a user-supplied function. (By documented design, filter and join conditions are not applied in lookahead: there it behaves as on the unfiltered, unjoined grammar.)",
  ["programs","inputs"],"all well-formed grammars x all inputs",
  "parse and lookahead are separate hand-written algorithms in every combinator; tests compare them on a handful of inputs and hardly on nested grammars.",
  d("parsers/choice.h","parsers/sequence.h","parsers/exactly.h","parsers/delimit.h","parsers/maybe.h","parsers/one_or_more.h","parsers/zero_or_more.h","parsers/complete.h","parsers/ignore.h","parsers/map.h","parsers/filter.h","parsers/join.h","parsers/custom.h","helpers.h"),
  [("mode","parse or lookahead")],"each parser has a lookahead twin of parse","return value of lookahead versus parse; call log of user functions"),
P("C04","The type of a parse result is determined by the grammar as documented",
  "The value type of a successful parse follows the documented rules for every nesting: a terminal gives a span; parts without a value are dropped; a sequence or choice with no valued part has no value, with exactly one value type left is that bare type, else a tuple of all parts in order, respectively a variant of the distinct types in first-occurrence order. An optional gives an optional, a fixed repetition an array of that length, an open repetition a vector, a delimited list a vector of items, with kept separators a pair of vectors, and each of those has no value if its operand has none. Ignoring gives no value, joining gives one span, and complete, named and filtered parsers keep the type of their operand.",
  ["programs"],"all well-formed grammars (any nesting, arity and mixture of valued, void, duplicate and transformed types), any element type",
  "The set of type shapes is infinite; tests name a few flat shapes, e.g. no choice with duplicates after voids and few nested voids.",
  d("filter.h","helpers.h","parsers/choice.h","parsers/sequence.h","parsers/maybe.h","parsers/exactly.h","parsers/zero_or_more.h","parsers/one_or_more.h","parsers/delimit.h","parsers/join.h","parsers/ignore.h"),
  [("list of child value types","void-filtered / de-duplicated")],"compile-time computation of the result type per combinator","declared value type of the parse result"),
P("C05","Matched text is reported as spans that alias the input, in place and in order",
  "Every span inside a parse value points into the caller's own buffer and covers exactly the elements matched by the terminal that produced it; no text is copied, shifted or truncated. Spans appear in the value at the slot of the grammar element that matched them and in input order, each valued match exactly once; the remainder is likewise a view ending at the end of the caller's buffer.",
  ["programs","inputs"],"all well-formed grammars without value-transforming functions x all inputs x buffer placements",
  "Tests compare span contents by equality, so a span at a wrong place with equal text, or slots swapped between equal-looking matches, passes.",
  d("span.h","parsers/basic_base.h","helpers.h","parsers/sequence.h","parsers/exactly.h","parsers/zero_or_more.h","parsers/one_or_more.h","parsers/delimit.h","parsers/maybe.h","parsers/choice.h"),
  [("span","begin pointer and length")],"leaves build (data, length) pairs; combinators move them to indexed slots","data()/size() of every span in the value and of remaining() relative to the input buffer"),
P("C06","Ordered choice takes the first matching alternative and labels it correctly",
  "A choice yields exactly what its first alternative that succeeds yields, and alternatives after it have no influence. If the choice's value is a variant, the active member is the one of that alternative's value type and holds that alternative's value, for every arrangement of duplicate and valueless alternatives. If the alternative taken has no value while others have one, the value is the default-constructed value of the choice's type.",
  ["programs","inputs"],"all choices of any arity with any arrangement of distinct, equal and void alternative types, nested anywhere x all inputs",
  "The alternative-to-member mapping is a compile-time table depending on the whole list of types; tests try a few short lists, and the defect found here (wrong member for a duplicate after a duplicate) passed them all.",
  d("filter.h","helpers.h","parsers/choice.h","operators/choice.h"),
  [("index table","alternative -> variant member")],"index sequence computed while filtering and de-duplicating types","variant index and held value"),
P("C07","Optional and repetition match greedily, exactly as often as specified",
  "Optional matches its operand zero or one time, zero-or-more and one-or-more match it as often as it matches consecutively, and exactly-N matches exactly N times or fails as a whole; none of them ever gives back a match. The value contains one entry per completed match, in order, and the input position is where the last completed match ended.",
  ["programs","inputs"],"all operands that consume on success, all N >= 1, all repetition counts, nested repetitions included",
  "Tests use N of 3 and inputs of at most a few repetitions; boundary counts, nested repetitions and operands that fail midway are not covered.",
  d("parsers/maybe.h","parsers/zero_or_more.h","parsers/one_or_more.h","parsers/exactly.h","modifiers/exactly.h","operators/maybe.h","operators/one_or_more.h","operators/zero_or_more.h","helpers.h"),
  [("iteration","count of completed matches"),("builder","accumulated entries")],"loops calling the operand until it fails","value size / entries and remaining()"),
P("C08","Delimited lists alternate items and separators and never end in a separator",
  "A delimited list matches one item followed by as many (separator, item) pairs as match, fails only if the first item fails, and leaves a separator that is not followed by an item unconsumed. The value holds every matched item in order; with kept separators it additionally holds exactly the separators between consecutive items, so there is always exactly one separator fewer than items (void items or separators contribute no list).",
  ["programs","inputs"],"all item / separator grammars incl. overlapping, multi-element, void and nested ones x all inputs",
  "The interesting inputs are those where the separator matches and the following item fails late; tests have two or three fixed grammars.",
  d("parsers/delimit.h","modifiers/delimit.h","modifiers/delimit_keep.h"),
  [("items","accumulated items"),("separators","accumulated kept separators")],"loop item (separator item)*","value lists and remaining()"),
P("C09","Join returns the single span covering exactly what was matched",
  "Joining a parser succeeds exactly when that parser succeeds and its non-empty matched spans are adjacent in the input, in order; the value is then the one span from the start of the first to the end of the last of them. If all matches are empty it is an empty span at the position where the match ended, and if there is a gap (some part in the middle was ignored) parsing fails with the input untouched. Fused implementations of joined repetitions behave the same as the general one.",
  ["programs","inputs"],"all joinable grammars (spans, tuples, vectors, arrays, optionals, nested) x all inputs, at run time and in constant evaluation",
  "Specialised fast paths for joined repetitions duplicate the semantics; tests cover short counts only and gaps in two positions.",
  d("parsers/join.h","modifiers/join.h","optimizations/join_exactly_basic.h","optimizations/join_maybe_basic.h","optimizations/join_one_or_more_basic.h","optimizations/join_zero_or_more_basic.h"),
  [("joined","span accumulated so far or none")],"fold over the nested value extending a span while adjacent","joined span position and length, success, remaining()"),
P("C10","Algebraic simplification of parser expressions never changes their meaning",
  "However an expression is written with the operators (merged literals, flattened sequences and choices, collapsed repetition and optional operators, repeated alternatives, epsilon alternatives, nested ignore/join/complete), the resulting parser behaves, in verdict, consumption, value type and value, as the documented simplified form, and in verdict and consumption as the unsimplified reading of what was written. The grouping of a chain of the same operator makes no difference to verdict, consumption or the elements that the value covers (adjacent literals may merge into one span or not).",
  ["programs","inputs"],"all operator expressions over all operand shapes and groupings x all inputs",
  "Operator overloads dispatch on pairs of operand kinds; tests check the listed pairs by type identity on one example each, not that meaning is preserved for deeper or mixed operands.",
  d("operators/choice.h","operators/sequence.h","operators/maybe.h","operators/one_or_more.h","operators/zero_or_more.h","operators/epsilon.h","static_array.h","set_operations.h","modifiers/ignore.h","modifiers/join.h","modifiers/complete.h"),
  [("expression tree","what was written"),("normal form","what is executed")],"operator overload sets rewriting operand types","behaviour of the resulting parser"),
P("C11","Character classes denote sets: order, duplicates and notation do not matter",
  "A character class accepts exactly one element, and accepts it if and only if it is in (any-of) or not in (none-of) the listed set, however the set is written: order, repeated elements, notation, negation and union by choice of classes all act as the corresponding set operations. This holds for every element value of the element type, including negative, zero and extreme values, and an empty input never matches a class.",
  ["programs","inputs"],"all element sets (sizes, orders, duplicates), all combinations of any-of / none-of under negation and choice x all element values",
  "Set union, intersection and difference are computed at compile time on sorted arrays; tests use three or four small ASCII sets.",
  d("set_operations.h","static_array.h","parsers/any_of.h","parsers/none_of.h","operators/choice.h","operators/not.h","parsers/anything.h"),
  [("sorted unique set","elements of the class")],"sort/unique + merge algorithms and binary or linear containment","verdict for each single element"),
P("C12","Modifiers compose: prefix, infix and grouped application agree",
  "Applying a modifier as a function call or with the modifier operator gives the same parser, and applying a chain of modifiers one at a time, as one composed modifier or in any grouping gives the same parser, acting left to right. Ignore, join and complete are idempotent.",
  ["programs","inputs"],"all modifier chains (any length and grouping) on all parsers x all inputs",
  "Composition flattens and folds modifier lists at compile time; tests try pairs and triples on one parser.",
  d("modifier.h","operators/modifier.h","modifiers/multi.h","modifiers/ignore.h","modifiers/join.h","modifiers/complete.h","aliases/apply_map.h","aliases/constant.h","aliases/defaulted.h"),
  [("modifier list","modifiers in application order")],"multi-modifier left fold","behaviour of parsers built in the different spellings"),
P("C13","Names are transparent and substitution replaces exactly the named parts",
  "Naming a parser changes nothing about its own verdict, consumption, type or value. A substitution turns a grammar into the one in which, at any depth, every part carrying the given name has been replaced by the substitution's modifier applied to that part, whatever the character type of the names involved, and leaves everything else alone. Several substitutions given together act one after the other, exactly as separate substitutions would.",
  ["programs","inputs"],"all grammars with names at any depth x all substitution lists x all inputs",
  "Substitution walks the parser's type structure; tests use shallow grammars, and the defect found here (names with a wider character type stop the walk) passed them.",
  d("parsers/named.h","modifiers/name.h","modifiers/sub.h","substitution.h"),
  [("name","label of a sub-parser"),("rules","ordered name -> replacement list")],"recursive type-level rewrite","behaviour of the substituted parser against the hand-substituted one"),
P("C14","User functions run once per completed match, in order, never in lookahead",
  "During a parse, each user-supplied function (map, apply, filter, into, default actions) is invoked exactly once for every completed match of the parser it is attached to, when that match completes, in the order the matches complete, including matches that a later failure discards; a function returning nothing, or a filter on a valueless parser, is no exception wherever it is nested. It receives the matched value intact, and it is never invoked during lookahead or in ignored parts.",
  ["programs","inputs","histories"],"all grammars with functions attached at any depth x all inputs; the sequence of invocations with arguments is the history",
  "Tests check final values of pure functions; number, order and arguments of invocations are not observed, and actions inside sequences and choices were in fact skipped when valueless.",
  d("parsers/map.h","parsers/filter.h","helpers.h","apply.h","functions.h","parsers/ignore.h","parsers/choice.h","parsers/sequence.h"),
  [("call history","function, argument, order")],"map/filter parsers invoke the function after the operand's parse","log written by the user functions themselves"),
P("C15","Complete succeeds exactly when the whole input is consumed",
  "A complete parser succeeds if and only if its operand succeeds and nothing of the input remains after it, with the operand's value; otherwise it fails and reports the original input, in parse and lookahead alike, wherever it is placed in a grammar.",
  ["programs","inputs"],"all operands x all inputs, incl. empty input and empty matches",
  "Tests cover a literal with one trailing element.",
  d("parsers/complete.h","modifiers/complete.h"),[("remaining","input left by the operand")],"check of emptiness after the operand","result of parse/lookahead"),
P("C16","Parsing in a constant expression gives the same result as at run time",
  "Any parse or lookahead that can be evaluated in a constant expression yields there exactly the verdict, remainder, value and span positions that the same call yields at run time, and conversely every parse that does not call run-time-only user functions can be evaluated in a constant expression.",
  ["programs","inputs"],"all grammars without run-time-only functions x all inputs; constant evaluation also has to reject undefined behaviour such as out-of-range access",
  "Constant evaluation takes separate branches (adjacency test in join, containers); the tests run both modes on their few inputs only.",
  d("parsers/join.h","helpers.h","span.h","static_array.h"),[("evaluation mode","constant or run time")],"constexpr functions with is_constant_evaluated branches","rendered result computed in a constant expression versus at run time"),
P("C17","Results do not depend on container, element type or bytes outside the input",
  "The same sequence of elements gives the same verdict, positions and value whether passed as an array, string literal, string, string view, vector, span or pointer to a constant terminated string, and for any element type comparable with the grammar's. A string literal denotes all its characters (embedded zeros included) without its terminator, an array without terminator denotes all its elements, and no element outside the given range is ever read or influences the result.",
  ["inputs","configurations"],"all contiguous containers x element types (char kinds, integers, user types, mixed types) x contents incl. embedded zeros x surrounding memory",
  "Tests use NUL-terminated literals with nothing adversarial behind the range; the defects found here (unterminated and zero-containing character arrays) passed them.",
  d("span.h","type_traits.h","static_array.h","parsers/basic_base.h","set_operations.h"),
  [("input range","first element and length")],"input_span construction from the argument; element-wise comparison","result of parse on different carriers of the same elements, with varied memory after the range"),
P("C18","User-defined and recursive parsers behave as their definition in place",
  "A user-defined parser type (including self- and mutually recursive ones) succeeds, fails and consumes exactly as the parser its definition returns, at any recursion depth, in parse and lookahead. If it declares its own value type, a success carries the definition's value converted to that type, and a failure stays a failure whatever that type is constructible from.",
  ["programs","inputs"],"all sets of (mutually) recursive rules without left recursion x declared value types x all inputs",
  "Tests have two custom parsers without failing conversions; the defect found here (failure turned into success for some declared types) passed them.",
  d("parsers/custom.h","result.h"),[("rule environment","name -> definition"),("declared type","value type of the rule")],"CRTP base forwarding to the definition and converting results","result of parse/lookahead of the custom parser"),
P("C19","A result object is a faithful optional plus remainder through any use",
  "A result always reports the success flag, value and remainder it was created with: default construction gives a failed result, and copying, moving, converting between value types and reading by reference or by move (in any order and number) behave as for an optional value, never turning failure into success or changing the remainder. A span compares equal to another range exactly when the elements are pairwise equal and the lengths agree.",
  ["histories","inputs"],"all finite histories of construct / copy / move / assign / convert / read operations on result objects; all pairs of ranges",
  "Tests read each result once right after the parse; histories of operations are not exercised (a default-constructed valueless result was uninitialised).",
  d("result.h","span.h"),[("flag, value, remainder","state of one result object")],"std::optional wrapper with converting constructors","has_value / value / remaining after every step"),
P("C20","Parsing is pure: independent of earlier, interleaved or concurrent parses",
  "The outcome of a parse depends only on the grammar and the given elements: repeating it, interleaving it with other parses, nesting parses inside user functions, abandoning a parse by an exception from a user function, or running parses on several threads at once gives the same outcome every time, and parsing never modifies its input.",
  ["schedules","histories"],"all interleavings and repetitions of parses over shared grammars and shared inputs",
  "Each test parses once on one thread; hidden state (caches, statics, writes to the input) would go unnoticed.",
  d("parsers/basic_base.h","helpers.h","parsers/map.h","parsers/custom.h","static_array.h"),
  [("shared state","must be none"),("input buffer","must stay unchanged")],"static member functions over constexpr data","results of repeated, re-entrant and concurrent parses; input bytes afterwards"),
P("C21","Value-transforming modifiers deliver exactly the documented value",
  "Map gives the function's result for the matched value (or for no argument if there is none), apply passes the parts of a tuple, pair or array as separate arguments in order, into and apply-into construct the target from the value or its parts, constant gives that constant, and defaulted gives a default-constructed value for every match. Values are handed over by move without loss, also for types that can only be moved, and the transformed value then takes part in enclosing combinators like any other.",
  ["programs","inputs"],"all value shapes x all transforming modifiers x nesting in every combinator x all inputs",
  "Tests apply each modifier to one flat shape with literal inputs.",
  d("parsers/map.h","apply.h","functions.h","modifiers/map.h","modifiers/apply.h","modifiers/into.h","modifiers/apply_into.h","modifiers/constant.h","modifiers/defaulted.h","aliases/apply_map.h","aliases/into.h","aliases/apply_into.h"),
  [("value","result of the operand")],"map parser with adapted callables","value of the enclosing parse"),
P("C22","A filter accepts a match exactly when its predicate holds for the value",
  "A filtered parser succeeds in parse exactly when its operand succeeds and the predicate, given the matched value (its parts for apply-filter, nothing for a valueless operand), returns true, and then yields the operand's unmodified value and remainder; otherwise it fails with the input untouched, so that enclosing alternatives, optionals and repetitions react as to any failure. This holds wherever it is nested, also when the filtered parser has no value.",
  ["programs","inputs"],"all operands and predicates x nesting in every combinator x all inputs",
  "Tests filter flat parsers; a filter on a valueless parser inside a sequence or choice was in fact skipped.",
  d("parsers/filter.h","modifiers/filter.h","modifiers/apply_filter.h","aliases/apply_filter.h","helpers.h"),
  [("verdict","predicate result")],"predicate call after the operand's parse","verdict, value, remainder of the enclosing parse"),
P("C23","The JSON and calculator examples accept their languages and compute correctly",
  "The example JSON parser accepts exactly the documents of its grammar and returns their content; the example calculator accepts exactly its arithmetic expressions and evaluates them as its documented grammar reads: power before product before sum, power grouping to the right and the others to the left, a minus sign negating the whole expression that follows it, parentheses and scientific notation.",
  ["inputs"],"all documents / expressions (any nesting)",
  "The examples have no assertions; they are only compiled.",
  ["examples/json","examples/algebraic"],[("document","value tree")],"grammars built from the library","value returned by the example parsers"),
P("C24","Only operands, inputs and functions that fit together are accepted",
  "Operators and modifiers accept exactly the operands they are documented for, in every notation alike: | >> and the delimit modifiers combine two parsers over the same element type, whatever the parsers are made of, and give a parser over that type; eps is accepted to the right of | by every parser; ~ + * by every parser; ! by a parser exactly when it simplifies to a character class; modifiers and groups of modifiers by every parser over the element types that their separators have; a name is assigned modifiers, and sub takes such assignments. parse and lookahead accept exactly the contiguous ranges, and the pointers to constant character strings, whose elements can be compared with the grammar's elements; map and filter parse only where their function can take the operand's value and, for filter, answers a truth value. Every other combination is refused when it is compiled, and a requires-expression about operators, modifiers and inputs given by value can tell.",
  ["programs","inputs"],"all pairs of operands, composed in all ways; all element and carrier types",
  "The tests ask about a fixed table of small sample parsers over char, wchar_t and int; the overload sets meet compositions and types that the table does not have.",
  d("parser.h","modifier.h","type_traits.h","substitution.h","span.h","static_array.h")+d("operators/choice.h","operators/sequence.h","operators/not.h","operators/epsilon.h","operators/modifier.h","modifiers/delimit.h","modifiers/delimit_keep.h","modifiers/multi.h","modifiers/name.h","modifiers/sub.h","parsers/map.h","parsers/filter.h"),
  [("operand","kind, element types"),("verdict","accepted as what, or refused")],"operator, modifier or parse applied to its operands","well-formedness and type of the expression"),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
