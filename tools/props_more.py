J = "src/model/json.cpp"; H = "include/simfil/model/nodes.h"; R = "include/simfil/result.h"; E = "src/environment.cpp"
TY = "src/types.cpp"; TR = "include/simfil/transient.h"; AR = A; EX = "src/exception-handler.cpp"
NI = "include/simfil/model/nodes.impl.h"

prop("C08", "Expressions parse by the documented precedence and grouping",
 "For every expression, writing it with only the parentheses required by the documented precedence table (path, sub-query, subscript, post-fix, unary, cast, product, term, bit, comparison, equality, and/or; left to right on one level), with all parentheses, or with additional ones and spaces, compiles to the same tree and evaluates to the same values: the ones of the intended grouping.",
 ["inputs"], "all operator trees and their spellings",
 "The tests check some forty fixed expressions; combinations of three or more operators of different levels are hardly sampled.",
 [S, P], [("Precedence", S), ("Parser::parsePrecedence", P)], ["Expr::toString()", "results of eval()"])
prop("C09", "Constant folding never changes what a query means",
 "For every query and document, the values returned are those of evaluating the expression step by step: whether sub-expressions are literals that the compiler can evaluate in advance or values it cannot know makes no difference, neither in the values, their number and order, nor in whether the query is accepted (though a part that always fails may be reported at compile time even where it would never be reached). The same holds for a query wrapped into any(...).",
 ["inputs", "configurations"], "all expressions with literals in any position",
 "The tests check folding of single operators; mixtures of known and unknown arguments in functions, quantifiers and short-circuits are not covered.",
 [S, F], [("simplifyOrForward", S), ("MultiConstExpr", S), ("Undef handling in functions", F)], ["values of eval() with and without folding"])
prop("C10", "Compiling and evaluating arbitrary text is safe and total",
 "For every text, compile() in each of its modes either returns an expression or raises a std::exception, and evaluating what was accepted on any document terminates with values or raises a std::exception; no memory error, no other exception, no hang, no change to the document. Doing it again gives the same outcome. A query compiled in any-mode that evaluates yields exactly one boolean.",
 ["inputs"], "all texts: valid, mutated, random bytes, nested",
 "The tests compile valid queries and a few malformed ones.",
 [S, P, F, T], [("compile / eval", S), ("Parser", P)], ["outcome of compile() and eval() under AddressSanitizer"])
prop("C11", "Letter case, symbols, constants and compile modes mean what is documented",
 "Keywords, function names, type names, field names and constants are found in any letter case, whatever the spelling used in the document. A word of upper case letters, digits and underscores is the string of that spelling, except where it names a step of a path; constants registered with the environment stand for their value. Mode any=true returns what any(<query>) returns; autoWildcard turns a query that is a constant into '** == <constant>' and leaves other queries alone.",
 ["inputs", "configurations"], "all spellings of all queries and documents, all words, all compile modes",
 "The tests use one or two spellings and do not combine modes with constants.",
 [S, SP, E], [("isSymbolWord / WordParser", S), ("CaseInsensitiveCompare", "include/simfil/environment.h"), ("compile modes", S)], ["values of eval()"])
prop("C12", "Paths, wildcards, subscripts and sub-queries select exactly the right nodes",
 "For every document and path expression (field steps, *, **, _, [index], [name], {filter}, in any combination), the results are exactly the nodes the documentation describes, in document order, each once per match: '*' the children, '**' the node itself and all descendants before their siblings, a filter the nodes for which the sub-query is true, a subscript the addressed child; null where nothing matches.",
 ["inputs"], "all documents and path expressions",
 "The tests navigate a few fixed documents with single paths.",
 [S, N], [("PathExpr / WildcardExpr / AnyChildExpr / SubExpr / SubscriptExpr / FieldExpr", S), ("BaseObject::get / at / iterate", NI)], ["values of eval()"])
prop("C13", "Operators and casts compute the documented results for every pair of types",
 "For all operand values of all types (null, bool, int, float, string, object, array, range, regular expression; literals or fields), arithmetic, comparison, bit operators, subscripts, unary operators and casts give exactly the result the language defines: exact 64 bit integer arithmetic while it does not overflow, IEEE double arithmetic when a float is involved, string concatenation with '+', null propagation, false for comparing unlike types - and undefined combinations and division by zero raise an error instead of yielding some value.",
 ["inputs"], "all operators over all pairs of operand types and values",
 "The tests check each operator for a few operand pairs.",
 [OP, TY, S], [("Operator* structs and dispatchers", OP), ("castFn / UnaryExpr / BinaryExpr", S), ("IRangeType / ReType operators", TY)], ["values of eval()"])
prop("C14", "any, each, all, count, and, or decide and short-circuit correctly",
 "For every sequence of values: any(...) is true exactly if some value is neither null nor false; each(...) and all(...) exactly if none is null or false; count(...) is the number of values that are neither; 'and' yields the left operand if that is null or false, else the right; 'or' the left if that is neither, else the right - per combination of values. Evaluation stops as soon as the result is decided, so later parts that would fail or never end do no harm; stopping inside does not stop the surrounding evaluation.",
 ["inputs"], "all argument sequences and nestings",
 "The tests call them with a few constant lists and paths.",
 [F, S, R], [("AnyFn / EachFn / CountFn", F), ("AndExpr / OrExpr", S), ("Result::Stop propagation", R)], ["values of eval()"])
prop("C15", "range, arr, split, select, sum and keys produce exactly their sequences",
 "range(a, b) compares equal to exactly the numbers between its bounds and unpacks to the integers from a to b in that direction; arr yields its arguments' values in order; split cuts a string at every separator, with or without empty parts; select yields the requested window of its input and nothing else; sum folds its input from the start value with the given expression in order; keys yields the field names in order. They compose in any nesting, and wrong arguments raise an error.",
 ["inputs"], "all arguments and nestings of the functions",
 "The tests call each with two or three constant arguments.",
 [F, TY], [("RangeFn / ArrFn / SplitFn / SelectFn / SumFn / KeysFn", F), ("IRangeType::unpack", TY)], ["values of eval()"])
prop("C16", "Tracing and debug hooks observe evaluation without changing it",
 "Wrapping any sub-expressions into trace(...) and installing debug hooks leaves the results of a query unchanged. Afterwards each named trace holds exactly the number of its calls and, in order, the values that passed (up to its limit); begin and end hooks come in properly nested pairs. Traces of several evaluations add up.",
 ["inputs", "histories"], "all queries and placements of trace calls",
 "The tests trace one constant list.",
 [F, E, "include/simfil/expression.h"], [("TraceFn", F), ("Environment::trace", E), ("Expr::eval hooks", "include/simfil/expression.h")], ["values of eval()", "Environment::traces", "Debug callbacks"])
prop("C17", "Regular expressions match whole strings, in every position",
 "Comparing a string with a regular expression (literal or re(...)), in either order, is a full match: '==' yields the string if it matches and false otherwise, '!=' the string if it does not match and false otherwise; comparing with null yields null, with other types no match; other operators and malformed patterns raise an error.",
 ["inputs"], "all patterns and subjects, in all positions of a query",
 "The tests match a handful of fixed strings.",
 [TY, S, F], [("ReType::binaryOp", TY), ("RegExpExpr / RegExpParser", S), ("ReFn", F)], ["values of eval()"])
prop("C18", "Queries are pure and their results stay valid",
 "Evaluating a compiled query never changes the expression, the model or later evaluations: repeating it, in any order with other queries, in a fresh environment or on an equal model gives the same values. Results stay valid and unchanged after the expression and the environment are destroyed and the handle of the model is dropped.",
 ["inputs", "histories"], "all queries, evaluation orders and lifetimes",
 "The tests evaluate each query once while everything is alive.",
 [S, V, SP], [("FieldExpr name cache", S), ("Value::node ownership", V)], ["values of repeated eval()", "AddressSanitizer"])
prop("C19", "A compiled query may be evaluated by many threads at once",
 "Evaluating one compiled expression, or several expressions of one environment, on shared models from several threads at the same time has no data race and gives every thread exactly the values of a sequential evaluation; traces of all threads add up.",
 ["schedules", "inputs"], "all interleavings of concurrent evaluations",
 "The tests run on a single thread.",
 [S, E, SP, AR], [("nameId_ / fn_ caches", S), ("Environment::trace / warn locks", E), ("StringPool locks", SP)], ["results of concurrent eval() under ThreadSanitizer"])
prop("C20", "JSON documents survive the way into and out of a model",
 "For every JSON document, parsing it into a model and converting the model to JSON returns the same document: all values with their types and exact numbers, all keys (names are case-insensitive: the spelling seen first counts), array order, nesting and every root; malformed JSON raises an error. Objects with repeated keys (letter case ignored) are converted to their documented multimap form, and typed accessors agree with the JSON view.",
 ["inputs"], "all JSON documents",
 "The tests convert two small documents.",
 [J, M, N, NI], [("json::parse / buildObject", J), ("ModelNode::toJson", N), ("ModelPool::newValue", M)], ["ModelPool::toJson() / ModelNode accessors"])
prop("C21", "Models built step by step contain exactly what was put in",
 "After any history of creating objects, arrays and values, adding fields, appending, extending from other containers, re-resolving handles, adding roots and clearing, every node reports exactly the type, value, size, keys and children of the history, through every accessor (get by id and by name in any letter case, at, keyAt, iterate, fields, field names, range-for) in insertion order, and nodes not touched stay the same.",
 ["histories"], "all sequences of builder calls",
 "The tests build two models with a fixed sequence of calls.",
 [M, N, NI, H, AR], [("ModelPool::newObject / newArray / newValue", M), ("BaseObject / BaseArray", NI), ("small value encoding", H)], ["ModelNode accessors"])
prop("C22", "ArrayArena behaves as a list of growable arrays",
 "After any history of creating arrays with any capacity, appending, copying, clearing, shrinking and serializing, each array of an ArrayArena contains exactly the elements appended to it, in order, independent of all others; access outside an array raises an error; iteration over all arrays and within one visits each element once, in order.",
 ["histories"], "all operation sequences over many arrays",
 "The tests use two to four arrays with a fixed sequence.",
 [AR, "include/simfil/model/bitsery-traits.h"], [("ArrayArena chunks", AR)], ["at / size / iterate / begin-end / serialization"])
prop("C23", "A thread-safe ArrayArena survives concurrent growth",
 "With ARRAY_ARENA_THREAD_SAFE, threads that create arrays, append to their own arrays and read arrays that are complete at the same time never race, and afterwards every array has exactly the elements its owner appended.",
 ["schedules"], "all interleavings of creators, writers and readers",
 "No test runs the arena from several threads.",
 [AR], [("ArrayArena locks", AR)], ["arena contents under ThreadSanitizer"])
prop("C24", "A model read back from its serialized form is the same model",
 "For every model, write() followed by read() into a fresh model with the same strings gives the same roots, nodes, values, keys and order, again and again; an input that is cut off anywhere raises an error and corrupted input never leads to a crash while reading.",
 ["inputs", "crash_points"], "all models; all truncation points of their serialized form",
 "One test serializes one model.",
 [M, AR, "include/simfil/model/bitsery-traits.h"], [("ModelPool::read / write", M)], ["toJson and node accessors of the read model"])
prop("C25", "checkForErrors reports dangling references, and only those",
 "For every properly built model checkForErrors() is empty and validate() passes; when any node, root, field name or array index refers to something that does not exist, at any place of the model, it is reported and validate() raises an error.",
 ["inputs"], "all models and all single dangling references in them",
 "No test calls it on a damaged model.",
 [M], [("ModelPool::checkForErrors", M)], ["checkForErrors() / validate()"])
prop("C26", "Replacing a model's string pool preserves the model",
 "setStrings() with any other pool - empty, larger, with other ids or another spelling - leaves the model with the same structure, values and field names; fields are found by name afterwards, the old pool is not needed any more, and queries give the same results.",
 ["inputs", "configurations"], "all models and all target pools",
 "No test calls it with a pool of different ids.",
 [M, SP], [("ModelPool::setStrings", M)], ["toJson, get, queries after setStrings()"])
prop("C27", "The string pool is a bijection between names and ids",
 "After any history of emplacing, looking up, adding static keys and copying, each name known (in any letter case) has exactly one id, which resolves to its first spelling and never changes; unknown names and ids resolve to nothing; copies are independent and equal; size, bytes and highest agree with the contents; a pool that is full raises an error and stays usable.",
 ["histories"], "all operation sequences, all names over all bytes",
 "One test adds three strings.",
 [SP], [("StringPool::emplace / get / resolve / addStaticKey", SP)], ["StringPool accessors"])
prop("C28", "String pools are transferred completely, in whole or in increments",
 "write(offset) followed by read() transfers exactly the names from the offset on, with their ids: in one go into an empty pool, or in any sequence of increments into a pool that follows another one. Names already known are kept. Input that is cut off raises an error.",
 ["inputs", "histories", "crash_points"], "all pools, all split points, all truncation points",
 "One test transfers one small pool in two steps.",
 [SP], [("StringPool::read / write", SP)], ["StringPool contents after read()"])
prop("C29", "A string pool may be used by many threads at once",
 "Concurrent emplace, get, resolve, iteration of sizes and serialization of one string pool never race, no name gets two ids and no id two names, and every id returned resolves to its name at once in every thread.",
 ["schedules"], "all interleavings",
 "The tests run on a single thread.",
 [SP], [("StringPool::stringStoreMutex_", SP)], ["StringPool accessors under ThreadSanitizer"])
prop("C30", "Values and transient objects are proper value types",
 "Value keeps its type and content through any sequence of copies, moves and assignments (including to itself), as do the transient objects it may carry: every payload created is released exactly once, copies are independent; typed access, string view access, conversion to string and to a scalar agree with the content.",
 ["inputs", "histories"], "all values and all sequences of copy, move, assign, destroy",
 "The tests copy no transient values.",
 [V, TR, "include/simfil/typed-meta-type.h"], [("Value", V), ("TransientObject", TR)], ["Value accessors", "counts of payload copies and deletions"])
prop("C31", "Every error that is raised reaches the installed throw handler",
 "With a throw handler installed, every error that simfil itself raises (tokenizing, compiling, evaluating, accessing, checking or reading models and string pools) is reported to the handler on the same thread before it propagates: the last report has exactly the type name and the message of the exception that arrives. Operations that succeed report nothing, the handler changes no outcome, and a handler that was replaced or removed is not called any more. Errors of the standard library and of the JSON parser are not simfil's.",
 ["inputs"], "all failing operations",
 "No test installs a handler.",
 [EX, "include/simfil/exception-handler.h"], [("raise / ThrowHandler", EX)], ["ThrowHandler callback and exception"])
prop("C32", "Overlay and procedural nodes add their fields and hide nothing else",
 "An overlay node answers with the values set on it for their names and with the underlying node for everything else (type, size, children, keys, iteration), whatever is set and however often; a procedural object presents its computed fields and its stored fields in one consistent view by name, index, key and iteration.",
 ["inputs", "histories"], "all underlying nodes and sets of added fields",
 "No test uses overlay or procedural nodes directly.",
 ["src/overlay.cpp", "include/simfil/overlay.h", H], [("OverlayNode", "src/overlay.cpp"), ("ProceduralObject", H)], ["ModelNode accessors"])
prop("C33", "User-defined types, functions and constants work in queries as written",
 "A value of a user-defined meta type takes part in every operator through the operators of its own type: unary and binary operators, word operators, casts, subscripts, conditions (filters, and/or, any/each/count), unpacking and conversion to string call the type's function with the operator's name and the operands in their order - that of the left operand if both have one - and the result is what it returns; an operation the type denies raises an error. A function registered with the environment (in the place of a built-in one or not, called in any letter case) gets its arguments as written, the current value, the environment and the phase, is called once for every value of the surrounding expression that needs it, in order; the values it passes on, its end by Stop and its exceptions arrive unchanged. Registered constants stand for their value. All payloads are released.",
 ["inputs"], "all expressions over user-defined types, functions and constants",
 "No test defines a type, a function or a word operator of its own.",
 ["src/simfil.cpp", "include/simfil/operator.h", "include/simfil/typed-meta-type.h", "include/simfil/transient.h", "include/simfil/function.h", "include/simfil/environment.h"],
 [("UnaryOperatorDispatcher / BinaryOperatorDispatcher", "include/simfil/operator.h"), ("CallExpression / UnaryWordOpExpr / BinaryWordOpExpr / UnpackExpr", "src/simfil.cpp"), ("TypedMetaType", "include/simfil/typed-meta-type.h")],
 ["values returned by eval()", "calls received by the user's types and functions"])
prop("C34", "A data model of the user's own is queried like the built-in one",
 "Nodes of a user-defined model class (directly derived from Model, or columns added to ModelPool, containing and contained in built-in nodes), handed out as they are, as bare addresses or as built-in value nodes, are seen by navigation, iteration, JSON export and queries from any node exactly as they present themselves: a query gives the values it gives on the same document in a model pool, and results keep their model alive.",
 ["inputs"], "all documents, node representations and queries",
 "The tests only query models made by the JSON reader.",
 ["src/model/nodes.cpp", "src/model/model.cpp", "include/simfil/model/nodes.h", "include/simfil/model/model.h", "src/simfil.cpp"],
 [("ModelNode dispatch to Model::resolve", "src/model/nodes.cpp"), ("Model::resolve / ModelPool::resolve", "src/model/model.cpp"), ("eval", "src/simfil.cpp")],
 ["ModelNode accessors", "values returned by eval()"])
prop("C35", "Warnings tell what is constant and which subscripts address nothing, truly",
 "Compiling a query whose operators and functions get literals only, and which yields only null, only true or only false, adds a warning that an expression is always that; no such warning is given when no part of the query has only this value for every input. Evaluating adds one warning, with the type of the subscript, for each subscript on a node that addresses no child, in order, and nothing else. Each names the expression. Warnings already there, the program's own included, stay as they are.",
 ["inputs", "histories"], "all queries and documents",
 "No test looks at warnings.",
 ["src/simfil.cpp", "src/environment.cpp", "include/simfil/environment.h"],
 [("simplifyOrForward / SubscriptExpr", "src/simfil.cpp"), ("Environment::warn", "src/environment.cpp")],
 ["Environment::warnings"])
# Only what is claimed or declared not applicable.
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from groups import PROPS as _CLAIMED, NOT_APPLICABLE as _NA
props[:] = [p for p in props if p["id"] in _CLAIMED or p["id"] in _NA]
