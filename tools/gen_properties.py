#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text is reviewable in one place)."""
import json, os
S = "src/expr/"
R = "src/rel/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("E01", "A postfix program computes the composition of its operators",
 "For every well-formed encoded expression and every bound tuple of matching types, running it yields exactly the value obtained by applying each operator to its own operands in postfix order, whatever the nesting, the depth of pending operands and the surrounding operators; left and right operands are never exchanged. When several expressions are concatenated in one program, all their results are available, one per expression and in the order written, and the last one is the single result.",
 ["programs", "inputs"], "all well-formed programs over the documented operator set, any nesting/stack depth, all tuples",
 "The tests run 37 fixed programs of at most 3 operators; they cannot reach operator pairs, non-commutative operators under other operators, or deep stacks.",
 [S+"runner.cc", S+"operator.h", S+"operator.cc", S+"operand_stack.h", S+"operator_vector.cc", S+"operators.cc"],
 [("operator dispatch loop", S+"runner.cc Run"), ("pop order v1 then v0", S+"operator.h Binary/TertiaryOperator"), ("operator tables", S+"operators.cc")],
 ["Runner::Run", "Runner::Get", "Runner::GetAll"],
 [("m_stack", "operand stack", S+"operand_stack.h")])

prop("E02", "Integer arithmetic is exact modulo 2^n and never faults",
 "For all 32-bit and 64-bit operands, unary plus/minus, absolute value, addition, subtraction and multiplication give the mathematical result wrapped to two's complement width; division truncates toward zero and the remainder has the sign of the dividend. Division or remainder by zero yields NULL, the minimum value divided by -1 wraps (remainder 0), and checked absolute value raises an error exactly for the minimum value; no operand pair crashes the process.",
 ["inputs"], "all pairs of 32/64-bit operands for every integer arithmetic operator",
 "The tests use about eight small operand pairs and never divide by 0 or -1, overflow, or touch 64-bit boundaries other than abs(INT_MIN).",
 [S+"calc/arithmetic.h", S+"calc/mathematic.cc", S+"operators.cc"],
 [("zero divisor guard", S+"calc/arithmetic.h Div/Mod"), ("limit check", S+"calc/mathematic.cc AbsCheck")],
 ["Runner::Get"])

prop("E03", "Floating-point arithmetic and math functions follow IEEE/libm",
 "For all single and double precision operands the arithmetic operators return the IEEE-754 result of that precision (signed zeros, infinities, NaN and subnormals included), and division by positive or negative zero yields NULL. The mathematical functions return the value of the standard mathematical function they are documented as, for every double.",
 ["inputs"], "all pairs of float/double operands; all doubles for the 13 math functions",
 "Tests contain one float division and one double addition; no special value, no zero divisor, and no math function is ever called.",
 [S+"calc/arithmetic.h", S+"calc/mathematic.cc", S+"operators.cc"],
 [("operator instantiation per type", S+"operators.cc OP_ADD..OP_DIV"), ("function table", S+"operators.cc OP_FUN")],
 ["Runner::Get"])

prop("E04", "NULL operands propagate; NULL tests never yield NULL",
 "Every arithmetic, comparison, cast, min/max, mathematical and string operator yields NULL as soon as any of its operands is NULL, whatever the other operands (even ones that would otherwise raise an error), and yields a non-NULL value when none is, except that division or remainder by zero yields NULL. IS_NULL, IS_TRUE and IS_FALSE always yield a non-NULL boolean, at most one of the three being true for a given operand, and exactly one for every non-string operand and for every NULL.",
 ["inputs", "programs"], "every operator x every subset of NULL operands x operand values, NULL coming from a literal, a tuple or another operator",
 "The tests evaluate NULL in three programs only (AND, IS_NULL); no strict operator is ever given a NULL expression operand except one division in a projection.",
 [S+"operator.h", S+"calc/special.h", S+"calc/special.cc", S+"operators.cc"],
 [("null guards", S+"operator.h Unary/Binary/TertiaryOperator"), ("special predicates", S+"calc/special.h")],
 ["Runner::Get", "Runner::GetOptional"])

prop("E05", "AND, OR and NOT implement three-valued logic in any nesting",
 "NOT, AND and OR over TRUE, FALSE and NULL follow Kleene's three-valued logic: FALSE AND x is FALSE, TRUE OR x is TRUE even when x is NULL, on either side, and otherwise a NULL operand makes the result NULL. Hence any expression tree built from them evaluates to its three-valued truth value for every assignment of its leaves, is commutative in each operator, and obeys De Morgan's laws.",
 ["inputs", "programs"], "all AND/OR/NOT trees, all assignments of TRUE/FALSE/NULL to leaves, leaves being literals, variables or predicates",
 "Tests check three of the 21 table entries, never OR or NOT, and no nesting.",
 [S+"operator.cc", S+"calc/special.h"],
 [("AndOperator/OrOperator/NotOperator", S+"operator.cc")],
 ["Runner::Get", "RelRunner::Put (filter)"])

prop("E06", "Comparisons form a consistent order; MIN and MAX agree with it",
 "On each comparable type the six comparison operators implement the natural order (numeric; bytewise lexicographic for strings of any length and content, FALSE before TRUE): exactly one of <, =, > holds, and <=, >=, <> are the corresponding combinations, with NaN unordered and unequal to everything. MIN and MAX return the smaller and the larger operand of that same order.",
 ["inputs"], "all operand pairs (and triples, for transitivity) of every comparable type",
 "Tests compare about six pairs, never equal strings, prefixes, high bytes, signed extremes, NaN or booleans; MIN/MAX operators are untested.",
 [S+"calc/relational.h", S+"calc/mathematic.h", S+"calc/mathematic.cc", S+"expr_string.h", S+"operators.cc"],
 [("relational templates", S+"calc/relational.h"), ("string order", S+"expr_string.h")],
 ["Runner::Get"])

prop("E07", "Numeric casts round correctly and checked casts never corrupt",
 "A cast between numeric or boolean types gives the nearest value of the target type: real to integer rounds to nearest with halves away from zero (when in range), 64-bit to 32-bit integer wraps, to boolean is 'non-zero', and widening is exact. A checked cast gives the same value whenever the rounded value fits the target integer type and otherwise (too large, too small, NaN, infinite) raises an error; it never returns a wrong value.",
 ["inputs"], "all values of each numeric source type for each supported numeric target, unchecked and checked",
 "Tests cover six out-of-range samples far from the limits, one widening and no rounding, so boundaries, halves, NaN and infinities are never reached.",
 [S+"calc/casting.h", S+"calc/casting.cc", S+"operators.cc"],
 [("lround/llround", S+"calc/casting.cc"), ("post-cast error check", S+"calc/casting.cc CastCheck")],
 ["Runner::Get"])

prop("E08", "Casts between strings and numbers preserve the value",
 "Casting any integer or boolean to a string gives its canonical decimal text (or true/false), and casting a real gives its fixed-point decimal text rounded to 15 fractional digits with redundant trailing zeros removed but at least one fractional digit kept; casting such text back restores the integer exactly and the real to within that rounding. Casting a string to a number reads the longest numeric prefix after optional blanks (0 if there is none), and raises an error instead of returning a wrong value when the number does not fit the target type.",
 ["inputs"], "all numbers of each type and all strings",
 "Tests cast six numbers and eight strings; no sign, blank, exponent, range limit, large magnitude or round trip is exercised.",
 [S+"calc/casting.cc", S+"operators.cc"],
 [("CastF", S+"calc/casting.cc"), ("stoi family", S+"calc/casting.cc")],
 ["Runner::Get"])

prop("E09", "String functions return the documented substring for all positions",
 "For every string (empty, blank, containing NUL or non-ASCII bytes, any length) and every integer position or length, including negative, zero, past the end, reversed and extreme ones, SUBSTR (0-based start, exclusive end), MID (1-based, negative counting from the end, with or without length), LEFT, RIGHT, TRIM, LTRIM, RTRIM, CONCAT, LOWER and UPPER return exactly the documented text: positions outside the string are clamped, empty or reversed ranges give the empty string, and a MID start that is zero or outside the string gives the empty string. They never raise an error, never return text outside the requested range and never alter their operands.",
 ["inputs"], "all strings x all int32 position/length arguments",
 "No string function other than comparison and cast is tested at all.",
 [S+"calc/string_fun.cc", S+"operators.cc"],
 [("Substr/Mid/Left/Right/Trim", S+"calc/string_fun.cc"), ("function table", S+"operators.cc OP_FUN")],
 ["Runner::Get"])

prop("E10", "Decoding is faithful: immediates, extents and end markers",
 "Every immediate number in an encoded expression decodes to exactly the value that was encoded: varint integers of every length (also non-minimal and sign-extended forms), negated constants, big-endian floats and doubles bit for bit, strings with arbitrary bytes of any length, and variable indices. Decoding consumes exactly the bytes of one expression, stops right after its end marker without interpreting later bytes or mistaking a zero byte inside an immediate for the end, and returns the position that follows. Once decoded, a program no longer depends on the memory its encoding was in.",
 ["inputs", "programs"], "all immediate values and encodings of each type, at every position of a program, followed by any bytes",
 "Tests decode a dozen short immediates (at most 5-byte varints) and never inspect the position returned by decoding.",
 [S+"codec.cc", S+"codec.h", S+"operator_vector.cc"],
 [("varint / big-endian decode", S+"codec.cc"), ("EOE handling", S+"operator_vector.cc Decode")],
 ["Runner::Decode return value", "Runner::Get"])

prop("E11", "Any byte string is either decoded as documented or rejected safely",
 "For every byte string given as an expression, decoding either accepts it exactly when it is a sequence of documented, supported encodings or raises an error; truncated immediates or operators, unknown operators, type codes and function numbers, and unsupported operator/type combinations are errors. It never reads outside the given bytes, and running an accepted program that lacks operands or mixes types raises an error instead of crashing, after which the evaluator can be reused.",
 ["inputs", "programs"], "all byte strings up to a bounded length, and every truncation and single-byte corruption of valid programs",
 "No test decodes an invalid program; rejection, truncation and stack underflow are never exercised, and tests run without memory checking.",
 [S+"operator_vector.cc", S+"codec.cc", S+"codec.h", S+"operand_stack.h", S+"exception.h"],
 [("UnknownCode", S+"operator_vector.cc Decode"), ("operator lookup", S+"operator_vector.cc AddOperatorByType/AddCastOperator/AddFunOperator")],
 ["Runner::Decode", "Runner::Run"])

prop("E12", "An evaluator's result depends only on its program and bound tuple",
 "After any history of decodes (successful or failed), tuple bindings, runs (successful or raising) and reads on any number of evaluators, running an evaluator yields the value of its most recently decoded program on the current content of its most recently bound tuple, as a fresh evaluator would; repeated runs give equal results. Evaluation never modifies the bound tuple, and results handed out earlier never change or become invalid.",
 ["histories"], "all bounded histories of decode/bind/run/get/destroy over two evaluators",
 "Each test uses a fresh evaluator for exactly one decode, one bind and one run; no reuse, rebinding, failure or second evaluator occurs.",
 [S+"runner.h", S+"runner.cc", S+"operator_vector.h", S+"operator_vector.cc", S+"operand_stack.h"],
 [("stack cleared per run", S+"runner.cc Run"), ("operators released on decode", S+"operator_vector.h Release")],
 ["Runner::Decode/BindTuple/Run/Get/GetAll"],
 [("m_operand_stack", "operands of the latest run", S+"runner.h"), ("m_vector/m_to_release", "decoded operators and the owned ones", S+"operator_vector.h")])

prop("E13", "The reported static type is the type of the produced value",
 "For every well-formed program, the result type reported after decoding is the documented result type of its last operator, and every non-NULL value produced by running it is held as exactly that type and so can be read as it. This holds for every operator, operand type and function.",
 ["programs", "inputs"], "all operators/functions and their compositions, all well-typed inputs",
 "No test calls the type query; value types are compared only for the 37 sample programs.",
 [S+"operator.h", S+"operator_vector.h", S+"operators.cc", S+"runner.h", S+"operand.h"],
 [("OperatorBase<R>::GetType", S+"operator.h"), ("typed Push", S+"operand_stack.h")],
 ["Runner::GetType", "Operand::GetValue", "Runner::GetOptional"])

prop("R01", "A filter passes exactly the rows whose predicate is TRUE, unchanged",
 "For every filter predicate and every sequence of rows, each row put in comes out immediately and unmodified if the predicate is TRUE on it, and yields no output if the predicate is FALSE or NULL. The decision for a row does not depend on rows seen before it.",
 ["inputs", "histories"], "all predicates, all row sequences",
 "Tests run two predicates over one nine-row sample; NULL predicates occur once and dependence on earlier rows is not separated.",
 [R+"op/filter_op.cc", S+"runner.cc", S+"calc/special.h"],
 [("FilterOp::Put", R+"op/filter_op.cc")],
 ["RelRunner::Put", "RelRunner::Get"])

prop("R02", "A projection yields one column per expression, computed from its row",
 "For every list of projection expressions and every sequence of rows, each row put in immediately yields one row having one column per expression, in order, each equal to that expression evaluated on that input row alone. NULL results appear as NULL columns, columns may repeat or reorder inputs, and a row that comes out is independent of the input row and of later rows.",
 ["inputs", "histories", "programs"], "all projection lists, all row sequences",
 "Tests run three projections; column order permutations, width changes, strings kept after the input is released and repeated use are not varied.",
 [R+"op/project_op.cc", S+"runner.cc"],
 [("ProjectOp::Put", R+"op/project_op.cc"), ("GetAll", S+"runner.cc")],
 ["RelRunner::Put", "RelRunner::Get"])

prop("R03", "Aggregates equal the fold of the non-NULL inputs",
 "For every sequence of rows put into an ungrouped aggregation, exactly one result row is produced (none if no row was put in) with, in order, for each aggregate: row count, count of non-NULL values, their sum (in the column's own type, wrapping), minimum or maximum; an aggregate other than the row count over only NULL values is NULL. Apart from floating-point rounding the result does not depend on the order of the rows, and after the result is taken the aggregation starts afresh.",
 ["histories", "inputs"], "all row sequences, all aggregate functions x types, all interleavings of puts and gets",
 "Two aggregation samples over the same nine rows; MIN and MAX aggregates, all-NULL columns, overflow, strings, empty input and reuse are untested.",
 [R+"op/agg.h", R+"op/agg.cc", R+"op/agg_op.cc", R+"op/ungrouped_agg_op.cc", R+"rel_runner.cc"],
 [("CalcAgg/CountAgg", R+"op/agg.h"), ("cache hand-over", R+"op/ungrouped_agg_op.cc Get")],
 ["RelRunner::Put", "RelRunner::Get"],
 [("m_cache", "running aggregate row", R+"op/ungrouped_agg_op.h")])

prop("R04", "Grouped aggregation partitions rows exactly by equal keys",
 "For every sequence of rows, a grouped aggregation yields exactly one result row per distinct combination of group-column values (NULLs equal to each other, different values and different column splits never merged, zero, one or several key columns of any type), consisting of the key columns in the given order followed by the aggregates of exactly that group's rows. Each group is delivered exactly once, then nothing, and the aggregation starts afresh for groups already delivered.",
 ["histories", "inputs"], "all row sequences, key column lists and types, and interleavings of puts and gets",
 "One sample with a single string key and five groups, whose check accepts any expected row any number of times (a duplicated or missing group passes).",
 [R+"op/grouped_agg_op.cc", R+"op/agg_op.cc", S+"operand.h", S+"utils.cc", S+"expr_string.h"],
 [("hash map keyed by tuple", R+"op/grouped_agg_op.h m_caches"), ("MapTuple/ConcatTuple", S+"utils.cc"), ("hash/equality", S+"operand.h")],
 ["RelRunner::Put", "RelRunner::Get"],
 [("m_caches", "key tuple to running aggregates", R+"op/grouped_agg_op.h")])

prop("R05", "A chain of relational operators equals their sequential composition",
 "For every chain of filters, projections and aggregations of any length and every sequence of rows, the outputs delivered while putting rows and then by taking results until none is left are exactly those of feeding every output of each operator, in order, into the next one: nothing is lost, duplicated, delivered by the wrong stage or stuck inside. When the chain has no more results taking again gives nothing, and further batches of rows can be processed likewise.",
 ["programs", "histories"], "all operator chains up to a bounded length, all bounded row sequences and put/take interleavings",
 "Tests chain only two operators (filter/project, project/aggregate); aggregation followed by anything, three or more stages and several batches are untested.",
 [R+"op/tandem_op.cc", R+"rel_runner.cc", R+"op/grouped_agg_op.cc", R+"op/ungrouped_agg_op.cc"],
 [("TandemOp::Put/Get", R+"op/tandem_op.cc"), ("AppendOp", R+"rel_runner.cc")],
 ["RelRunner::Put", "RelRunner::Get"])

prop("R06", "Every row is owned by exactly one party and nothing leaks",
 "Every row put into a relational runner is either handed back as an output, which then belongs to the caller, or released by the runner exactly once; rows are never used or released after being handed out. After any history, including evaluation errors, failed or repeated decoding and destruction while results are pending, releasing the outputs and destroying the runner frees all memory it acquired, and while running it retains memory only for its pending groups, not per row.",
 ["histories", "fault_sequences"], "all bounded histories of decode/put/get/destroy with rows that pass, are dropped, are cached or raise errors",
 "The tests run without leak or use-after-free detection, always drain fully, and never raise an error inside a runner.",
 [R+"rel_runner.cc", R+"op/filter_op.cc", R+"op/project_op.cc", R+"op/agg_op.cc", R+"op/grouped_agg_op.cc", R+"op/ungrouped_agg_op.cc", R+"op/tandem_op.cc", S+"operator_vector.h"],
 [("delete tuple / return tuple", R+"op/*.cc Put"), ("destructors", R+"op/*.cc"), ("Release", R+"rel_runner.h")],
 ["allocation balance", "address sanitizer"])

prop("R07", "A row that raises an error is dropped and affects nothing else",
 "When evaluating an expression on a row raises an error (for instance a checked cast out of range) the error reaches the caller of that put, and the runner stays usable: all other rows, before and after, produce exactly the outputs and aggregates they would produce had the failing row never been put in. An error while results are being taken likewise loses at most the result that raised it.",
 ["histories", "fault_sequences"], "all bounded row sequences with failing rows at any positions, for chains whose failing operator is at any stage",
 "No test makes evaluation fail inside a relational runner.",
 [R+"op/filter_op.cc", R+"op/project_op.cc", R+"op/tandem_op.cc", R+"op/agg_op.cc", S+"runner.cc"],
 [("run clears the stack", S+"runner.cc Run"), ("evaluate before caching", R+"op/*.cc")],
 ["RelRunner::Put", "RelRunner::Get"])

prop("R08", "Any byte string is a documented operator chain or is rejected safely",
 "For every byte string given as a relational expression, decoding accepts it exactly when it is a sequence of documented operators (filter, projection, grouped and ungrouped aggregation with their end markers, which may be omitted after an aggregation or at the very end), building the operators, group columns and aggregates exactly as encoded, and otherwise raises an error. It never reads outside the given bytes, never allocates memory out of proportion to them, and a runner can be decoded again after success or failure with no trace of the earlier program.",
 ["inputs", "programs", "histories"], "all byte strings up to a bounded length and every truncation and single-byte corruption of valid chains; all decode histories",
 "Only nine valid encodings are decoded; errors, end markers after aggregations and re-decoding are untested.",
 [R+"rel_runner.cc", R+"rel_runner.h", S+"codec.h", S+"operator_vector.cc"],
 [("operator dispatch", R+"rel_runner.cc Decode"), ("DecodeArray/DecodeVector", S+"codec.h"), ("aggregation dispatch", R+"rel_runner.cc DecodeValue")],
 ["RelRunner::Decode return value / exception", "RelRunner::Put/Get"])

prop("C01", "Evaluators used by different threads never interfere",
 "Distinct expression evaluators and relational runners can be decoded, run and destroyed concurrently on different threads, even when they evaluate the same operators, are bound to the same read-only tuple or share string values: under every interleaving each produces the result it produces alone. They share no unsynchronised mutable state.",
 ["schedules"], "all interleavings (at every synchronisation on a shared object, up to a preemption bound; every memory access checked for races) of two or three threads running any operator, program, runner or helper",
 "All tests are single-threaded.",
 [S+"operators.cc", S+"operator.h", S+"runner.h", S+"calc/casting.cc", S+"calc/string_fun.cc", S+"codec.cc", S+"expr_string.h", R+"op/filter_op.cc"],
 [("immutable shared operators", S+"operators.cc"), ("per-runner stack", S+"runner.h"), ("atomic string reference counts", S+"expr_string.h")],
 ["Runner", "RelRunner"],
 [("OP_* tables", "operators shared by all evaluators", S+"operators.cc")])

prop("U01", "Values compare, hash, print and convert consistently",
 "A value holder returns exactly the value it was given; two holders are equal exactly when both are NULL or they hold equal values of the same type, and inequality is its negation. Equal values and equal tuples have equal hashes, converting a value or NULL of any supported type to the caller-side optional representation and back gives an equal value, integers print as their decimal text, strings as their content and NULL as (null), and a copy is unaffected when the original is assigned or destroyed.",
 ["inputs"], "all values and pairs of values of every supported type, all short tuples",
 "Tests compare two equal strings only; NULL, cross-type equality, tuple hashing and the optional adaptor are untested.",
 [S+"operand.h", S+"operand.cc", S+"expr_string.h", S+"expr_string.cc"],
 [("variant equality", S+"operand.h"), ("std::hash specialisations", S+"operand.h"), ("any_optional_data_adaptor", S+"operand.h")],
 ["Operand", "std::hash", "ToOperand/FromOperand"])

prop("U02", "Byte/hex and tuple helpers are exact inverses and order-preserving",
 "Converting any bytes to hexadecimal text and back restores them, the text is two upper-case digits per byte, parsing accepts both cases, and every non-hexadecimal character is reported as invalid. Concatenating tuples keeps all elements in order, and mapping a tuple by an index list yields exactly the selected elements in the order of the list, leaving the source unchanged.",
 ["inputs"], "all byte strings, all hexadecimal texts, all tuples and in-range index lists",
 "Tests use the hex parser only to load programs written mostly in upper case; the inverse and the tuple helpers have no direct test.",
 [S+"utils.cc", S+"utils.h"],
 [("HexToBytes/BytesToHex/HexOfBytes", S+"utils.cc"), ("ConcatTuple/MapTuple", S+"utils.cc")],
 ["utility functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
