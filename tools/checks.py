"""What each property's check runs and claims."""
Q = ("quick", "thorough")
CHECKS = {}

COMMON = [
    "the reference model harness/ref.h (written from README.md, includes nothing of the repository) says what is right",
    "the library is compiled by gcc with -O2 -DNDEBUG (as its release build), little-endian x86-64, C locale",
    "bounded: holds for what the phases enumerate, not beyond",
]
ASAN = ["AddressSanitizer detects out-of-bounds and use-after-release accesses; the program bytes lie in a heap block of exactly their size"]
RULE = ("stateless exhaustive exploration of the real code: a body takes every decision through choose(n) and is executed for every sequence "
        "of choices. An execution (traces_validated_against_impl) is one choice sequence run on the implementation and compared step by step with "
        "the reference; a transition is one operation of the library compared (an operator applied, a row put, a result taken, a byte string "
        "decoded); states are distinct ")


def check(pid, source, kind, states, assumptions, technique, level_note):
    CHECKS[pid] = {"harness": [(source, kind, Q)], "rule": RULE + states + ".",
                   "assumptions": COMMON + (ASAN if kind == "asan" else []) + assumptions,
                   "technique": technique, "level_note": level_note}


INPUT = "stateless exhaustive enumeration of programs and inputs on the real code, against a reference model"
HIST = "stateless exhaustive enumeration of operation histories on the real code, against a reference model"

check("E01", "e01.cc", "asan", "reference operand stacks", [],
      INPUT, "Every expression tree up to the stated depth and number of leaves over the stated operators is executed; deeper ones only in regular shapes.")
check("E02", "e02.cc", "plain", "operand tuples per operator",
      ["the wrapped result is demanded of signed overflow as compiled here"],
      INPUT, "All pairs over the boundary sets; 32-bit unary operators over all values in the thorough tier; 64-bit only over boundary sets.")
check("E03", "e03.cc", "plain", "operand tuples per operator",
      ["the C library's mathematical functions are the standard (a tolerance of some units in the last place is allowed)"],
      INPUT, "All 32-bit unary values (thorough); structured grids of bit patterns otherwise.")
check("E04", "e04.cc", "asan", "operand tuples per operator", [],
      INPUT, "Every operator with every set of NULL operands from every source of NULL.")
check("E05", "e05.cc", "asan", "(tree, assignment) pairs", [],
      INPUT, "All trees up to the stated size with all assignments.")
check("E06", "e06.cc", "plain", "operand tuples per operator", [],
      INPUT, "All pairs and triples over the stated domains.")
check("E07", "e07.cc", "plain", "operand values per cast", ["casts between real types and of NaN or out-of-range values without check are unspecified"],
      INPUT, "32-bit sources swept (completely in the thorough tier for most casts); 64-bit sources over grids and neighbourhoods of every limit.")
check("E08", "e08.cc", "asan", "operand values per cast", [],
      INPUT, "All short strings over the number alphabet; structured longer ones.")
check("E09", "e09.cc", "asan", "operand tuples per function", ["LOWER and UPPER of bytes above 0x7f: unchanged in the C locale"],
      INPUT, "All positions and lengths around the string's borders and the extremes, for strings of every short length.")
check("E10", "e10.cc", "asan", "decoded programs", ["varints longer than the type's maximum of 5 or 10 bytes are unspecified"],
      INPUT, "All 1 to 3 byte varints and group patterns; all item sequences up to the stated length.")
check("E11", "e11.cc", "asan", "(operand stack, byte string) classes",
      ["constructs the documentation does not settle (decimal variables, casts from a type to itself) must only be memory safe"],
      "stateless exhaustive enumeration of byte strings on the real decoder, against a reference decoder",
      "All byte strings up to length 3; all single (and for short programs double) corruptions of a corpus which contains every operator.")
check("E12", "e12.cc", "asan", "(program, bound tuple, content) situations of the reference", [],
      HIST, "All histories up to the stated length over the stated calls.")
check("E13", "e13.cc", "asan", "(operator, operand tuple) pairs", [],
      INPUT, "Every operator and leaf on its boundary domain.")
REL = ["rows match the operators' column types (except where the harness says otherwise)"]
check("R01", "r01.cc", "asan", "row sequences", REL, HIST, "All row sequences up to the stated length for the stated predicates.")
check("R02", "r02.cc", "asan", "(list, row) situations", REL, HIST, "All expression lists up to the stated length.")
check("R03", "r03.cc", "asan", "reference accumulator states", REL + ["NaN as MIN/MAX input is unspecified"], HIST,
      "All value sequences up to the stated length for every aggregate; all short lists of aggregates.")
check("R04", "r04.cc", "asan", "reference group tables", REL + ["NaN as group key is unspecified; the order of groups is free"], HIST,
      "All row sequences up to the stated length over adversarial row sets; every pair of rows over wide key domains.")
check("R05", "r05.cc", "asan", "reference chain states", REL, HIST, "All chains of up to 4 (thorough: 5) operators from a set of 14.")
check("R06", "r06.cc", "asan", "(history) situations",
      ["the harness counts every allocation through operator new and malloc", "allocation failure is not injected"],
      "exhaustive enumeration of operation histories and decode faults on the real code, with allocation accounting",
      "All histories up to the stated length; what is allocated but not released or pending is a violation.")
check("R07", "r07.cc", "asan", "reference chain states", REL,
      "exhaustive enumeration of row histories with raising rows on the real code, against a reference model and a second runner",
      "All row sequences up to the stated length with raising rows at any positions and stages.")
check("R08", "r08.cc", "asan", "(byte string) situations",
      ["an empty filter and constructs the documentation does not settle must only be memory safe"],
      "stateless exhaustive enumeration of byte strings and decode histories on the real decoder, against a reference decoder",
      "All structural strings up to the stated length, all single corruptions of 15 chains, all pairs of decodes.")
check("U01", "u01.cc", "asan", "value tuples or holder contents", [],
      INPUT, "All pairs over the boundary domains, all holder histories up to the stated length.")
check("U02", "u02.cc", "asan", "inputs", [], INPUT, "All byte strings up to 2 (thorough: 3) bytes and all 4-digit texts; all small tuples and index lists.")
CHECKS["C01"] = {
    "harness": [("c01.cc", "sched", Q)],
    "rule": "stateless exploration of thread schedules of the real code under a controlled scheduler: every execution (traces_validated_against_impl) is one "
            "schedule in a process of its own, started without having run any library code; the next schedule is the next sequence of decisions within the "
            "preemption bound. Decisions are taken at every synchronisation operation on an object which several threads use (found on the fly). A transition is "
            "one memory access checked for races and use after release; a state is a scenario with the progress of each thread at a decision.",
    "assumptions": [
        "the reference model harness/ref.h says what each thread must compute",
        "sequentially consistent atomics (weaker orders only weaken the happens-before relation, not the values read)",
        "for programs without data races, interleavings at synchronisation operations stand for all interleavings; a data race is a violation in itself",
        "functions of the C and C++ runtime libraries are atomic to the scheduler; the accesses of the common ones, and the hidden state of the ones that have it, are modelled",
        "bounded: number of threads, scenarios and preemptions as the phases say",
    ],
    "technique": "stateless model checking of thread schedules (controlled scheduler, preemption bound) with a happens-before race check on every access",
    "level_note": "All schedules up to the preemption bound of 2 and 3 threads over every operator, program kind and relational operator; weak memory is not modelled.",
}
