"""Per property: harness units, level, bounds. See DESIGN.md."""
import os
SPEC = {}


def unit(src, part=None, **kw):
    d = dict(src=src)
    if part is not None:
        d["defs"] = ["PART=%d" % part]
    d.update(kw)
    return d


def big(part, shards=4, **kw):
    """Size ladder of a property (h/big.cpp)."""
    return dict(src="big", defs=["PART=%d" % part], profile="asan1", cost=6, shards=shards, tshards=16, **kw)


def sized(src, part, shards=4):
    """The statements of a harness on variables of many sizes."""
    return dict(src=src, defs=["PART=%d" % part, "BIG"], profile="asan1", cost=6, shards=shards, tshards=16)


def loops(src, part, shards=2, **kw):
    """Pairs / triples of statements repeated many times."""
    return dict(dict(src=src, defs=["PART=%d" % part, "LOOPS"], cost=4, shards=shards, tshards=8), **kw)


def types(part):
    """Scalars of every C++ arithmetic type against doubles of the same value (h/ty.cpp)."""
    return dict(src="ty", defs=["PART=%d" % part], cost=3)


SPEC["C01"] = dict(
    level="exploration",
    units=[unit("c01", p, cost=5) for p in range(5)]
    + [unit("c01", 5, cost=6, shards=2), unit("c01", 6, shards=6, cost=2, profile="ubsan"), big(1), types(1), dict(src="deep")],
    rule="every case is a tuple (operator or tree shape, operand kinds, operand lengths, element pattern) of the "
         "bounded space; distinct_nontrivial counts the distinct expected results (length, shape, elements)",
    bounds="5 operators x 16 x 16 operand kinds x lengths 1..6 each; 8 tree shapes x 25 operator pairs x lengths "
           "1..4 of three leaves; 23 x 23 special values; 20 x 20 lengths up to 1025; 18 forms of every operator with scalars of 10 arithmetic types x 25 values; chains of 1..30 operations in 4 directions on 4 sets of operands",
    assumptions=["elements outside the value alphabet behave like the enumerated ones",
                 "results are compared to 1e-12 relative accuracy"],
)

SEQ_RULE = ("every case is one statement sequence (or one statement with one choice of subscript and right-hand side "
            "values) run in lock-step on the library and on the reference interpreter; after every statement all "
            "variables, the borrowed memory and its guard zones are compared; distinct_nontrivial counts distinct "
            "reached valuations of all variables")
SEQ_ASM = ["values outside the enumerated alphabets behave like the enumerated ones",
           "the reference interpreter h/md.hpp states the intended semantics"]

SPEC["C04"] = dict(
    level="exploration", units=[unit("c04", p, cost=4, shards=3, tshards=8) for p in range(3)] + [big(4, 8)], rule=SEQ_RULE,
    bounds="statement templates in which the target occurs on the right-hand side (every operand position, through "
           "selections with all subscript vectors up to length 3, through overlapping borrowed memory), sizes 1..3",
    assumptions=SEQ_ASM)
SPEC["C05"] = dict(
    level="exploration", units=[unit("c05", 0, cost=5, shards=6), unit("c05", 1, cost=3, shards=8), loops("c05", 0), loops("c05", 1, 1), big(5, 8)], rule=SEQ_RULE,
    bounds="all sequences of length 3 over 43 statements and of length 6 over 8 statements (thorough: 4 and 7), from "
           "two initial worlds; variables up to 16 elements", assumptions=SEQ_ASM)
SPEC["C07"] = dict(
    level="exploration", units=[unit("c07", 0, cost=4, shards=4), unit("c07", 1, cost=3), sized("c07", 0, 8), sized("c07", 1), types(7)], rule=SEQ_RULE,
    bounds="vectors of length 1..3 (thorough 5), all integer subscript vectors over {0..n+1} up to length 3, all "
           "logical ones up to n, real ones over 6 boundary values, scalars incl. extremes; 5 variable (also as v(i)) and 11 "
           "expression sources, 9 consumers; the same statements on variables of the size ladder; subscripts of 10 arithmetic types x 25 values", assumptions=SEQ_ASM)
SPEC["C08"] = dict(
    level="exploration", units=[unit("c07", 2, cost=6, shards=5), unit("c07", 3, cost=7, shards=5), sized("c07", 2), sized("c07", 3, 6)], rule=SEQ_RULE,
    bounds="matrices 1x1, 2x2, 3x2, 1x3 (thorough: ten shapes up to 4x2, 3x4), all pairs of 9 subscript kinds with "
           "all logical vectors and boundary values each; 2 variable (also as m(r, c), and as a copy of a named selection) and 7 other sources", assumptions=SEQ_ASM)
SPEC["C09"] = dict(
    level="exploration", units=[unit("c09", p, cost=5, shards=4) for p in range(3)] + [sized("c09", 0, 8), sized("c09", 1), sized("c09", 2), types(9)], rule=SEQ_RULE,
    bounds="as C07/C08 for the subscripts, scalar and vector right-hand sides of length k-1, k, k+1, targets as subset(), as a copy of a named selection and in call syntax; subscripts and values of 10 arithmetic types", assumptions=SEQ_ASM)
VAL_RULE = ("every case is a tuple (operation, operand kinds, lengths or shapes, element values) of the bounded space, "
            "consumed in every way an expression can be; distinct_nontrivial counts distinct expected results")
VAL_ASM = ["values outside the enumerated alphabets behave like the enumerated ones",
           "results are compared to 1e-12 relative accuracy"]
SPEC["C02"] = dict(
    level="exploration", units=[unit("c02", p, cost=5) for p in range(5)] + [unit("c02", 5, cost=3), unit("c02", 6, cost=3), big(2, 2)],
    rule=VAL_RULE,
    bounds="5 operators x all pairs of storage types and operand kinds x value pairs of 2/10/11 values; every "
           "conversion on assignment, selection write, at() write and coca() of 1..3 arguments", assumptions=VAL_ASM)
SPEC["C03"] = dict(
    level="exploration", units=[unit("c03", p, cost=6, shards=3) for p in range(4)] + [big(3, 8)], rule=VAL_RULE,
    bounds="11 binary operators x operand kinds x shapes (vectors 1..6, matrices up to 3x3 and larger than 16 "
           "elements), unary operations, two-level expressions, assignments to every kind of target, variables of each element type constructed from values of each element type and shape", assumptions=VAL_ASM)
SPEC["C10"] = dict(
    level="exploration", units=[unit("c10", 0, cost=3), unit("c10", 1, cost=4, shards=8), sized("c10", 0), sized("c10", 1, 8)], rule=SEQ_RULE,
    bounds="at() with one and two subscripts: int and real scalars over 0..n+1, boundary and extreme values; vectors "
           "up to 5, matrices up to 3x4, all variable kinds, reads and writes", assumptions=SEQ_ASM)
SPEC["C11"] = dict(
    level="exploration", units=[unit("c11", 0, cost=3, shards=3), unit("c11", 1, cost=6, shards=8)], rule=SEQ_RULE,
    bounds="20 access forms x lengths 0..18 x 24 indices incl. 2^31, 2^61, SIZE_MAX, before and after shrinking; 15 forms of at() with "
           "positions of 11 arithmetic types incl. +-2^k+d; the size ladder; every "
           "size-taking constructor; 200 statements on empty or too short variables in all sequences of 2",
    assumptions=SEQ_ASM)
SPEC["C13"] = dict(
    level="exploration", units=[unit("c13", p, cost=5, shards=2) for p in range(3)] + [big(13), types(13)], rule=SEQ_RULE,
    bounds="vector_*, rep, matrix with every kind of size argument over -1..40 and boundary values; colon over all "
           "pairs of 30 endpoints; coca of 1..3 arguments of every kind; size ladder; arguments of 10 arithmetic types", assumptions=SEQ_ASM)
SPEC["C14"] = dict(
    level="exploration", units=[unit("c14", p, cost=6, shards=3) for p in range(6)] + [big(14), types(14)], rule=VAL_RULE,
    bounds="6 comparisons x all pairs of operand kinds x value pairs (30 reals incl. NA and infinities, boundary of "
           "the equality tolerance), lengths 1..4; conditions; scalars of 10 arithmetic types x 25 values", assumptions=VAL_ASM)
SPEC["C15"] = dict(
    level="exploration", units=[unit("c15", None, cost=4), big(15, 1)], rule=VAL_RULE,
    bounds="all vectors up to length 4 over 8 values incl. NA, infinities, subnormals; all operand forms; all shapes "
           "up to 4x4", assumptions=VAL_ASM)
SPEC["C16"] = dict(
    level="exploration", units=[unit("c16", p, cost=4) for p in range(13)] + [big(16, 3)], rule=VAL_RULE,
    bounds="12 functions x operand kinds x 73 arguments incl. domain borders, poles, huge values, NA; all 144 "
           "compositions", assumptions=VAL_ASM)
SPEC["C06"] = dict(
    level="model_checking", units=[unit("c06", 0, cost=4, shards=8), unit("c06", 1, cost=3, shards=6), unit("c06", 2, cost=3), loops("c06", 0), loops("c06", 1)],
    rule=SEQ_RULE,
    bounds="all sequences of length 3 over 51 statements that copy, move, pass, return, swap and store variables, and of "
           "length 4 over 14 (thorough: 4 and 5), from three initial worlds; 23 kinds of construction", assumptions=SEQ_ASM)
SPEC["C12"] = dict(
    level="model_checking", units=[unit("c12", 0, cost=4, shards=8), unit("c12", 1, cost=3, shards=6), unit("c12", 2, cost=3), unit("c12", 3, cost=3, tshards=8), loops("c12", 0, 4), loops("c12", 3, 2), loops("c12", 1, 3), big(12, 8)],
    rule=SEQ_RULE,
    bounds="caller memory of 1..4 elements with guard zones, a second variable overlapping it, a borrowed matrix; all "
           "sequences of length 2 (3 for n=3; thorough: 3 for all) over 73 statements and of length 4 (thorough 5) over 14; all sequences of length 3 over 38 operations of two Borrow containers; direct writes "
           "of the caller in between; values of every type of 1..n+3 elements for n up to 20", assumptions=SEQ_ASM)
SPEC["C22"] = dict(
    level="model_checking", units=[unit("c22", p, cost=3, shards=3, tshards=8) for p in range(4)] + [unit("c22", p, cost=3, shards=8) for p in (10, 12)] + [loops("c22", p, 4) for p in range(4)] + [unit("c22", p, cost=4, shards=4, tshards=8) for p in (20, 21, 22, 23)],
    rule=SEQ_RULE,
    bounds="two buffers of each element type from four initial states, all operation sequences of length 3 over 48 operations "
           "and of length 5 over 10 (thorough: 4 resp. 6), lengths up to 100; every pair of operations repeated 60 times; size ladder from six ways of creation", assumptions=SEQ_ASM)
DUAL_RULE = ("every case is one program of the bounded space together with one initial state, one independent variable and one "
             "choice of points at which derivatives are read; distinct_nontrivial counts distinct reached values and derivatives")
DUAL_BOUNDS = ("three owned variables and one borrowing 4 elements from four initial states (vectors of lengths 1..4, 2x2 matrices), 4 choices "
               "of the independent variable; all sequences of length 2 over 49 statements (thorough 3) and of length %s over 10; "
               "all 1350 two-level expressions over 5 operators and variables/constants in every position")
DUAL_ASM = ["statements are built from + - * / sinus, comparisons, constants and copies, as the tracked types support",
            "sequences are cut where values exceed 1e6 or are not finite"]
SPEC["C17"] = dict(
    level="model_checking",
    units=[unit("c17", 0, cost=4, shards=4, tshards=32), unit("c17", 1, cost=4, shards=10, tshards=32)] + [unit("c17", p, cost=5) for p in range(2, 7)] + [loops("c17", 0, 5), loops("c17", 1)]
    + [dict(src="c17", defs=["PART=%d" % p, "BIG"], profile="asan1", cost=6, shards=4, tshards=16) for p in (0, 1)]
    + [dict(src="c18", defs=["PART=1"], cost=6, shards=4, tshards=16)],
    rule=DUAL_RULE, bounds=DUAL_BOUNDS % "4 (thorough 5)", assumptions=DUAL_ASM)
SPEC["C18"] = dict(
    level="model_checking",
    units=[dict(src="c17", defs=["PART=0", "VALUES"], cost=5, shards=6, tshards=32), dict(src="c17", defs=["PART=1", "VALUES"], cost=4, shards=8, tshards=32)]
    + [dict(src="c17", defs=["PART=%d" % p, "VALUES"], cost=6) for p in range(2, 7)]
    + [dict(src="c17", defs=["PART=%d" % p, "VALUES", "LOOPS"], cost=5, shards=4, tshards=16) for p in (0, 1)]
    + [dict(src="c17", defs=["PART=%d" % p, "VALUES", "BIG"], profile="asan1", cost=6, shards=4, tshards=16) for p in (0, 1)]
    + [dict(src="c18", defs=["PART=0"], cost=5, shards=2, tshards=8),
       dict(src="c18", defs=["PART=1", "VALUES"], cost=6, shards=4, tshards=16)],
    rule=DUAL_RULE, bounds=DUAL_BOUNDS % "3 (thorough 4)", assumptions=DUAL_ASM)
SPEC["C19"] = dict(
    level="exploration", units=[unit("c19", 0, cost=4, shards=6, tshards=12), types(19)], rule=VAL_RULE,
    bounds="all ascending time vectors of length 1..4 (thorough 5) over 7 grid points x all value vectors over 4 values; positions: "
           "every data point, its neighbouring doubles, three inner points per interval, outside, infinities, NA; lengths 0..6 in "
           "every combination; data as variables, temporaries, selections and expressions; long data (size ladder); all histories of 4 calls on two data sets", assumptions=["values outside the grids behave like the enumerated ones"])
SPEC["C20"] = dict(
    level="exploration", units=[unit("c19", 1, cost=4, shards=6, tshards=16), types(20)], rule=VAL_RULE,
    bounds="all ascending time vectors of length 4..5 (thorough 6) over 7 grid points x all value vectors over 3 values; positions as "
           "in C19; lengths 0..6 in every combination; long data; all histories of 4 calls", assumptions=["values outside the grids behave like the enumerated ones"])
SPEC["C21"] = dict(
    level="exploration", units=[unit("c21", 0, cost=5, shards=3), unit("c21", 1, cost=2), unit("c21", 2, cost=3, shards=6)], rule=VAL_RULE,
    bounds="all vectors of length 0..3 over 9 values, shapes up to 4x4, element types and 20 kinds of values under 5 stream settings; all "
           "sequences of length 3 (thorough 4) over 21 prints and stream settings; iteration over all selections of up to 3 positions, all "
           "logical and all row/column selections; size ladder", assumptions=["output is captured from std::cout's buffer; white space within a line is not compared"])
SPEC["C26"] = dict(
    level="exploration", units=[unit("c26", 0, cost=4), unit("c26", 1, cost=4)], rule=VAL_RULE,
    bounds="240 lengths/times in 1..41 (integral and with 5 fractions) x every length-taking function x constants, variables, temporaries, "
           "integers; all pairs of 24 dimensions for matrix; all pairs of row and column positions of a 3x2 matrix x every kind of partner "
           "subscript; vectors of 1..4 elements where one number is expected; 16 operand kinds and 90 statements that have to stay silent; size ladder",
    assumptions=["std::cerr and std::cout are captured through their buffers"])
def rmode(part, **kw):
    """A unit compiled in R mode against the stand-in of R in h/rstub."""
    return unit("c27", part, flags=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "h", "rstub")], **kw)


RSTUB = ("R, Rcpp and Armadillo behave as the stand-in in h/rstub (written from their documentation; R is not installed here), which "
         "collects unprotected objects at every allocation")
SPEC["C27"] = dict(
    level="model_checking", units=[rmode(0, cost=3), rmode(1, cost=4, shards=8, tshards=32), rmode(2, cost=3)],
    rule="every case is one R object or value (type, elements, dimensions) with one former content of the variable and all ways of converting it, or "
         "one sequence of statements on variables that refer to R objects, executed on the real code in R mode and on the reference model; the "
         "contents of every R object are compared after every statement. distinct_nontrivial counts distinct values and model states",
    bounds="numeric, integer and logical R objects: all vectors of length 1..3 over 7 / 5 / 2 values, lengths 4..7, 20..5000 and shapes up to 4x4, "
           "40x30 with rotated values, for variables with 4 former contents; every pair of different types; Rcpp and Armadillo vectors and matrices; "
           "4 R objects, 3 variables referring to them: all sequences of 2 (two elements: 3; thorough: 3 everywhere) over 92 statements, of 2 (thorough) or 1 for 13 sizes of 7..1000 elements; every "
           "allocation of every statement, alone and after every other one, failing", assumptions=[RSTUB])
SPEC["C28"] = dict(
    level="exploration", units=[rmode(3, cost=3)],
    rule="every case is a tuple (function, lengths of the arguments, kind of values); the functions of R record their arguments and return a number "
         "that depends on all of them and, for random numbers, on the order of the calls. distinct_nontrivial counts distinct results",
    bounds="density, distribution, quantile and random functions of 4 distributions x lengths 0..3 (thorough 4) and 7 of the first three arguments x "
           "lengths 1..3 of lower and log x 2 kinds of values; 1, 2, 3, 5, 40 draws", assumptions=[RSTUB])
SPEC["C29"] = dict(
    level="exploration", units=[unit("c29", 0, cost=4), unit("c29", 1, cost=4)],
    rule="every case is a value or expression type and an ordered pair of the four functions, called one after the other; the text is compared "
         "to the name the compiler gives to the type (typeid), broken and indented by the harness; the value is compared before and after. "
         "distinct_nontrivial counts distinct (type, pair) cases",
    bounds="13 kinds of values of 1..3 elements, one operation on every pair of kinds, 162 trees of two operations, chains of up to 24 operations; all 16 ordered pairs of functions",
    assumptions=["typeid and the demangler of the compiler name types correctly"])
SPEC["C30"] = dict(
    level="exploration", units=[unit("c30", p, cost=4, shards=2, tshards=8) for p in range(5)],
    rule="every case is one program and one input; its result is compared to the same algorithm on plain C++ values (or its defining property: "
         "sorted order, product, primes), and every memory block has to be released. distinct_nontrivial counts distinct results",
    bounds="sorting, ranking and searching: all vectors of length 1..6 (thorough 8) over 3-4 values as double, int and borrowing variable; matrix "
           "product, transpose, determinant, prefix sums: all matrices up to 3x3 over 2-5 values; game of life on all 3x3 boards and every 16th 4x4 board "
           "(thorough: all); number sequences for n up to 120 (thorough 300), gcd of all pairs to 40; all queue histories of length 6 (thorough 8) over 6 "
           "operations; Euler, Runge-Kutta, polynomials, missing data, interpolation over all small inputs; derivative programs (square roots, polynomials, sensitivities, Newton steps, line fits, growth to a bound) against dual numbers",
    assumptions=["programs outside the list combine the same statements"])
SPEC["C23"] = dict(
    level="model_checking",
    units=[dict(src="c23", defs=["PART=%d" % p], profile="none", cost=5, shards=8, tshards=32) for p in (0, 1)]
    + [dict(src="c23", defs=["PART=%d" % p, "NFILL=1"], profile="asan1", cost=5, shards=8, tshards=32) for p in (0, 1)]
    + [dict(src="c23", defs=["PART=0", "LOOPS"], profile="none", cost=5, shards=8, tshards=32),
       dict(src="c23", defs=["PART=0", "NFILL=1", "LOOPS"], profile="asan1", cost=5, shards=8, tshards=32)],
    rule="one case is one initial state and one sequence of statements, executed from the start on real objects: under three fill patterns of "
         "heap, stack and objects (results, success and messages have to agree) and once under the address sanitizer; every block is accounted "
         "for when the variables are gone. distinct_nontrivial counts distinct final states",
    bounds="every sequence of length 2 (thorough 3) over 182 statements of all features (assignments, constructors, arithmetic, selections, direct "
           "access, moves, interpolation, printing, derivatives, rejected statements) and of length 4 (thorough 6) over 12, from three initial states; pairs of statements repeated many times",
    assumptions=["stack contents are controlled by overwriting 24 KB below the caller's frame before every statement"])
SPEC["C24"] = dict(
    level="fault_enumeration",
    units=[unit("c24", 0, cost=4), unit("c24", 1, cost=4, shards=4)],
    rule="one case is one state and one statement; every allocation the statement makes fails in one execution of its own, followed by the "
         "comparison with the old and the new state, the repetition of the statement and the accounting of every block. distinct_nontrivial counts "
         "distinct final states",
    bounds="158 statements of every feature from three initial states and after each of 182 other statements; one failing allocation per execution, "
           "at every position", assumptions=["statements that write to a standard stream are excluded: the stream swallows the failure of its own buffer"])
WRAPS = ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release",
                                                      "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock")]
SPEC["C25"] = dict(
    level="model_checking",
    technique="stateless model checking with partial-order reduction: instrumented execution under a controlled scheduler",
    units=[dict(src="c25", defs=["PART=%d" % p], profile="none", flags=["-O0", "-fsanitize=thread"], rt="rt25", ldflags=WRAPS,
                cost=4, shards=s, tshards=t) for p, s, t in ((0, 1, 1), (1, 4, 16), (2, 2, 32))],
    rule="one case is one set of threads with one program each and an initial state; every memory access of every thread is recorded. Without "
         "conflicting accesses all interleavings belong to one class, which is executed; conflicting atomic or lock-protected accesses are explored "
         "under every schedule within the preemption bound; unprotected conflicts are reported. distinct_nontrivial counts distinct results of threads",
    bounds="two threads with every pair of 182 statements of all features (each with variables of its own, common variables only read), every "
           "statement against itself from three states in a fresh process, three threads and programs of two statements over 12 statements; at most 2 "
           "(thorough 3) preemptions and 200-1000 (thorough 20000) schedules where threads do share synchronised state",
    assumptions=["sequentially consistent memory", "code of libstdc++ that is not instantiated from headers is free of hidden state"])
