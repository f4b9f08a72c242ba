import json
H='include/etr_bits/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[H+f if not f.startswith('include') and not f.startswith('/') else f for f in files],"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Element-wise arithmetic with recycling, nested to any depth",
 "For any two operands (variables, borrowed memory, selections, temporaries, scalars or nested expressions) the result of + - * / ^ and unary minus has the length of the longer operand, and its i-th element is the scalar operation applied to the i-th elements of the operands, each operand being recycled by its own length. Nesting expressions gives the same result as storing every intermediate result in a variable first. Evaluating an expression never modifies an operand, and evaluating it again gives the same result.",
 ["inputs","programs"],"all operand kinds x operators x operand lengths (incl. unequal, not dividing each other) x values, all expression trees up to a depth",
 "BinaryOperations_Tests checks a handful of kind/operator pairs with equal lengths; unequal lengths, the order of the operands, selections and nested recycling are combinatorial (>700 operand-kind pairs per operator).",
 ["BinaryCalculations.hpp","UnaryCalculations.hpp","Core/Traits.hpp","Core/Utils.hpp","Core/SubsetClass.hpp"],
 ["BinaryOperation::operator[] / size() recycle each operand by its own size","Trait::f structs implement the scalar operation","Subset::operator[] maps positions to selected elements"])
p("C02","Values do not depend on logical/integer/double storage of operands",
 "The number an arithmetic expression yields is the mathematical result on the operands' values, whatever mix of logical, integer and double operands is used: division and powers of integers are not truncated and logicals count as 0 and 1 (sums, differences, products and negations of integers as long as they fit into an int). Storing a value into an integer variable truncates towards zero and into a logical variable tests for non-zero. Combining values with coca keeps every value unchanged.",
 ["inputs","programs"],"all pairs of element types x operators x small values incl. negative and fractional ones, and all conversions into each target type",
 "The tests use mixed types in few places and compare doubles only; truncation depends on the pair of operand types and values.",
 ["Core/Traits.hpp","BinaryCalculations.hpp","Vector/AssignmentOperator.hpp","Vector/Constructors.hpp","Coca.hpp"],
 ["DivideTrait::f / PowTrait::f / PlusTrait::f result types","static_cast<T> in Vec::operator= and in the converting constructors","determine_type in coca"])
p("C03","Shape of results follows the operands",
 "An expression is a matrix exactly if one of its operands is a matrix, and then it has that operand's numbers of rows and columns; unary operations and element-wise functions keep the shape. Whenever a variable is a matrix, rows times columns equals its length. Storing a result whose rows times columns (the larger of both operands' numbers where both are matrices) differ from its length is rejected with an exception and leaves the target unchanged.",
 ["inputs","programs"],"all combinations of vector/matrix/scalar/selection operands of all small dimensions, all operators and element-wise functions, construction and assignment",
 "Matrix_Tests checks dims of very few expressions; the shape depends on operand order, nesting and on the history of the target.",
 ["BinaryCalculations.hpp","UnaryCalculations.hpp","Core/MatrixParameter.hpp","Vector/AssignmentOperator.hpp","Vector/Constructors.hpp"],
 ["im()/nr()/nc() of BinaryOperation and UnaryOperation","setMatrix calls in Vec::operator= and constructors"],
 [("mp","matrix flag, rows, columns of a store")])
p("C04","The right-hand side is evaluated completely before the target changes",
 "target = expression behaves as if the expression was evaluated into a fresh value before any element of the target changes, no matter how often and in which position the target, a selection of it or memory borrowed from it occurs in the expression, and whether the target is a variable, a selection or borrowed memory. If the evaluation fails with an exception, the target keeps its value.",
 ["programs","inputs"],"all statement templates in which the target aliases the operands (permuting selections, recycling, growth, shrinking), all small sizes, sequences of them",
 "Tests have one or two self-assignments; overlap of the read and written positions is a combinatorial space of index vectors.",
 ["Vector/AssignmentOperator.hpp","Core/BaseStore.hpp","Core/SubsetClass.hpp","Core/Borrow.hpp"],
 ["Vec::temp receives the evaluated right-hand side","BaseStore::moveit swaps temp in"],
 [("temp","evaluation buffer, keeps storage of earlier statements")])
p("C05","After any history a variable holds exactly what was last assigned",
 "After every sequence of assignments (scalars, vectors, matrices, expressions, selections, generators; growing and shrinking), each variable has exactly the length, shape and elements of the value last assigned to it, as a simple interpreter with value semantics predicts. Nothing of earlier values, shapes, capacities or evaluation buffers is observable, and no other variable changes.",
 ["histories","programs"],"all statement sequences up to a depth over several variables of different storage and element types",
 "Unit tests run short straight-line histories from the initial state; stale capacity/shape/temp effects need particular sequences (grow, shrink, reassign, ...).",
 ["Vector/AssignmentOperator.hpp","Vector/Constructors.hpp","Core/BaseStore.hpp","Core/Borrow.hpp"],
 ["moveit swaps storage between variable and temp","resize keeps storage when shrinking"],
 [("p/sz/capacity/allocated","storage of a variable"),("mp","shape"),("temp","evaluation buffer")])
p("C06","Copies are independent values",
 "Copying a variable (construction, assignment, passing or returning by value, in containers) yields a value equal in length, shape and elements that shares nothing with the source: later changes to one are never visible in the other. A moved-to variable has exactly the value of the source, and a moved-from variable can be assigned again and destroyed. Copies of a borrowing variable refer to the same caller memory.",
 ["histories"],"all sequences of copy/move/assign/mutate/destroy operations up to a depth over a small set of variables and buffers",
 "Tests copy once and compare; sharing or double ownership shows only after a later mutation or destruction in a particular order.",
 ["Core/BaseStore.hpp","Vector/VectorClass.hpp","Vector/Constructors.hpp","Core/Borrow.hpp"],
 ["BaseStore copy/move constructors and assignment","Vec(RVec&&) takes over storage with moveit"],
 [("allocated","ownership flag")])
p("C07","Vector subsetting selects exactly the addressed elements",
 "Selecting from a vector or matrix with positions (1-based; integers, or doubles whose decimals are dropped) yields exactly the addressed elements in the order given, duplicates included; selecting with logicals yields the elements at TRUE positions in order, the logical vector being recycled if it is shorter; a TRUE scalar selects everything. The subscript may be a variable, a temporary, a comparison or another expression, and the source a variable, borrowed memory, a temporary or an expression. The result behaves as a vector of the selected elements in every further expression.",
 ["inputs","programs"],"all subscript vectors up to a length over all small vectors, all subscript kinds and source kinds",
 "Subsetting_Tests enumerates kinds but checks mostly lengths for one source; which element lands where over all subscript vectors is not covered.",
 ["Subsetting/VectorSubsetting.hpp","Subsetting/ScalarSubsetting.hpp","Core/SubsetClass.hpp","Subsetting/UtilsSubsetting.hpp"],
 ["calcInd* fill the index vector of a Subset","Subset::operator[] maps to the source"])
p("C08","Matrix subsetting selects exactly the addressed rows and columns",
 "Selecting rows and columns from a matrix yields, in column-major order, exactly the elements at the cross product of the selected rows and columns, for every combination of subscript kinds (scalar integer/double, TRUE for all, vectors of integers, doubles or logicals, expressions), and the result is a matrix with the number of selected rows and columns, except that a scalar number as subscript drops its dimension so that the result is a plain vector. Selecting with two subscripts from something that is not a matrix is rejected with an exception.",
 ["inputs","programs"],"all pairs of subscript kinds x all small subscript vectors x all small matrix shapes x source kinds",
 "The tests check only the length of the result for most pairs of subscript kinds and one 4x4 source.",
 ["Subsetting/MatrixSubsetting.hpp","Core/SubsetClass.hpp","Core/MatrixParameter.hpp"],
 ["calcIndMatrix computes linear indices per subscript-kind pair"])
p("C09","Writing to a selection changes exactly the selected elements",
 "Assigning to a selection of a variable changes exactly the selected elements (with repeated positions the last one wins), taking the scalar or the elements of the right-hand side in order; all other elements, the length and the shape of the variable and all other variables stay unchanged. A right-hand side whose length differs from the number of selected elements is rejected with an exception and changes nothing.",
 ["inputs","histories"],"all subscript vectors/kinds x right-hand-side kinds and lengths x variables (owned, borrowed, matrix), and sequences of such writes",
 "Tests write through a few fixed selections and look at the written elements, not at the frame.",
 ["Vector/AssignmentOperator.hpp","Core/SubsetClass.hpp","Subsetting/VectorSubsetting.hpp","Subsetting/MatrixSubsetting.hpp"],
 ["isSubset branches of Vec::operator=","Subset::operator[] returns references into the source"])
p("C10","at() accesses exactly one element",
 "at(v, i) refers to the i-th element (1-based) of a variable and at(m, r, c) to the element in row r and column c of a variable, borrowed matrix, temporary or matrix expression, whether the subscripts are integers or doubles (decimals dropped). Assigning through at on a variable changes that element and nothing else. Any position outside 1..length, 1..rows or 1..columns, and two subscripts on something that is not a matrix, is rejected with an exception.",
 ["inputs"],"all positions in and around every small vector and matrix x subscript type pairs x source kinds",
 "Tests access two positions; per-dimension bounds (row nr+1 of column 1 is a valid linear index) need exhaustive positions.",
 ["Subsetting/at.hpp"],["at overloads compute and check the linear index"])
p("C11","Invalid accesses are rejected, never read or write foreign memory",
 "Every element access outside a variable (subscripts below 1 or beyond the length, rows or columns, empty variables, lengths or sizes that are zero or negative) ends in a C++ exception and has no effect on any variable; it never reads or writes memory outside the variable's elements, terminates the process, or yields an arbitrary value. Logical matrix subscripts longer than the dimension are rejected too.",
 ["inputs","programs"],"all read and write accesses with subscripts from just outside to extreme values x container kinds x access forms",
 "Tests check a few messages; absence of foreign accesses for every boundary subscript cannot be seen by value comparison, only by memory monitors on exhaustive boundary inputs.",
 ["Core/BaseStore.hpp","Core/Borrow.hpp","Core/SubsetClass.hpp","Subsetting/VectorSubsetting.hpp","Subsetting/MatrixSubsetting.hpp","Subsetting/at.hpp","Core/Utils.hpp"],
 ["ass() checks in operator[] of every store","matrixInd / convertSizeSubsetting"])
p("C12","Borrowed memory is used in place and never exceeded",
 "A variable borrowing n elements of caller memory reads and writes exactly these elements in place, also as a matrix; no statement ever reads or writes caller memory outside of them, and the library never frees or replaces the caller's memory. Assigning a value of at most n elements is reflected in the first elements of the caller's memory and in the variable's length; assigning a longer value is rejected with an exception and leaves memory and variable unchanged.",
 ["histories","inputs"],"all statement sequences up to a depth on variables borrowing memory with guard zones, all sizes around n",
 "Borrow_Tests checks one oversize assignment; out-of-zone writes and stale lengths after shrink/grow histories are not observed.",
 ["Core/Borrow.hpp","Vector/AssignmentOperator.hpp","Vector/Constructors.hpp"],
 ["Borrow::p/sz/capacity","isBorrow branches of Vec::operator="],
 [("capacity","number of borrowed elements")])
p("C13","Generators produce the specified vectors and matrices",
 "vector_numeric/integer/logical(n) yield n zeros, matrix(x, r, c) the r x c matrix holding x in column-major order (a scalar x in every element), rep(x, n) x repeated n times in sequence, colon(a, b) the values a, a+-1, ... up to and including the last one not beyond b, and coca the concatenation of all elements of its arguments in order. Sizes may be integers or doubles (decimals dropped) or length-one vectors; sizes below 1 and data not matching the dimensions are rejected with an exception.",
 ["inputs"],"all argument kinds x all small sizes/endpoints/arity, boundary and invalid sizes",
 "The tests sample a few sizes per generator and mostly compare lengths.",
 ["Allocation/Vector.hpp","Allocation/Matrix.hpp","Allocation/Rep.hpp","Allocation/Colon.hpp","Allocation/AllocationUtils.hpp","Coca.hpp"],
 ["createRVec, convertSize","colonInternal loops","rep loops","coca index arithmetic"])
p("C14","Comparisons are element-wise, recycled, logical and usable as condition",
 "The comparisons < <= > >= yield element-wise the ordering of the operands, recycled like arithmetic; == is TRUE and != FALSE where the operands differ by less than 0.001 and the other way round where they differ by more (two equal infinities are not specified), while every comparison with NA, including != , is FALSE. The result has the length and shape arithmetic on the same operands would have. Used as a condition, a comparison takes the value of its first element.",
 ["inputs","programs"],"all operand kinds x comparison operators x value pairs incl. near-equal, NA, Inf x length pairs",
 "Tests compare vectors of one pattern; tolerance boundaries, specials, recycling and operand order are not covered.",
 ["BinaryCalculations.hpp","Core/Traits.hpp","Vector/VectorClass.hpp"],
 ["EqualTrait ... UnEqualTrait::f","Vec::operator RetType"])
p("C15","Predicates and queries describe the value exactly",
 "isNA and isInf yield one logical per element that is TRUE exactly for NA (NaN) respectively positive or negative infinity; length yields the number of elements; dim yields the number of rows and columns of a matrix, matrix expression or matrix selection and is rejected with an exception for non-matrices. None of them changes its argument.",
 ["inputs"],"all values in the special-value alphabet x all positions x argument kinds x shapes",
 "Helper_Tests uses one vector per function.",
 ["Helper.hpp"],["isNA/isInf/length/dim overloads per argument category"])
p("C16","Elementary functions are applied element-wise",
 "sinus, asinus, sinush, cosinus, acosinus, cosinush, tangens, atangens, tangensh, exp, ln and sqroot yield for each element what the C library function of that name yields for the element's value, for scalars, vectors, matrices, selections and expressions with integer, logical or double elements, with domain errors yielding NA. Length and shape of the argument are kept and the argument is unchanged.",
 ["inputs","programs"],"all functions x all argument kinds and element types x a value alphabet incl. domain edges, Inf, NA; compositions of two functions",
 "Unary_Tests evaluates each function on one vector with tolerance 1e-2 or so.",
 ["UnaryCalculations.hpp","Core/Traits.hpp"],["UnaryOperation and the ...Trait::f functions"])
p("C17","Tracked derivatives are the derivatives of the computed values",
 "For every straight-line program over tracked variables using + - * /, sinus, comparisons, constants and copies, get_derivs of each variable yields, element by element, the derivative of the variable's current value with respect to the chosen independent variable (chain, product and quotient rule), where assigning a constant to the independent variable restarts it with derivative 1 and constants otherwise have derivative 0. This holds for owned and borrowed variables, recycling, reassignment and self-reference.",
 ["programs","histories"],"all programs up to a length over a grammar of statements, both storage kinds, each variable as the independent one, small sizes",
 "Derivatives_Tests runs a dozen fixed programs with tolerance 0.01; derivative bookkeeping depends on sequences (reassign, resize, self-reference) and nesting.",
 ["Derivatives/VarPointer.hpp","Derivatives/AllVars.hpp","Derivatives/DerivTypes.hpp","Derivatives/getDerivs.hpp","Vector/DerivativeCalc.hpp","Vector/AssignmentOperator.hpp","Core/Traits.hpp"],
 ["walkTD maps expression types to derivative expression types","fDeriv in ...DerivTrait","isVariableType branch of Vec::operator="],
 [("varBufferDerivs/varBorrowDerivs","derivative vectors"),("DerivInit","lazy seeding flag")])
p("C18","Tracking derivatives does not change computed values",
 "A program run on derivative-tracked variables computes exactly the same lengths, elements and shapes as the same program on ordinary variables, and reading derivatives has no influence on later values or derivatives.",
 ["programs","histories"],"all programs up to a length (as for C17), with derivative reads interleaved at every position",
 "Tests check final values of fixed programs once, never against the ordinary evaluation and never with interleaved reads.",
 ["Derivatives/VarPointer.hpp","Derivatives/AllVars.hpp","Vector/AssignmentOperator.hpp"],
 ["isVariableType branch of Vec::operator=","VarPointer::getVal/setVal/getDeriv"])
p("C19","Linear interpolation follows the data",
 "li(t, x, y) yields for the position t (a vector or expression of one element) the value on the straight line between the two neighbouring data points (x ascending): exactly y at a data point, between the neighbours' values in between, and the first respectively last value outside the data range. Data of different lengths, empty data and a vector t that does not have exactly one element are rejected with an exception; inputs are unchanged.",
 ["inputs"],"all small data sets over a value grid x all t positions on, between and outside the knots x container kinds",
 "CMR_Tests checks cmr at few points only; li is not tested at all.",
 ["Interpolation.hpp"],["li and its helper loops over the data points"])
p("C20","Spline interpolation passes through the data and respects its bounds",
 "cmr(t, x, y) yields exactly y at every data point, the first respectively last value outside the data range, and inside each interval the Catmull-Rom cubic through the interval's ends with tangents from the neighbouring points (wrapping around at the ends), so that shifting or scaling y shifts or scales the result. The result depends only on t and the data, which stay unchanged; data vectors of different lengths or of less than 4 elements are rejected with an exception.",
 ["inputs"],"all small data sets over a value grid x all t on, between and outside the knots x container kinds",
 "CMR_Tests compares one data set.",
 ["Interpolation.hpp"],["cmr and cmrInternal"])
p("C21","Printing and iteration show every element once and in order",
 "print shows exactly the elements of a vector, selection or expression in order, and those of a matrix row by row with one line per row; stream output of a vector shows all its elements in order. print shows logical variables as true/false regardless of what was printed before, and printing changes neither the value nor the formatting state of the stream. A range-based for over a variable or named selection visits every element once in order, and writing through the loop variable changes exactly these elements of the variable.",
 ["inputs","histories"],"all small vectors, shapes, element types and container kinds; sequences of prints",
 "No test looks at printed text; iteration over selections is untested.",
 ["Printing.hpp","Vector/VectorClass.hpp","Core/Utils.hpp"],["print overloads","begin()/end() and It/SubsetIt"])
p("C22","Storage containers behave like a growable array",
 "For every sequence of push_back, resize, realloc, fill, element writes, copy, move, swap-like moveit and init on the storage buffers, length and elements are those of a plain growable array: push_back appends and keeps all elements, realloc keeps the common prefix, resize to a smaller length keeps the prefix (elements after growing by resize are unspecified until written), fill sets every element, back is the last element, capacity is never below the length. Elements and lengths of other buffers never change.",
 ["histories"],"all operation sequences up to a depth on one to three buffers, sizes around the growth thresholds",
 "BaseStore_Tests calls each operation once or twice from a fresh buffer.",
 ["Core/BaseStore.hpp","Core/Types.hpp"],["push_back/realloc/resize/moveit/fill"],[("sz/capacity/p","buffer state")])
p("C23","No leaks, double frees, stray accesses or use of undefined memory",
 "Over every sequence of operations, including ones that fail with an exception, each allocated block is freed exactly once by the time its owner is destroyed, no freed or foreign memory is accessed, and no observable result depends on uninitialised memory.",
 ["histories","programs"],"all operation sequences of the other state machines, executed under allocation accounting, address checking and two different memory fill patterns",
 "Tests run without sanitizers and cannot see leaks or reads of undefined memory that happen to hold zeros.",
 ["Core/BaseStore.hpp","Core/Borrow.hpp","Core/SubsetClass.hpp","Vector/AssignmentOperator.hpp","Vector/Constructors.hpp"],
 ["new[]/delete[] in BaseStore","allocated flag"],[("allocated","ownership flag")])
p("C24","A failing allocation leaves everything consistent",
 "If any single memory allocation inside an operation fails, the operation throws std::bad_alloc, leaks nothing, and every variable is still either its old or its new value in length, shape and elements; it can be read, assigned and destroyed afterwards, and repeating the statement succeeds with the regular result.",
 ["fault_sequences"],"for every statement of the alphabet (and pairs of statements) and every allocation performed in it: fail exactly that allocation",
 "No test injects allocation failures.",
 ["Core/BaseStore.hpp","Vector/AssignmentOperator.hpp","Core/SubsetClass.hpp"],
 ["new before delete in resize/realloc/init","evaluation into temp before moveit"])
p("C25","Threads working on separate variables do not interfere",
 "Operations executed concurrently on distinct variables, possibly reading common variables that nobody writes, give each thread the result it would get alone, under every interleaving: the library keeps no hidden shared mutable state and reading a variable never writes to it.",
 ["schedules"],"all interleavings (up to equivalence) of two or three threads running each pair of statements of the alphabet",
 "The test suite is single-threaded.",
 ["include/etr.hpp","Vector/VectorClass.hpp","Core/Utils.hpp","Interpolation.hpp"],
 ["absence of static/global mutable state","const read paths"])
p("C26","Warnings appear exactly when an input is silently adjusted",
 "The length given to vector_numeric/vector_integer/vector_logical, the dimensions given to matrix, the times given to rep and a single position given to subset (of a vector, or as row or column of a matrix), when it is a double with decimals, are truncated and reported by exactly one warning per such argument on stderr; integral values produce none. Where one number is expected (times of rep, dimensions of matrix, endpoints of colon, position of cmr, a logical variable used as a condition), a vector of more than one element is reported by one warning per such argument. All other valid calls produce no output on stdout or stderr.",
 ["inputs"],"all size/position-taking functions x argument kinds x integral and fractional values",
 "No test captures stderr; an inverted warning condition goes unnoticed.",
 ["Allocation/AllocationUtils.hpp","Subsetting/UtilsSubsetting.hpp","Core/Utils.hpp","Allocation/Matrix.hpp","Interpolation.hpp"],
 ["warn(...) calls and isDoubleInt"])
p("C27","Exchange of values with R objects is faithful",
 "In R mode, assigning an R vector or matrix (numeric, integer, logical, or an Rcpp or Armadillo vector or matrix) to a variable of that element type gives exactly its length, dimensions and elements, whatever the variable held before, and leaves the R object alone; an R object of another type is rejected and the variable keeps its value. cpp2R of a variable, selection, calculation or scalar returns a new R object of the matching type with the same elements and dimensions, protected while it is filled. A variable that refers to an R object (BorrowSEXP) reads and writes the elements of that object as long as values fit; for longer values it gets memory of its own. R's memory is never freed, never exceeded and never used after R may have collected it. Errors and warnings of ETR become errors and warnings of R, and printing goes to R's console.",
 ["inputs","programs","faults"],"all R vector types, lengths, dimensions and values, all former contents of the variable, all histories of statements on variables that refer to R objects, every failing allocation, garbage collection at every allocation",
 "The standalone tests do not compile the R mode; ownership of R's memory depends on the history of a variable, and garbage collection on the timing.",
 ["Core/BorrowSEXP.hpp","SEXPConversions.hpp","Core/BaseStore.hpp","Vector/VectorClass.hpp","Vector/AssignmentOperator.hpp","Core/Utils.hpp","Printing.hpp"],
 ["cpp2R","BaseStore(SEXP) and initSEXP","BorrowSEXP: todelete decides who owns p","conversion operators and constructors for Rcpp and arma types in Vec"],
 [("todelete","p was allocated by ETR, otherwise it belongs to R")])
p("C28","Distribution functions are applied element-wise with recycling",
 "In R mode, the density, distribution and quantile functions (dunif, punif, qunif, and those of norm, lnorm, gamma) return as many elements as the longest argument; element i is R's function of the i-th elements of all arguments, each recycled by its own length (the gamma functions take the rate; R gets the scale 1/rate). The random functions return the requested number of draws, each drawn once, in order, with its recycled parameters and within GetRNGstate/PutRNGstate. Arguments are not changed; an argument without elements is an error, not a crash.",
 ["inputs"],"all combinations of argument lengths and values for all 16 functions",
 "The standalone tests do not compile the R mode; recycling depends on the combination of up to five lengths.",
 ["Distri.hpp"],["dunif_etr ... qgamma_etr"])
p("C29","Type and expression reflection prints the true type and its structure",
 "printType(x) and printT<T>() print the name of the type of the value or of T and a newline; printAST(x) and printTAST<T>() print the same name broken into lines after every opening and closing bracket, every line indented by one tab per enclosing bracket. This holds for scalars, variables, selections, temporaries and expressions of every element type and nesting. Nothing is evaluated or changed by it, and nothing printed depends on earlier calls.",
 ["inputs","programs"],"all kinds of values, all expression trees over them, all orders of the calls",
 "No test calls these functions; the text depends on the type of the expression, of which there are unboundedly many.",
 ["Core/Reflection.hpp"],["printType, printT, printAST, printTAST, demangle, convertIndentation"])
p("C30","Whole programs compute what their statements say",
 "A program that combines variables, selections, arithmetic, comparisons, generators, iteration, conditions on variables, functions taking and returning variables (by value, by reference, recursively) and borrowed memory computes exactly what the same program computes on plain C++ values: sorting and searching, matrix algorithms, number sequences, growing and shrinking vectors, difference schemes and interpolated input, for every input. All memory is released at the end.",
 ["inputs","programs"],"all inputs of a program",
 "The tests check single calls; examples/ holds programs that nothing runs. Interactions between statements depend on the data, which decide which statements are executed how often.",
 ["Vector/AssignmentOperator.hpp","Vector/Constructors.hpp","Vector/VectorClass.hpp","Subsetting/VectorSubsetting.hpp","Subsetting/MatrixSubsetting.hpp","BinaryCalculations.hpp","Coca.hpp","Core/Borrow.hpp"],
 ["everything a user's program calls"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
