#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
M = "include/marco/Modeling/"; L = "lib/Modeling/"
prop("C01", "An index set always denotes exactly the points its history put into it",
 "After any sequence of constructions, insertions, unions, intersections and differences, an index set contains exactly the integer points that set algebra says it contains. Its size counts each point once, its iterators deliver every point exactly once through pairwise disjoint non-empty ranges, and containment, overlap, emptiness, equality and hashing depend only on the points and not on how the set was built.",
 ["histories", "inputs"], "every sequence of set operations over points and boxes of any rank, including sets large enough to use the tree representation, operands of either representation, and an operand being the receiver itself",
 "The 15 index-set tests use a handful of small two-box examples; fragmentation, tree splits and condensation depend on the order and number of previous insertions and removals.",
 [L+"IndexSet.cpp", M+"IndexSet.h", M+"RTree.h"],
 [("list and R-tree representations of the set", L+"IndexSet.cpp"), ("R-tree insert/remove/adjust/condense", M+"RTree.h")],
 ["IndexSet operators, contains, overlaps, flatSize, iterators, operator==, hash_value"],
 state=[("ranges", "disjoint boxes covering the set", M+"IndexSet.h")])
prop("C02", "Projections, products, complements and compact forms of index sets are exact",
 "Complement, slicing, taking/dropping dimensions, prepending and appending dimensions of an index set return exactly the set of points given by their mathematical definition, leaving the operands unchanged. The compact form of a set is a list of pairwise disjoint boxes denoting the same points.",
 ["inputs", "histories"], "every index set (either representation, any construction history) and every argument box or dimension selection",
 "Existing tests compare two or three hand-picked boxes; the functions' case analysis depends on how boxes overlap in every dimension.",
 [L+"IndexSet.cpp", M+"IndexSet.h", L+"MultidimensionalRange.cpp"],
 [("complement / slice / takeFirstDimensions / dropDimensions / append / getCompactRanges", L+"IndexSet.cpp")],
 ["IndexSet member functions returning IndexSet"])
prop("C03", "Points, intervals and boxes obey exact interval algebra",
 "Half-open integer intervals and boxes built from them answer containment, overlap, intersection, mergeability, merge, subtraction, size, iteration and comparison exactly as the point sets they denote. Subtraction yields pairwise disjoint boxes, merging is offered only when the union is again a box and then returns that union, and points and boxes of one rank compare lexicographically, consistently with equality and hashing.",
 ["inputs"], "every pair of intervals or boxes of equal rank with any bounds, including negative bounds and touching or nested boxes",
 "26 tests pin individual examples; nothing enumerates the relative positions of two boxes in 2 or 3 dimensions.",
 [L+"Range.cpp", L+"MultidimensionalRange.cpp", L+"Point.cpp", M+"Range.h", M+"MultidimensionalRange.h", M+"Point.h"],
 [("Range/MultidimensionalRange/Point member functions", L+"MultidimensionalRange.cpp")],
 ["Range, MultidimensionalRange and Point public members"])
prop("C04", "The spatial tree stores exactly its boxes, balanced and findable",
 "After any sequence of insertions, removals and bulk loads of disjoint boxes, the spatial tree holds exactly the remaining boxes, every overlap and containment query reports exactly what a linear scan would, and iteration yields each box once. All leaves are at the same depth, every inner node's bounding box is the tight hull of what is below it, node occupancy stays within its limits, and parent links are mutual.",
 ["histories", "inputs"], "every history of insert/remove/bulk-load on boxes of rank 1 to 3",
 "Eight tests insert a handful of boxes; splitting, re-insertion and underflow handling need tens of objects and particular removal orders.",
 [M+"RTree.h", L+"RTree.cpp", L+"IndexSet.cpp"],
 [("insertion, quadratic split, removal with condensation", M+"RTree.h")],
 ["tree queries and structure reached through the public root accessor"],
 state=[("root", "tree of nodes with bounding boxes", M+"RTree.h")])
prop("C05", "An access function maps points and sets identically whatever its form",
 "For every subscript expression, the access built from it denotes one mathematical map from iteration points to sets of variable points, whichever specialised representation (constant, offset/permutation, affine, general) is chosen. Mapping a point or an index set returns exactly the image under that map, and equality, cloning and affinity queries agree with it.",
 ["inputs", "programs"], "every list of subscript expressions (constants, induction variables, sums, differences, products, divisions, ranges, index sets) and every point or index set in the iteration space",
 "Tests build single examples per representation and compare a few points.",
 [L+"AccessFunction.cpp", L+"AccessFunctionGeneric.cpp", L+"AccessFunctionRotoTranslation.cpp", L+"AccessFunctionAffineMap.cpp", L+"AccessFunctionAffineConstant.cpp", L+"AccessFunctionConstant.cpp", L+"AccessFunctionEmpty.cpp", L+"DimensionAccess.cpp"],
 [("AccessFunction::build and map", L+"AccessFunction.cpp"), ("per-dimension access expressions", L+"DimensionAccess.cpp")],
 ["AccessFunction::map"])
prop("C06", "Inverse images and compositions of accesses are exact within the parent",
 "The inverse image of a set of accessed points, within a given iteration space, is exactly the set of iteration points of that space whose image meets the set. Composing two accesses equals applying one after the other, and when an inverse access is reported to exist it undoes the original on every point.",
 ["inputs", "programs"], "every access, every iteration space and every set of accessed elements of the matching rank",
 "Tests exercise invertible examples only; accesses that drop an iteration variable or repeat one are not sampled over non-rectangular spaces.",
 [L+"AccessFunction.cpp", L+"AccessFunctionRotoTranslation.cpp", L+"AccessFunctionGeneric.cpp", L+"AccessFunctionAffineConstant.cpp", L+"AccessFunctionConstant.cpp", L+"AccessFunctionAffineMap.cpp"],
 [("inverse / inverseMap / combine", L+"AccessFunctionRotoTranslation.cpp")],
 ["AccessFunction::inverse, inverseMap, combine"])
prop("C07", "A compressed incidence matrix is exactly the relation its updates define",
 "A multidimensional compressed incidence matrix denotes a relation between equation indices and variable indices, and after any sequence of element updates, access-function applications, additions and subtractions it contains exactly the pairs that relation contains. Row/column flattening, filtering and emptiness queries report exactly the projections and restrictions of that relation.",
 ["histories", "inputs"], "every history of updates over any equation and variable index spaces",
 "26 tests set a few elements on fixed 2x2..4x4 matrices; grouping of pairs by access depends on update order.",
 [L+"MCIM.cpp", L+"MCIMGroup.cpp", L+"MCIMGroupGeneric.cpp", L+"MCIMGroupAffineConstant.cpp", L+"MCIMGroupEmpty.cpp", M+"MCIM.h"],
 [("apply/set/unset/get, +=, -=, flattenRows/Columns, filterRows/Columns", L+"MCIM.cpp")],
 ["MCIM public operations"])
prop("C08", "Local matching solutions are valid and together cover every access",
 "Every local matching solution offered for an equation/variable edge pairs each equation index with at most one variable index and vice versa, and uses only pairs of the edge's incidence. The solutions of an edge together cover every pair that some access admits, none of them empty or repeated, and enumeration by index agrees with the announced size.",
 ["inputs"], "every incidence described by matrices or by access lists over any iteration space",
 "11 tests use one or two constant or offset accesses over tiny ranges.",
 [L+"LocalMatchingSolutions.cpp", L+"LocalMatchingSolutionsVAF.cpp", L+"LocalMatchingSolutionsMCIM.cpp"],
 [("lazy solution generator over variable accesses", L+"LocalMatchingSolutionsVAF.cpp")],
 ["solveLocalMatchingProblem"])
prop("C09", "Matching assigns each variable to exactly one equation, if possible at all",
 "When matching succeeds, every scalar equation is paired with exactly one scalar variable it really accesses, every scalar variable to be matched is paired with exactly one scalar equation, and the reported array-level solutions list exactly these pairs. Matching succeeds exactly when the underlying scalar bipartite graph has a perfect matching, simplification fails only when it has none, and the outcome does not depend on scheduling of parallel work or on the options given.",
 ["programs", "schedules", "configurations"], "every system of array equations and variables with any accesses, every option combination and every thread interleaving",
 "The matching tests exist in the tree but none is in the reliably running set; even there, about ten fixed systems are solved.",
 [M+"Matching.h", L+"Matching.cpp", L+"MCIM.cpp", L+"LocalMatchingSolutionsVAF.cpp"],
 [("simplify (obvious assignments) and augmenting-path search", M+"Matching.h")],
 ["MatchingGraph::match, simplify, getMatch"],
 state=[("matched / unmatched matrices of edges and vertices", "partial matching", M+"Matching.h")])
prop("C10", "The equation dependency graph has exactly the true write-to-read edges",
 "Given array equations with their written and read variable regions, an edge connects one equation to another exactly when some index written by the second is read by the first, as point sets. The strongly connected components reported for arrays are exactly the components of that graph, each listed once, with every equation in one component.",
 ["programs"], "every set of array equations with any write and read accesses",
 "No dependency-graph test runs in the reliable set; the sources contain about a dozen hand-built systems.",
 [M+"ArrayEquationsDependencyGraph.h", M+"SCCsDependencyGraph.h", M+"SCC.h", M+"Dependency.h", M+"Graph.h"],
 [("write map, edge creation and strongly-connected-component search", M+"ArrayEquationsDependencyGraph.h")],
 ["graph edges and component lists"])
prop("C11", "Cycle detection groups array equations into mutually dependent components",
 "The strongly connected components computed for array equations split the indices of every equation into parts: each index of each equation appears in exactly one part, of exactly one component. Components never depend on each other cyclically, so indices taking part in a common index-level dependency cycle are reported in the same component; and the parts grouped in one component do depend on each other mutually: two parts that do not need each other, directly or through other parts, are never reported together.",
 ["programs"], "every set of array equations with any accesses and iteration spaces",
 "The cycle tests in the tree do not run reliably and each fixes one system; the search prunes by index sets whose shape depends on visiting order.",
 [M+"DependencyGraph.h", M+"Dependency.h", M+"SCC.h"],
 [("index-set-valued depth-first cycle search and component merging", M+"DependencyGraph.h")],
 ["component lists with their index sets"])
prop("C12", "A schedule computes every index once and after what it depends on",
 "Executing the scheduled equation groups in order, with each index dimension walked in its reported direction, computes every equation index exactly once. Whenever an equation index reads a value written by another index outside its own algebraic loop, the writer has already been executed.",
 ["programs"], "every matched system of array equations, including self-dependencies by positive, negative and mixed offsets",
 "The scheduling tests are not in the reliable set and fix about ten systems.",
 [M+"Scheduling.h", M+"ArrayEquationsDependencyGraph.h", M+"ScalarEquationsDependencyGraph.h", M+"SCCsDependencyGraph.h"],
 [("post-order over the component graph, direction inference, scalarisation", M+"Scheduling.h")],
 ["Scheduler::schedule"])
prop("C13", "Index reduction differentiates the minimal equations and ends consistent",
 "Index reduction by the Pantelides algorithm terminates on structurally non-singular systems, and afterwards every equation of the extended system is assigned to a distinct highest-order variable it contains. It differentiates each equation the least number of times any such assignment allows, links every derivative to its original, and never changes the equations of a system that already has such an assignment.",
 ["programs"], "every system of scalar equations with any variable/derivative incidence",
 "Nothing in the test-suite runs the algorithm.",
 [M+"Pantelides.h"], [("augmenting-path search with colouring and differentiation", M+"Pantelides.h")],
 ["PantelidesGraph resulting equations, variables and assignment"])
prop("C14", "Graph containers hold exactly the vertices and edges added and not removed",
 "After any sequence of vertex and edge insertions and removals, directed and undirected graphs report exactly the surviving vertices, edges, incident edges and linked vertices, each once, with their current properties. An undirected edge is seen once in the list of all edges and from both its ends. The single-entry graphs hide exactly one additional entry vertex; visiting them in post-order or by strongly connected components from the entry yields every reached vertex once, with what a vertex leads to before it.",
 ["histories"], "every history of additions, removals and property updates, including self-loops and parallel edges",
 "16 tests add a few vertices and edges and almost never remove anything.",
 [M+"Graph.h", M+"SingleEntryDigraph.h", M+"SingleEntryWeaklyConnectedDigraph.h"],
 [("adjacency lists and filtered iterators", M+"Graph.h")], ["graph iterators and lookups"])
prop("C15", "Lexing splits any source into exactly the Modelica tokens it contains",
 "For every source text, the lexer returns the sequence of tokens that the longest-match rules of the Modelica lexical grammar define, with their values, followed by one end-of-file token, losing or inventing no character and always terminating. Every token's location is exactly the line and column range of its text, and a malformed text yields an error token and is never silently accepted.",
 ["inputs"], "every byte string as source text",
 "Lexer tests check about 130 single tokens in isolation; adjacency, comments, malformed literals and locations over longer texts are not sampled.",
 ["lib/Parser/BaseModelica/StateMachine.cpp", "lib/Parser/BaseModelica/Token.cpp", "include/marco/Lexer/Lexer.h", "include/marco/Lexer/StateMachine.h", "include/marco/Lexer/Location.h"],
 [("token state machine", "lib/Parser/BaseModelica/StateMachine.cpp"), ("generic lexer driver", "include/marco/Lexer/Lexer.h")],
 ["Lexer::scan, token values and locations"])
prop("C16", "Numeric literals denote the exact value written",
 "Every integer literal that fits the integer type is read as exactly its decimal value and every real literal as the double nearest to the written decimal value, whatever the split into integral part, fraction and exponent. The value is independent of leading zeros, of the exponent sign notation and of the text following the literal.",
 ["inputs"], "every decimal numeral with optional fraction and signed exponent",
 "Seven tests assemble single numbers.",
 ["include/marco/Lexer/IntegerLexer.h", "include/marco/Lexer/FloatLexer.h", "lib/Parser/BaseModelica/StateMachine.cpp"],
 [("digit accumulation", "include/marco/Lexer")], ["values of integer and real tokens"])
prop("C17", "Parsing builds the tree the Base Modelica grammar prescribes",
 "Every source text of the grammar that nests no more than some hundred levels is accepted and yields the syntax tree that the grammar's productions, operator precedences and associativities define, with every name, literal, modification, subscript and annotation in its place. A text outside the grammar is rejected with a diagnostic.",
 ["programs", "inputs"], "every token sequence over the Base Modelica grammar: classes, functions, records, sections, equations, statements, expressions",
 "The parser's tests do not run in the reliable set and each holds one snippet.",
 ["lib/Parser/BaseModelica/Parser.cpp", "include/marco/Parser/BaseModelica/Parser.h", "lib/AST/BaseModelica/AST.cpp"],
 [("recursive-descent parser with two-token lookahead", "lib/Parser/BaseModelica/Parser.cpp")], ["AST toJSON()"])
prop("C18", "Parsing any input terminates with a tree or a diagnostic, never a crash",
 "For any byte string given as source, parsing terminates without a crash and either returns a syntax tree or fails after emitting at least one error diagnostic. A failed parse never returns a partial tree and a successful parse emits no error.",
 ["inputs"], "every source text, in particular every truncation and every token-level mutation of a valid program",
 "No running test feeds malformed programs to the parser.",
 ["lib/Parser/BaseModelica/Parser.cpp", "lib/Parser/BaseModelica/StateMachine.cpp"],
 [("expect/accept token helpers and diagnostics", "lib/Parser/BaseModelica/Parser.cpp")], ["parser result and diagnostics"])
prop("C19", "Syntax-tree copies are deep, equal, and every node knows its parent",
 "Cloning a syntax tree yields a tree with the same content that shares no node with the original, and modifying either leaves the other unchanged. In every tree that the parser or a clone produces, each child's parent is the node that contains it, and each node's source range lies inside the parsed text.",
 ["programs"], "every syntax tree produced from any program",
 "No running test covers the tree classes.",
 ["lib/AST/BaseModelica", "include/marco/AST/BaseModelica"],
 [("copy constructors and setters of node classes", "lib/AST/BaseModelica")], ["toJSON, clone, getParent, getLocation"])
prop("C20", "A variable filter selects exactly the variables its text describes",
 "A filter text is accepted exactly when it is a list of names, derivatives, slices and regular expressions in the filter grammar, otherwise it is rejected with a diagnostic. An accepted filter reports a variable or derivative as selected exactly when some entry names or matches it, with the slices that the entries naming it describe, in order and fitted to its rank, or as a whole when only a regular expression matches it. Without any entry, all the variables and no derivatives are selected.",
 ["inputs", "configurations"], "every filter text and every queried variable name, rank and shape",
 "The filter tests do not run in the reliable set.",
 ["lib/VariableFilter", "include/marco/VariableFilter"],
 [("filter lexer, parser, AST and tracker queries", "lib/VariableFilter")], ["VariableFilter::fromString and queries"])
prop("C21", "What the compiler knows about a program survives text and bytecode",
 "Write any operation as pretty text, generic text or bytecode and read it back: nothing is lost, added or altered. This covers the index sets of equations, their matched variables and schedules, the lists of variables that calls and blocks read and write, the printable indices, the map of derivatives, constants of every type, and whole programs after any stage of the compilation. A written annotation is read as exactly what it says, and malformed text (an empty range, boxes of different ranks in a set, missing or unknown parts) is refused with a diagnostic.",
 ["inputs", "programs"], "every annotation, constant and program, including empty sets, unbounded dimensions and negative bounds",
 "No running test covers the dialects' custom parsers and printers or their bytecode; the dialect tests compare one form of single operations.",
 ["lib/Dialect/Modeling/IR", "lib/Dialect/BaseModelica/IR", "lib/Dialect/Runtime/IR", "include/marco/Dialect"],
 [("index sets, boxes, intervals", "lib/Dialect/Modeling/IR"), ("properties of equations and schedules", "lib/Dialect/BaseModelica/IR/Properties.cpp"),
  ("constants", "lib/Dialect/BaseModelica/IR/Attributes.cpp"), ("operations with hand-written text", "lib/Dialect/BaseModelica/IR/Ops.cpp"), ("map of derivatives", "lib/Dialect/BaseModelica/IR/DerivativesMap.cpp")],
 ["text and bytecode of operations"])
prop("C22", "Input files are classified by extension exactly, and commands carry their inputs",
 "What follows the last dot of a file name determines the kind of input: Modelica, MLIR, LLVM IR or bitcode, object; anything else is unknown. An input reports exactly the file or buffer and the kind it was given. A command runs its program with exactly the non-empty arguments it was given, in order, and its standard streams redirected as asked, and returns the exit status.",
 ["inputs", "configurations"], "every file name extension and every input kind",
 "No running test covers input classification.",
 ["lib/IO", "include/marco/IO"], [("extension table", "lib/IO")], ["InputKind and InputFile accessors"])
prop("C23", "A compiled model computes what its equations define",
 "Take any model of parameters, scalar, array and record variables, derivatives, initial equations, bindings, for-equations, slices and linear loops among unknowns, compiled for the forward Euler solver. Running the compiled initialization leaves every variable with values that satisfy all of the model's equations, start values and initial equations. A step then moves each state by the step size times its derivative and nothing else, and the update that follows makes all the equations hold again without changing states, parameters or constants.",
 ["programs", "inputs", "histories"], "every such model, all values of states, time and step size, and the orders in which the schedules may run",
 "The dialect tests compare the text one pass produces for one small input; none runs a compiled model, and none of them is among the tests that run here.",
 ["lib/Codegen/Lowering", "lib/Dialect/BaseModelica/IR", "lib/Dialect/BaseModelica/Transforms", "lib/Dialect/BaseModelica/Analysis"],
 [("lowering of the source into equations", "lib/Codegen/Lowering/BaseModelica"), ("matching, cycles, scheduling and explicitation", "lib/Dialect/BaseModelica/Transforms"),
  ("accesses of equations", "lib/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.cpp")],
 ["the equation functions and the schedules of the entry points solveICModel, updateStateVariables, updateNonStateVariables"])
prop("C24", "The generated program stores, drives and reports the model faithfully",
 "The program generated from a compiled model keeps each variable in its own storage, and its entry points - set up, solve the initial conditions, advance the states, update the rest, tear down - run exactly the equations of the model's schedules with the same effect on the variables. What it reports about the model is true: number, names, ranks and order of the variables, which of their elements the given filter selects for printing, the derivative of each variable, the values its getters return, and the start and end times of the experiment.",
 ["programs", "inputs", "histories"], "every model of the class of C23 with any variable filter and experiment annotation, with any values of states, time and step size, with and without the optimizations of functions",
 "The conversion tests compare the text produced for a single schedule or attribute; no test runs the generated program or compares what it reports with the model, and none of them is among the tests that run here.",
 ["lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp", "lib/Dialect/BaseModelica/Transforms", "lib/VariableFilter", "lib/Codegen/Lowering/ModelLowerer.cpp"],
 [("conversion of the model into globals, entry points and metadata", "lib/Codegen/Conversion/BaseModelicaToRuntime/BaseModelicaToRuntime.cpp"), ("late function optimizations and default values", "lib/Dialect/BaseModelica/Transforms/FunctionDefaultValuesConversion.cpp")],
 ["the functions init, icModelBegin/solve/end, dynamicModelBegin/end, update functions, variable getters and metadata operations of the converted module"])
prop("C25", "Models that are not well posed are refused with a diagnostic",
 "A model that has no well-defined simulation is refused with an error message instead of being compiled, crashing the compiler or being dropped silently: references to undeclared variables, components or functions, duplicate declarations, calls and subscripts that do not fit what they refer to, elements beyond the bounds of an array, operands of different shapes, assignments to inputs or to what is not a variable, and systems whose equations do not correspond one-to-one to their unknowns. Conversely, an error is reported if and only if the model is refused, and valid models are accepted.",
 ["programs", "inputs"], "every model of the class of C23 with one or two defects of the listed kinds at any place (the bounds of subscripts depending on induction variables are a recorded finding)",
 "The lit tests check single erroneous snippets; none of them is among the tests that run here, and the defects are independent of the rest of the model, so no finite list of snippets covers where they occur.",
 ["lib/Codegen/Lowering", "lib/Dialect/BaseModelica/IR/Ops.cpp", "lib/Dialect/BaseModelica/Transforms/Matching.cpp", "include/marco/Modeling/Matching.h"],
 [("names, calls and subscripts", "lib/Codegen/Lowering"), ("balance of equations and unknowns", "lib/Dialect/BaseModelica/Transforms/Matching.cpp")],
 ["the result and diagnostics of parsing, lowering, verification and the passes up to the schedules"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
