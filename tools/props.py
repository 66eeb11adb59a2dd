#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
D = "wicked/diagrams/"
A = "wicked/algebra/"
H = "wicked/helpers/"
P = "wicked/api/"
W = D + "wick_theorem"
props = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=hook)))


p("C01", "Wick contraction is exact over occupied/unoccupied spaces",
  "Contracting a product of normal-ordered fermionic operators whose orbital spaces are occupied or unoccupied returns exactly the operator it stands for: "
  "every distinct way of contracting creation and annihilation operators of different factors appears, with the correct sign and rational prefactor, and nothing else appears. "
  "This holds for any number of factors, any number of creation/annihilation operators per factor (also unequal numbers and repeated lines between the same factors), and for repeated operator labels; a coefficient that does not fit the 1024-bit integers of the rational numbers is reported as an error.",
  ["programs", "inputs"], "every product of operators over every set of occupied/unoccupied fermionic spaces, evaluated with the full rank window",
  "The tests compare a few dozen fixed products (mostly up to two-body operators) with stored strings; the number of products and of sets of contractions is unbounded, and the prefactor rules differ for each multiplicity pattern.",
  [W + "_elementary_contractions.cc", W + "_composite_contractions.cc", W + "_process_contractions.cc", W + "_canonicalize_graph.cc", W + ".cc"],
  [("elementary contractions", W + "_elementary_contractions.cc"), ("backtracking over composite contractions", W + "_composite_contractions.cc"), ("sign and combinatorial factor", W + "_process_contractions.cc"), ("graph canonicalization", W + "_canonicalize_graph.cc")],
  [("free operators during backtracking", "operators still uncontracted", W + "_composite_contractions.cc")], ["result of WickTheorem.contract"])

p("C02", "Generalized Wick contraction is exact over general (correlated) spaces",
  "When operators carry general-space indices, contracting a product returns exactly the generalized Wick expansion: one-body density, one-hole density and 2k-leg cumulant tensors for every admissible contraction between at least two factors, with the correct sign, prefactor and index placement, combined with ordinary contractions for occupied/unoccupied spaces in the same product. "
  "A maximum cumulant level n keeps exactly the terms whose cumulants involve at most n creation and n annihilation operators.",
  ["programs", "inputs", "configurations"], "every product of operators over every mixture of occupied, unoccupied and general fermionic spaces and every cumulant level",
  "The tests fix a handful of products with small cumulant level; no test enumerates multi-leg contractions over three or more factors or compares with an independent evaluation on a correlated state.",
  [W + "_elementary_contractions.cc", W + "_process_contractions.cc", W + "_composite_contractions.cc", H + "combinatorics.cc"],
  [("general-space elementary contractions from integer partitions", W + "_elementary_contractions.cc"), ("cumulant tensors and sign", W + "_process_contractions.cc")],
  [("maxcumulant_", "largest number of half legs", D + "wick_theorem.h")], ["result of WickTheorem.contract"])

p("C03", "The requested operator-rank window is an exact filter",
  "Contracting with a minimum and maximum rank returns exactly those terms of the unrestricted contraction whose number of remaining creation and annihilation operators lies in that closed interval, with unchanged coefficients. "
  "Windows that contain no term give the empty expression.",
  ["programs", "configurations"], "every product and every pair of minimum and maximum ranks",
  "Tests use a few windows, almost always starting at zero; interaction of the window with pruning and with merging of terms needs all windows on all products.",
  [W + "_composite_contractions.cc", W + "_process_contractions.cc"], [("rank test while backtracking", W + "_composite_contractions.cc"), ("rank test while processing", W + "_process_contractions.cc")], obs=["result of WickTheorem.contract"])

p("C04", "Contraction is linear in the operator expression and the factor",
  "Contracting a sum of operator products with a scalar factor equals the factor times the sum, over the products with their coefficients, of contracting each product alone. "
  "In particular contraction distributes over addition, subtraction, scalar multiples and cancellation of operator expressions.",
  ["programs", "inputs"], "all operator expressions, all rational factors including zero and negative ones",
  "Tests contract a few sums; linearity must hold for every combination of coefficients and for terms that cancel.",
  [W + ".cc", D + "operator_expression.cc", H + "algebra.hpp"], [("loop over terms", W + ".cc"), ("vector-space operations", H + "algebra.hpp")], obs=["result of WickTheorem.contract"])

p("C05", "Engine settings do not change the value of a contraction",
  "Turning graph canonicalization on or off, running single- or multi-threaded, and any print level leave the value of the contraction unchanged (up to renaming summation indices and using tensor symmetries); single- and multi-threaded runs return identical expressions. "
  "With graph canonicalization on, terms that differ only by reordering identical operators are combined.",
  ["configurations", "programs"], "all combinations of settings on all operator products",
  "Tests mostly run the default settings; equality across settings is a relation between runs that is never asserted over more than a few products.",
  [W + ".cc", W + "_process_contractions.cc", W + "_canonicalize_graph.cc"], [("settings", W + ".cc"), ("two processing loops", W + "_process_contractions.cc")], obs=["result of WickTheorem.contract", "standard output"])

p("C06", "Multi-threaded contraction is race-free and schedule-independent",
  "Under every interleaving of the worker threads started by a multi-threaded contraction, the call terminates and returns exactly the single-threaded result, with no unsynchronised conflicting memory accesses. "
  "If the system refuses to start a worker thread, the call still ends without crashing or hanging: it either reports an error or returns the correct result, and later contractions are unaffected.",
  ["schedules", "fault_sequences"], "all thread interleavings and all points at which starting a thread can fail",
  "A test run observes one schedule chosen by the operating system; data races on shared engine state do not show up as wrong results reliably.",
  [W + "_process_contractions.cc", D + "wick_theorem.h", H + "timer.hpp", H + "orbital_space.cc"], [("one asynchronous task per contraction", W + "_process_contractions.cc")],
  [("timers_", "timing counters shared by workers", D + "wick_theorem.h"), ("orbital_subspaces", "global space registry read by workers", H + "orbital_space.cc")], ["result of WickTheorem.contract", "memory accesses"])

p("C07", "Results depend only on current inputs, not on history",
  "The result of a contraction depends only on the current orbital spaces, the operators, the rank window and the current settings: it is the same on a fresh engine and on one that has performed any sequence of other contractions, setting changes or calls that raised an error, also when orbital spaces were reset and redefined in between. "
  "Timing counters and printing never influence results.",
  ["histories"], "all sequences of contractions, setting changes, failed calls and space redefinitions",
  "Tests use an engine for one or two calls; leftovers of an earlier call only matter for particular sequences.",
  [W + ".cc", W + "_composite_contractions.cc", H + "orbital_space.cc"], [("state cleared at the start of a contraction", W + ".cc"), ("registry reset", H + "orbital_space.cc")],
  [("contractions_, elementary_contractions_", "per-call engine state", D + "wick_theorem.h"), ("global space registry", "current orbital spaces", H + "orbital_space.cc")], ["results of WickTheorem.contract over call sequences"])

p("C08", "Canonicalizing an expression preserves its value",
  "Canonicalizing an expression of antisymmetric or symmetric tensors and normal-ordered operators, in which all indices are summed, changes only index names, the order of tensors and operators, and signs allowed by tensor symmetry and by exchanging operators (a minus sign only when two fermionic operators are exchanged); the denoted operator is unchanged. "
  "Expressions that cannot be canonicalized (nonsymmetric tensors) are rejected with an error and left unchanged.",
  ["inputs", "programs"], "all expressions: any tensors, symmetries, index patterns and operators, fermionic and bosonic",
  "Tests check a few stored strings; index clashes and wrong signs need specific index patterns.",
  [A + "symbolic_term.cc", A + "tensor.cc", A + "index.cc", A + "sqoperator.cc", A + "expression.cc"],
  [("index renaming map", A + "symbolic_term.cc"), ("sign of sorting tensor indices", A + "tensor.cc"), ("sign of sorting operators", A + "sqoperator.cc")], obs=["Expression.canonicalize"])

p("C09", "Canonical form is stable and merges equal terms",
  "Canonicalizing an already canonical expression changes nothing, canonicalization commutes with addition and scalar multiplication, and the order in which terms were added is irrelevant. "
  "Terms that differ only in the names of summation indices, in the order of tensors or operators, or by antisymmetric/symmetric permutation of tensor indices that are connected to the same partner (another tensor or the operators) become one term whose coefficients add, cancelling when they sum to zero, provided the tensors of the term differ in label or in their numbers of upper or lower indices per space.",
  ["inputs", "programs"], "all expressions; all renamings, tensor orders and index permutations of each term",
  "Tests canonicalize a few terms; invariance under all presentations of a term is a quantified statement.",
  [A + "symbolic_term.cc", A + "expression.cc", A + "tensor.cc", H + "helpers.h"], [("score sort of tensors", A + "symbolic_term.cc"), ("merging map", H + "helpers.h")], obs=["Expression.canonicalize", "Expression.__eq__"])

p("C10", "Vacuum normal ordering is an exact operator identity",
  "Vacuum normal ordering of any string of creation and annihilation operators, fermionic, bosonic or mixed, returns an equal operator in which all creation operators stand to the left of all annihilation operators, using Kronecker deltas for contractions; in the mode that contracts only equal indices, it is an identity for indices taken to be distinct. "
  "Strings containing a repeated fermionic operator that vanish are dropped, coefficients and tensors multiply through, and expressions already labelled normal-ordered are rejected with an error.",
  ["inputs", "programs"], "all operator strings of any length, over all spaces and index patterns, both contraction modes",
  "Tests fix about a dozen strings; the identity must hold for every string and every pattern of equal indices.",
  [A + "symbolic_term_normal_order.cc", A + "expression_normal_order.cc", A + "sqoperator.cc"], [("recursive swap and contract", A + "symbolic_term_normal_order.cc"), ("exchange sign", A + "sqoperator.cc")], obs=["Expression.vacuum_normal_ordered", "Expression.is_vacuum_normal_ordered"])

p("C11", "Expressions form an algebra with exact rational coefficients",
  "Addition, subtraction, negation, scalar multiplication, product, equality, dot product and norm of expressions behave as in a vector space with an associative, distributive product over exact rationals: terms with equal symbolic part are combined, zero-coefficient terms never remain, and equality means equal coefficient of every distinct term. "
  "In-place and out-of-place forms agree and never modify their other operand, also when an expression is combined with itself; iterating over an expression yields copies of its terms, so that modifying them, or the expression while iterating, never corrupts the expression.",
  ["inputs", "histories"], "all expressions and all sequences of arithmetic operations on them",
  "Tests check single sums and products; the laws quantify over all operands and over aliasing of operands.",
  [H + "algebra.hpp", A + "expression.cc", A + "symbolic_term.cc", P + "expression_api.cc"], [("term map", H + "helpers.h"), ("vector-space base class", H + "algebra.hpp")], obs=["Expression operators"])

p("C12", "The adjoint is an involutive, order-reversing, linear map",
  "Taking the adjoint twice returns the original; the adjoint of a sum or scalar multiple is the sum or multiple of adjoints; the adjoint of a product is the product of adjoints in reverse order, with creation and annihilation operators exchanged and coefficients unchanged. "
  "For operator expressions, contracting the adjoint equals the adjoint of the contraction, with upper and lower tensor indices exchanged.",
  ["inputs", "programs"], "all expressions, operators and operator expressions",
  "Tests check single examples; the algebraic laws quantify over all operands.",
  [A + "expression.cc", A + "symbolic_term.cc", A + "sqoperator.cc", A + "tensor.cc", D + "operator.cc", D + "operator_expression.h", D + "graph_matrix.cc", H + "product.hpp"], [("reverse and adjoint of factors", H + "product.hpp"), ("graph adjoint", D + "graph_matrix.cc")], obs=["Expression.adjoint", "OperatorExpression.adjoint"])

p("C13", "Commutators and similarity-transform expansions are exact",
  "The commutator of a list of operator expressions is the left-nested commutator, and the Baker-Campbell-Hausdorff expansion to order n equals the sum over k up to n of the k-fold nested commutator divided by k!, as exact noncommutative polynomials with rational coefficients. "
  "Their contractions contain only terms in which the factors are connected by contractions when the operators have even numbers of legs.",
  ["inputs", "programs"], "all operator expressions, all list lengths, all orders",
  "Tests compare selected contractions of low-order expansions; the coefficient of every product at every order is not checked.",
  [D + "operator_expression.cc", D + "operator_product.cc", P + "operator_api.cc", H + "algebra.hpp"], [("commutator and series recursion", D + "operator_expression.cc")], obs=["commutator", "bch_series"])

p("C14", "Canonicalizing operator expressions only uses valid commutations",
  "Canonicalizing an operator expression reorders factors only when they share no contractible pair, with a minus sign exactly when both factors have an odd number of fermionic operators, so the denoted operator and every contraction of it is unchanged. "
  "Products of mutually commuting factors that are permutations of each other become one term, and canonicalizing again changes nothing for such products.",
  ["inputs", "programs"], "all sums of operator products",
  "Tests canonicalize a few two-factor products.",
  [D + "operator_product.cc", D + "operator.cc", D + "operator_expression.cc"], [("bubble sort with commutation test", D + "operator_product.cc"), ("commutation test", D + "operator.cc")], obs=["OperatorExpression.canonicalize"])

p("C15", "Printed objects can be read back unchanged",
  "For indices, operators, tensors, rational numbers and expressions with alphanumeric tensor labels starting with a letter, reading the printed text with the corresponding constructor gives back an equal object: same coefficient, tensors with the same upper and lower indices in the same order, same operators in the same order, and the same normal-ordered flag. "
  "Distinct objects never print the same text.",
  ["inputs"], "all printable indices, operators, tensors, coefficients and expressions",
  "Tests parse a few strings; agreement of printer and parser is a relation over all values.",
  [A + "expression.cc", A + "tensor.cc", A + "index.cc", A + "sqoperator.cc", H + "rational.cc", "wicked/utils.py"], [("printers and regular-expression parsers", A + "expression.cc")], obs=["str()", "expression", "tensor", "index", "indices", "make_rational", "string_to_expr"])

p("C16", "Rational numbers are exact and in canonical form",
  "Rational arithmetic (sum, difference, product, quotient by a nonzero number) agrees with exact arithmetic on fractions for all integers within the supported width, results are always in lowest terms with a positive denominator, and equality is numerical equality; an operation whose result does not fit the supported width raises an error and never gives a wrong number. "
  "Text, LaTeX, compiled and floating-point forms denote the same number.",
  ["inputs", "histories"], "all integers within the supported width, all sequences of operations",
  "Tests check a few dozen values; signs and common factors interact over long operation sequences.",
  [H + "rational.cc", H + "rational.h", P + "rational_api.cc"], [("reduction to lowest terms", H + "rational.cc")], obs=["rational", "make_rational"])

p("C17", "The orbital-space registry is consistent and rejects bad definitions atomically",
  "After any sequence of resets and space definitions, the registry contains exactly the accepted definitions in order: labels, kinds, index names, counts and lookups agree with each other, index names and labels never belong to two spaces, and queries outside the registry raise an error. "
  "A definition that is rejected (duplicate label, duplicate index name, unknown kind or unknown elementary space) raises an error and leaves the registry exactly as it was.",
  ["histories", "inputs"], "all sequences of registry operations including rejected ones",
  "Tests define valid spaces once per module; the state after rejected definitions is never examined.",
  [H + "orbital_space.cc", P + "orbital_space_api.cc"], [("duplicate checks in add_space", H + "orbital_space.cc")], [("space list and lookup maps", "registered spaces", H + "orbital_space.cc")], ["add_space", "reset_space", "num_spaces", "osi", "index"])

p("C18", "Many-body equations are a lossless partition of an expression",
  "Splitting an expression into many-body equations puts every term into exactly one equation, under the key that lists its uncontracted annihilation and creation operators by space, with a left-hand-side tensor carrying exactly the operator indices in the right order, the remaining tensors on the right and the unchanged coefficient. "
  "Multiplying left-hand-side operators back and summing all equations recovers the expression, with the sign of the permutation that brings the operators of a term into creation-then-annihilation order.",
  ["inputs", "programs"], "all expressions of tensors and operators over all spaces",
  "Tests look at a few residual equations.",
  [A + "expression.cc", A + "equation.cc", A + "tensor.cc"], [("grouping by signature", A + "expression.cc")], obs=["Expression.to_manybody_equations", "Equation accessors"])

p("C19", "Compiled equations compute the equation",
  "For every equation whose left-hand-side indices are distinct and appear on the right, the einsum text produced by compiling it, executed on any tensors, adds to the left-hand-side array exactly the coefficient (to printed precision) times the contraction denoted by the right-hand side; distinct indices get distinct letters and equal indices equal letters. "
  "The ambit text denotes the same contraction, and unknown formats or equations that cannot be expressed are reported as errors, never as wrong code.",
  ["inputs", "programs"], "all equations: any number of tensors, indices, spaces and coefficients",
  "Tests compare two or three compiled strings; letters are reassigned in a pattern-dependent way.",
  [A + "equation.cc", A + "tensor.cc", A + "symbolic_term.cc", H + "rational.cc"], [("assignment of unique letters", A + "equation.cc")], obs=["Equation.compile"])

p("C20", "The Python einsum generator computes the equation",
  "For every equation, scalar or not, whose left-hand-side indices are distinct and appear on the right, the Python helper that turns it into an einsum statement returns a statement whose target is the left-hand-side tensor, whose letters map one-to-one to indices, and which computes the same contraction and coefficient as the equation. "
  "When the registered index names do not suffice it raises an error rather than emitting an ambiguous statement.",
  ["inputs", "programs"], "all equations and all registered index names",
  "The only tests cover scalar left-hand sides.",
  ["wicked/utils.py"], [("index dictionary", "wicked/utils.py")], obs=["compile_einsum"])

p("C21", "Combinatorial enumeration and permutation signs are exact",
  "Integer partitions of n into at most m parts are generated exactly once each, with parts in non-increasing order, for all n and m. "
  "Sorting a list of indices returns it sorted (ascending, or descending on request) together with the parity of the permutation that sorts it.",
  ["inputs"], "all n, m; all index lists",
  "Tests list partitions of one or two numbers.",
  [H + "combinatorics.cc", A + "index.cc"], [("ZS2 partition algorithm", H + "combinatorics.cc"), ("permutation parity", H + "combinatorics.cc")], obs=["integer_partitions", "canonicalize_indices"])

p("C22", "Operator constructors build exactly the requested operators",
  "An operator built from component strings has, for each component, exactly the listed number of creation and annihilation operators of each space whatever their order in the string, coefficient one per occurrence (or once only when uniqueness is requested), and prefactor one over the factorials of the numbers of equivalent lines. "
  "The general-operator helper produces exactly the sorted combinations of creation and annihilation spaces of the given rank, optionally without diagonal ones, and operator expressions built from component strings have matching tensor indices and operator strings with the given coefficient.",
  ["inputs"], "all component strings, all labels, ranks and space lists",
  "Tests build a few operators.",
  [D + "operator_expression.cc", D + "operator.cc", "wicked/utils.py", A + "expression.cc"], [("component parser", D + "operator_expression.cc"), ("sorted product enumeration", "wicked/utils.py")], obs=["op", "gen_op", "operator_expr", "diag_operator", "Operator"])

p("C23", "LaTeX output is faithful",
  "The LaTeX form of indices, operators, tensors, coefficients, terms and expressions shows every sign, coefficient, index and operator of the object in order, with registered index names (or label and number when they run out), so that the object can be recovered from the text when labels and index names are unambiguous (for example not themselves of the form label_number). "
  "Different expressions with the same number of terms never give the same LaTeX when index names and labels are distinct.",
  ["inputs"], "all expressions over all spaces",
  "Tests compare a few stored strings.",
  [A + "symbolic_term.cc", A + "tensor.cc", A + "expression.cc", A + "term.cc", H + "rational.cc", H + "orbital_space.cc"], [("LaTeX printers", A + "symbolic_term.cc")], obs=["latex()"])

p("C24", "Malformed input is rejected with an error and no side effects",
  "Malformed or out-of-range arguments (unparsable indices, tensors, numbers or operator strings, unknown spaces, wrong numbers of operator counts, out-of-range space numbers, objects used after their spaces were removed) end in a Python exception or a documented result, never in a crash, hang, memory error or silently wrong object. "
  "After the exception every existing object and the registry still have their previous values. Harmless variants of the printed forms (blanks, a trailing comma in an index list, leading zeros, a missing coefficient) may be accepted with their evident meaning.",
  ["inputs", "fault_sequences"], "all argument strings and values, in all registry states",
  "Tests check three or four error cases; out-of-range accesses go unnoticed without instrumentation.",
  [A + "index.cc", A + "tensor.cc", A + "expression.cc", H + "orbital_space.cc", D + "graph_matrix.cc", D + "operator_expression.cc", H + "rational.cc"], [("regular-expression validation and exceptions", A + "index.cc")], obs=["all public constructors and parsers"])

p("C25", "Orderings and equality are consistent",
  "The comparison operators of indices and operators are strict total orders compatible with equality: by space then number for indices; creation before annihilation, creation ascending and annihilation descending for operators; quasi-particle creation first for the normal-order comparison. "
  "Consequently sorting with them is deterministic, and equal indices, operators and sums of terms are interchangeable in every operation (a tensor label being used with one symmetry and one shape).",
  ["inputs"], "all pairs and triples of indices and operators over all spaces",
  "Tests compare a few pairs; transitivity and antisymmetry are statements about all triples.",
  [A + "index.cc", A + "sqoperator.cc", A + "tensor.cc"], [("comparison operators", A + "sqoperator.cc")], obs=["__lt__", "__eq__", "normal_ordered_less"])

p("C26", "Results are covariant under relabelling and reordering of orbital spaces",
  "Renaming space labels, renaming operator labels, or registering the same spaces in another order changes the result of a contraction only by the same renaming (up to renaming summation indices and tensor symmetries with their signs); adding an unused space changes nothing. "
  "Taking the adjoint of every operator and reversing the product gives the adjoint of the result.",
  ["configurations", "programs"], "all registration orders, labels and products",
  "Tests use two or three fixed registrations.",
  [H + "orbital_space.cc", W + "_process_contractions.cc", W + "_canonicalize_graph.cc"], [("space-indexed loops", W + "_process_contractions.cc")], obs=["result of WickTheorem.contract"])

p("C27", "Derived and generated equations reproduce the operator algebra",
  "The whole chain - operators, their products, commutators or similarity-transform expansions, contraction, many-body equations, generated code - is numerically right: executing the generated code for given antisymmetric tensors (and, over general spaces, the reduced densities and cumulants of the reference) "
  "yields amplitudes of an operator that is identical to the one obtained by multiplying the operators in Fock space. This holds for each code generator, for each engine setting, and when the expression is printed and read back in between.",
  ["programs", "configurations", "inputs"], "all derivations over all spaces and references",
  "No test executes generated code; an error where two stages disagree about order, sign or block naming is invisible to tests of single stages.",
  [W + "_process_contractions.cc", A + "expression.cc", A + "equation.cc", "wicked/utils.py", D + "operator_expression.cc"], [("to_manybody_equations", A + "expression.cc"), ("compile", A + "equation.cc")], obs=["generated code"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
