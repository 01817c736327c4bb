"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": ["wicked/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


WICK = ["diagrams/wick_theorem.cc", "diagrams/wick_theorem_elementary_contractions.cc",
        "diagrams/wick_theorem_composite_contractions.cc", "diagrams/wick_theorem_process_contractions.cc",
        "diagrams/wick_theorem_canonicalize_graph.cc", "diagrams/contraction.cc", "diagrams/graph_matrix.cc",
        "diagrams/operator.cc"]

prop("C01", "Wick's theorem is exact for a single-determinant reference",
     "For every rational combination of products of fermionic operators over occupied and unoccupied spaces, the expression "
     "returned by contracting it over all ranks is equal, as an operator on Fock space and for all values of the tensors, to the "
     "product of the operators. Every term has the correct sign, rational weight, tensors, index pairing and "
     "operator string, and no contribution is missing or counted twice. A contraction for a window of ranks "
     "returns exactly the part of that operator with that many uncontracted operators.",
     ["inputs"], "all products and sums of operators (any body rank, label repetition, number-changing, odd or even), all sets "
     "and orders of occupied/unoccupied spaces, all prefactors, all rank windows",
     "The tests compare a few dozen textbook products with strings; signs and combinatorial weights depend on the multiplicity "
     "pattern of each product, and the space of patterns is unbounded.",
     WICK, [("generation of elementary and composite contractions", "wick_theorem_elementary_contractions.cc, wick_theorem_composite_contractions.cc"),
            ("sign, weight and tensors of a contraction", "wick_theorem_process_contractions.cc evaluate_contraction, combinatorial_factor"),
            ("merging of equivalent diagrams", "wick_theorem_canonicalize_graph.cc, algebra/symbolic_term.cc canonicalize")],
     ["the Expression returned by WickTheorem.contract"])

prop("C02", "Wick's theorem is exact for correlated references with cumulants",
     "When operators act on general spaces, the contraction result is equal to the operator product for every number-conserving "
     "reference state, where gamma1 and eta1 stand for its one-particle and one-hole density matrices, lambda_k for its k-body "
     "density cumulants, and the remaining strings are normal ordered with respect to it. In particular, the fully "
     "contracted terms add up to the expectation value of the product.",
     ["inputs"], "all products over sets of spaces that include general ones (mixed with occupied/unoccupied ones), all reference "
     "states, cumulants of any rank",
     "Tests check a handful of low-rank products by string; weights and signs of many-legged cumulants, repeated cumulants and "
     "mixed spaces are combinatorial and cannot be sampled by hand.",
     WICK, [("many-legged contractions", "wick_theorem_elementary_contractions.cc elementary_contractions_general"),
            ("gamma1, eta1 and lambda tensors", "wick_theorem_process_contractions.cc evaluate_contraction"),
            ("weights of repeated contractions", "wick_theorem_process_contractions.cc combinatorial_factor")],
     ["the Expression returned by WickTheorem.contract"])

prop("C03", "Contraction filters select exactly and contraction is linear",
     "Restricting a contraction to a window of ranks or to a maximum cumulant rank returns exactly the terms of the unrestricted "
     "result that satisfy the restriction, with the same coefficients. Contraction is linear in the prefactor and in the operator "
     "expression, so the contraction of a sum is the sum of the contractions, and a window is the sum of its ranks.",
     ["inputs"], "all operator expressions, windows, cumulant limits and prefactors",
     "Tests use one window and one cumulant limit per product; pruning in the search depends on every combination.",
     WICK, [("rank pruning", "wick_theorem_composite_contractions.cc"), ("cumulant limit", "wick_theorem_elementary_contractions.cc"),
            ("sum over products", "wick_theorem.cc contract")],
     ["the Expression returned by WickTheorem.contract under different set_max_cumulant, minrank and maxrank"])

prop("C04", "Contraction results do not depend on execution mode or history",
     "The result of a contraction is the same with threads and single threaded, at every print level, on a new or a reused "
     "engine, and after any other library calls, and repeating it gives the identical expression. Turning graph "
     "canonicalization off never changes the value of the result. Contractions do not modify the operators passed in.",
     ["schedules", "histories", "configurations"], "all operator expressions, all sequences of calls on one engine or several, all "
     "settings and thread schedules",
     "Tests compare two modes on one CC example; state kept in the engine, in the global registry or shared between threads shows "
     "only for particular histories and schedules.",
     WICK + ["api/wick_theorem.cc"], [("engine state reset", "wick_theorem.cc contract"),
            ("threaded and serial processing", "wick_theorem_process_contractions.cc process_contractions, process_contractions_threads")],
     ["Expressions returned by WickTheorem.contract, equality and text"],
     [("contractions_, elementary_contractions_", "work lists that must not leak from one call to the next")])

prop("C05", "Threaded contraction is free of data races",
     "While a contraction runs with threads, no two threads access the same memory without synchronization when one of them "
     "writes, whatever the schedule, settings and operators. The timers collected by a threaded contraction are complete and readable "
     "after it returns.",
     ["schedules", "inputs"], "all schedules of the worker threads, all operator expressions, print levels and engine settings",
     "A data race shows as a wrong answer or a crash only in rare schedules; the tests see whatever the scheduler does once.",
     ["diagrams/wick_theorem_process_contractions.cc", "diagrams/wick_theorem_canonicalize_graph.cc", "diagrams/wick_theorem.h",
      "algebra/symbolic_term.cc", "helpers/orbital_space.cc"],
     [("one task per contraction sharing the engine", "wick_theorem_process_contractions.cc process_contractions_threads, process_single_contraction"),
      ("global registry read by all tasks", "helpers/orbital_space.cc")],
     ["memory accesses of the worker threads (ThreadSanitizer)", "WickTheorem.timers"],
     [("timers_", "written by every task"), ("orbital_subspaces", "global registry")])

prop("C06", "No call sequence corrupts memory or crashes the process",
     "Every call made through the Python API, with valid or invalid arguments and on objects created before or after the "
     "orbital spaces were changed, either returns or raises a Python exception: it never reads or writes memory out of "
     "bounds or after free, has undefined behaviour, or ends the process. A call that raises leaves the objects it was "
     "called on usable and unchanged.",
     ["histories", "inputs"], "all sequences of API calls with hostile arguments: bad labels, out-of-range and stale indices, huge "
     "or negative numbers, aliasing arguments, malformed text, many spaces and many legs",
     "Tests use well-formed input on a fixed set of spaces; memory errors need unusual sizes, stale objects or aliasing and are "
     "invisible without instrumentation.",
     ["helpers/orbital_space.cc", "helpers/helpers.h", "helpers/algebra.hpp", "algebra/index.cc", "algebra/tensor.cc",
      "algebra/symbolic_term.cc", "algebra/equation.cc", "algebra/expression.cc", "diagrams/graph_matrix.cc", "diagrams/operator.cc", "api/*.cc"],
     [("bounds of registry look ups", "helpers/orbital_space.cc"), ("fixed-size graph matrices", "diagrams/graph_matrix.cc"),
      ("parsers", "algebra/expression.cc make_expression, algebra/index.cc, algebra/tensor.cc, helpers/rational.cc")],
     ["process status, sanitizer reports, exceptions, printed form of the objects before and after"])

prop("C07", "Vacuum normal ordering is exact and ordered",
     "Reordering an expression into vacuum normal order returns only terms whose operators are ordered (creation before "
     "annihilation), and its value is equal to the original one under the canonical commutation "
     "relations of fermions and bosons, for all values of the tensors. When different names are declared to be different orbitals, the same holds "
     "with distinct names standing for distinct orbitals, and no tensors are introduced. Applying it to an ordered expression changes nothing.",
     ["inputs"], "all strings of fermionic, bosonic and mixed operators over any spaces, with repeated and distinct indices, "
     "multiplied by any tensors, in sums, in both modes",
     "Tests cover strings of up to four operators; signs and deltas depend on the whole permutation.",
     ["algebra/symbolic_term_normal_order.cc", "algebra/expression_normal_order.cc", "algebra/sqoperator.cc"],
     [("recursive adjacent swaps", "symbolic_term_normal_order.cc"), ("statistics of a swap", "sqoperator.cc commutator_factor"),
      ("order", "sqoperator.cc operator<")],
     ["Expression.vacuum_normal_ordered, Expression.is_vacuum_normal_ordered"])

prop("C08", "Canonicalization preserves value and does not depend on names",
     "Canonicalizing an expression or an operator expression never changes its value, for all values of (anti)symmetric tensors "
     "and for fermions and bosons; operator strings are read as normal ordered. It leaves no zero coefficients and no repeated terms, and terms whose tensors can be "
     "told apart (by label, legs per space or the tensors they share indices with) that differ only by the names of their indices, the order of their tensors or of "
     "their operators become the same term, with the right sign.",
     ["inputs"], "all expressions: any tensors, symmetries, repeated labels, index names, free and contracted operator indices",
     "Tests canonicalize single terms and compare strings; sign errors and index collisions need particular permutations and sharings.",
     ["algebra/symbolic_term.cc", "algebra/tensor.cc", "algebra/index.cc", "algebra/sqoperator.cc", "algebra/expression.cc",
      "diagrams/operator_product.cc", "diagrams/operator_expression.cc"],
     [("relabeling and sorting", "symbolic_term.cc canonicalize"), ("index sorting sign", "index.cc canonicalize_indices"),
      ("operator sorting sign", "sqoperator.cc canonicalize_sqops"), ("commuting operators", "operator_product.cc canonicalize")],
     ["Expression.canonicalize, OperatorExpression.canonicalize, canonicalize_indices"])

prop("C09", "Expressions form an algebra over the rationals",
     "Addition, subtraction, negation, scaling, products, adjoint, dot product, norm, in-place addition, iteration and equality of expressions agree with those of formal "
     "rational combinations of terms, where the product of two terms concatenates their tensors and operators and "
     "the adjoint reverses and conjugates operators. No term appears twice or with a zero coefficient, and operations other than in-place ones never change their operands.",
     ["inputs", "histories"], "all sequences of operations on expressions, including aliasing operands and cancellations",
     "Tests add and compare a few expressions; cancellation, aliasing and ordering bugs need sequences of operations.",
     ["helpers/algebra.hpp", "helpers/helpers.h", "helpers/product.hpp", "algebra/expression.cc", "algebra/symbolic_term.cc", "algebra/term.cc", "api/expression_api.cc"],
     [("map of terms", "helpers/algebra.hpp, helpers/helpers.h add_to_map"), ("term order and equality", "algebra/symbolic_term.cc operator<, operator=="),
      ("product and adjoint", "algebra/symbolic_term.cc, helpers/product.hpp")],
     ["Expression operators in Python, iteration, len"], [("terms_", "map from symbolic terms to coefficients")])

prop("C10", "Operator expressions form an algebra; commutator and BCH agree",
     "Sums, differences, products, scaling, adjoints, in-place additions and equality of operator expressions agree with those of formal rational combinations of "
     "operator products. The commutator of several arguments is the left-nested one, and the BCH series of order n is the sum "
     "over k up to n of the k-fold nested commutators of A with B divided by k factorial.",
     ["inputs", "histories"], "all operator expressions, nesting depths, orders, scalars and aliasing arguments",
     "Tests check low orders of a few operators by string.",
     ["diagrams/operator_expression.cc", "diagrams/operator_product.cc", "diagrams/operator.cc", "diagrams/graph_matrix.cc", "helpers/algebra.hpp", "api/operator_api.cc"],
     [("algebra", "helpers/algebra.hpp"), ("commutator, bch_series", "diagrams/operator_expression.cc"), ("adjoint", "helpers/product.hpp, diagrams/graph_matrix.cc")],
     ["OperatorExpression operators in Python, commutator, bch_series, printed form"])

prop("C11", "Rational arithmetic is exact and canonical",
     "Arithmetic, comparison, construction, parsing and conversion of rational numbers agree with exact rational arithmetic, as long "
     "as the numbers fit in 1024-bit integers. Every rational is kept in lowest terms with a positive denominator, so that equal numbers "
     "compare and print equal. Division by zero and zero denominators are rejected.",
     ["inputs", "histories"], "all sequences of operations on rationals of any size and sign within the width of the integers",
     "Tests cover small positive fractions.",
     ["helpers/rational.cc", "api/rational_api.cc"],
     [("reduction", "helpers/rational.cc reduce"), ("operators", "helpers/rational.cc"), ("parser", "helpers/rational.cc make_rational_from_str")],
     ["rational objects in Python: repr, str, numerator, denominator, float, ==, arithmetic, make_rational"])

prop("C12", "Printed expressions read back to the same expression",
     "Reading the printed form of an index, tensor, term, expression or rational gives back an equal object, for every label, index, "
     "coefficient and operator string that can be printed. Two different expressions never print the same. Reading honours "
     "the spacing and index notations that the documentation allows and rejects malformed indices and tensors.",
     ["inputs"], "all expressions over all registered spaces, all coefficients and labels, and all notational variants",
     "Tests read a fixed list of strings.",
     ["algebra/expression.cc", "algebra/symbolic_term.cc", "algebra/tensor.cc", "algebra/index.cc", "helpers/helpers.cc", "helpers/rational.cc", "utils.py"],
     [("printers", "str() of each class"), ("parsers", "make_expression, make_tensor_from_str, make_index_from_str, make_rational_from_str, utils.string_to_expr")],
     ["str(x), expression(s), string_to_expr(s), tensor(s), index(s), make_rational(s)"])

prop("C13", "Many-body equations partition the expression without loss",
     "Converting an expression to many-body equations puts every term in exactly one equation, filed under the key that states "
     "the spaces of its open indices. Each equation keeps the coefficient and the tensors, and its left-hand tensor carries the operator "
     "indices such that the sum over equations of left-hand tensor times its operator string gives back the expression.",
     ["inputs"], "all expressions, including scalars, odd strings, several spaces and composite operators",
     "Tests look at single equations of a few examples.",
     ["algebra/expression.cc", "algebra/equation.cc", "algebra/tensor.cc"],
     [("split by signature", "expression.cc to_manybody_equation"), ("signature", "tensor.cc signature")],
     ["Expression.to_manybody_equation(s), Equation.lhs, rhs, rhs_factor, rhs_expression, str"])

prop("C14", "Generated code evaluates to the equation it came from",
     "The einsum code generated from an equation, by either generator, runs and computes exactly the contraction of the right-hand tensors into the left-hand tensor "
     "times the coefficient, and adds it to the array of the left-hand side; the ambit code "
     "states the same tensors, indices and coefficient. Distinct indices get distinct letters, coefficients keep double precision, and "
     "equations that cannot be expressed are refused.",
     ["inputs"], "all equations: any spaces, index labels, numbers of indices, tensors, repeated tensors and coefficients",
     "Tests compare a few generated lines as text and never run them.",
     ["algebra/equation.cc", "algebra/tensor.cc", "algebra/index.cc", "helpers/rational.cc", "utils.py"],
     [("letter assignment", "equation.cc get_unique_index"), ("einsum and ambit printers", "equation.cc compile"), ("compile_einsum", "utils.py")],
     ["Equation.compile('einsum'), Equation.compile('ambit'), compile_einsum(equation), executed with numpy"])

prop("C15", "The orbital-space registry is consistent and updates are atomic",
     "Orbital spaces keep the label, statistics, type and index names they were registered with, in order of registration, and "
     "everything the library prints or parses refers to them consistently. A registration with a label or index name that is already in use, or that is invalid, is "
     "rejected and leaves the registry as it was, and a reset empties it completely.",
     ["histories", "inputs"], "all sequences of registrations (valid and rejected), resets and look ups",
     "Tests register the same few spaces in the same order.",
     ["helpers/orbital_space.cc", "api/orbital_space_api.cc", "algebra/index.cc"],
     [("add_space", "helpers/orbital_space.cc"), ("look ups", "helpers/orbital_space.cc")],
     ["osi().num_spaces, label, indices, to_dict, str; index(s); printing and LaTeX of indices and operators"],
     [("space_info_, label_to_pos_, indices_to_pos_", "the registry")])

prop("C16", "Operator builders produce exactly the requested operators",
     "Building operators from component strings, from space lists or over composite spaces gives exactly one operator for each requested component, with the "
     "given label, the counted creation and annihilation operators, and a tensor whose prefactor is one over the product of factorials of equivalent legs. Expressions "
     "built for a labelled operator contain the string, distinct indices, tensor, symmetry and coefficient asked for. Unknown spaces are rejected.",
     ["inputs"], "all labels, component lists (repeated, reordered, of any rank), space sets, gen_op ranks and diagonal flags",
     "Tests build one- and two-body operators.",
     ["diagrams/operator_expression.cc", "diagrams/operator.cc", "algebra/expression.cc", "utils.py"],
     [("op", "operator_expression.cc make_diag_operator_expression"), ("operator_expr", "expression.cc make_operator_expr"), ("gen_op", "utils.py"),
      ("prefactor", "operator.cc factor")],
     ["printed operators, contraction of a single operator, operator_expr, gen_op, diag_operator"])

prop("C17", "LaTeX output is faithful",
     "The LaTeX form of an expression, term, tensor, operator or index states the same coefficients, tensors, index labels and operators, in the same order, "
     "as the object. Index labels are those registered for the space, or the space label with a number beyond them, so different indices never "
     "look the same.",
     ["inputs"], "all expressions, coefficients, labels, index positions and registered index names",
     "Tests compare a few LaTeX strings.",
     ["algebra/expression.cc", "algebra/symbolic_term.cc", "algebra/tensor.cc", "algebra/sqoperator.cc", "algebra/index.cc", "helpers/rational.cc", "helpers/orbital_space.cc"],
     [("latex printers", "latex() of each class"), ("index labels", "helpers/orbital_space.cc index_label")],
     ["latex() of Expression, Term, SymbolicTerm, Tensor, SQOperator, Index, rational"])

prop("C18", "Integer partitions and index sorting are correct",
     "The integer partitions of n with at most m parts are exactly the non-increasing sequences of positive integers with sum n and at most m parts, each once. "
     "Sorting a list of indices returns them in increasing (or decreasing) order together with the parity of the permutation.",
     ["inputs"], "all n and m in range, all lists of indices, both directions",
     "Tests check one partition and a few sorts.",
     ["helpers/combinatorics.cc", "algebra/index.cc"],
     [("integer_partitions, permutation_sign", "helpers/combinatorics.cc"), ("canonicalize_indices", "algebra/index.cc")],
     ["integer_partitions(n, m), canonicalize_indices(indices, reversed)"])

prop("C19", "Both integer configurations agree within their range",
     "The library built with 64-bit integers and the library built with 1024-bit integers return the same text for every input whose numbers fit in "
     "64 bits. With 1024-bit integers, coefficients beyond 64 bits stay exact through operator prefactors, contractions, products and printing.",
     ["configurations", "inputs"], "all workloads in both build configurations, and all workloads with large coefficients in the wide one",
     "Tests run in one configuration with small coefficients.",
     ["helpers/rational.cc", "helpers/rational.h", "helpers/combinatorics.cc", "diagrams/operator.cc", "diagrams/wick_theorem_process_contractions.cc"],
     [("rational_t", "helpers/rational.h"), ("integer weights", "helpers/combinatorics.cc, diagrams/operator.cc factor")],
     ["printed results of the same workload in both builds"])

prop("C20", "Derived and compiled equations give the exact residuals",
     "Equations obtained by the whole pipeline, from operators through commutators or the BCH series, contraction, many-body equations and generated einsum code, give, when "
     "executed with numerical amplitudes, the exact matrix elements of the transformed operator between the reference and "
     "excited determinants (or, for correlated references, its expectation value).",
     ["inputs", "programs"], "all Hamiltonians, cluster operators, orders of expansion, numbers of orbitals and amplitudes",
     "Tests never evaluate the derived equations.",
     ["utils.py", "diagrams/operator_expression.cc", "diagrams/wick_theorem.cc", "algebra/expression.cc", "algebra/equation.cc"],
     [("op, gen_op", "operator_expression.cc, utils.py"), ("bch_series", "operator_expression.cc"), ("contract", "wick_theorem.cc"),
      ("to_manybody_equation, compile", "expression.cc, equation.cc")],
     ["numerical arrays computed by the generated code"])

prop("C21", "Equal diagrams are merged: commutators contract to connected terms",
     "Contributions that are the same diagram are combined into one term, so that contributions that cancel do not appear in the result. Consequently the contraction of a commutator of "
     "even operators contains only terms whose tensors are connected through shared indices, and the commutator of an operator with itself or with an operator it shares no spaces with contracts to nothing.",
     ["inputs"], "all commutators (nested too) of even operators with equal or different labels, over all kinds of spaces",
     "Tests check cancellation for one example; it relies on canonical forms that depend on the diagram.",
     ["diagrams/wick_theorem_canonicalize_graph.cc", "algebra/symbolic_term.cc", "diagrams/operator_expression.cc", "helpers/helpers.h"],
     [("canonical graph", "wick_theorem_canonicalize_graph.cc"), ("canonical term", "symbolic_term.cc canonicalize"), ("erasing cancelled terms", "helpers/helpers.h add_to_map")],
     ["terms of WickTheorem.contract(commutator(...))"])

prop("C22", "Orders and equality of indices and operators are consistent",
     "Comparison of indices and of second-quantized operators are strict total orders compatible with equality. The vacuum order puts creation before "
     "annihilation operators, creators by increasing and annihilators by decreasing index, and the quasiparticle order does the same for "
     "quasiparticle creators and annihilators defined by the occupation of the space.",
     ["inputs"], "all triples of indices and operators over all kinds of spaces",
     "Tests compare a few pairs; containers and sorts silently misbehave when transitivity fails for a triple.",
     ["algebra/index.cc", "algebra/sqoperator.cc"],
     [("operator<, operator==, normal_ordered_less", "algebra/index.cc, algebra/sqoperator.cc")],
     ["<, == and normal_ordered_less in Python; sorting"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
