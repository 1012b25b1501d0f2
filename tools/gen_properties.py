#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []
Q = "qiskit_optimization/"


def prop(pid, title, statement, over, qtext, why, files, mech, state=None):
    anchors = {"files": [Q + f for f in files],
               "mechanism": [{"name": n, "where": Q + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Expressions evaluate to the polynomial they were given",
     "For every program, every linear or quadratic expression (alone, or as part of an objective or a constraint) built from a list, an array, a sparse matrix or a dictionary keyed by variable indices and/or names evaluates, at every point given as list, array or dictionary, to exactly the value of the polynomial its coefficients describe, where coefficients given at mirrored positions (i,j) and (j,i) add up. The gradient of a linear expression, a quadratic expression and an objective equals the partial derivatives of that same polynomial. Neither evaluation nor differentiation changes the expression or the point.",
     ["inputs"], "all numbers of variables, all coefficient values and formats, all points",
     "The tests evaluate a handful of fixed small expressions; correctness is a polynomial identity over every coefficient pattern, size and format.",
     ["problems/linear_expression.py", "problems/quadratic_expression.py", "problems/quadratic_objective.py", "problems/linear_constraint.py", "problems/quadratic_constraint.py"],
     [("evaluate / evaluate_gradient", "problems/linear_expression.py"), ("evaluate / evaluate_gradient, triangular storage", "problems/quadratic_expression.py"), ("evaluate / evaluate_gradient", "problems/quadratic_objective.py")])

prop("C02", "Coefficients read back are the coefficients that were set",
     "For every expression, reading a coefficient by index or by name, exporting to an array or to a dictionary (by index or by name, in triangular or symmetric form) always describes the same polynomial that was put in; the symmetric form is symmetric and the default form is upper triangular. Assigning one coefficient (by index, by name, in either order of a pair) changes that coefficient only, and building an expression from any of its own exports gives an expression with the same coefficients. Building from a dictionary, matrix or array never modifies the argument, and the objective and constraints hand back the sense, right-hand side, constant and name they were created with.",
     ["inputs", "histories"], "all expressions, formats, keys and sequences of reads and single-coefficient writes",
     "Tests round-trip a few fixed matrices; the claim is for all coefficient patterns and all write/read sequences.",
     ["problems/linear_expression.py", "problems/quadratic_expression.py", "problems/quadratic_objective.py", "problems/constraint.py"],
     [("coefficient matrix setter/getter, to_array, to_dict", "problems/quadratic_expression.py"), ("coefficient matrix setter/getter, to_array, to_dict", "problems/linear_expression.py")])

prop("C03", "Names and indices of a program stay coherent through any history",
     "After any sequence of adding single variables or batches of variables, adding and removing constraints, clearing, and failed (rejected) operations, the name-to-index tables of variables, linear constraints and quadratic constraints are exact: every element is listed once, at the position its name maps to, names are unique, and lookup by name and by index agree. Variables and constraints are stored in creation order with exactly the type, bounds, sense, right-hand side and coefficients requested, automatically generated names never collide with existing ones, and the counts per variable type are right. A rejected operation (duplicate name, unknown variable, invalid sense, inverted bounds, bad coefficient format) raises and leaves the tables coherent.",
     ["histories", "inputs"], "all finite sequences of public construction, removal and clear operations, including rejected ones",
     "Tests run a few fixed histories; an invariant must survive every history, including those with failing operations.",
     ["problems/quadratic_program.py", "problems/variable.py", "problems/constraint.py"],
     [("variable creation and naming", "problems/quadratic_program.py"), ("constraint creation/removal", "problems/quadratic_program.py"), ("bounds checks", "problems/variable.py")],
     [("variable/constraint lists and index dictionaries", "registry whose coherence is the invariant")])

prop("C04", "Feasibility reports are exact",
     "For every program and every point of the right length, the feasibility query reports a variable as violated if and only if its value lies outside its bounds, and a constraint as violated if and only if the constraint's left-hand side at the point does not satisfy its sense and right-hand side (equality up to floating-point closeness); both lists are in program order without duplicates, and the point is feasible if and only if both lists are empty. A point of the wrong length is rejected.",
     ["inputs"], "all programs and all points",
     "Tests check two fixed problems; exactness is a statement over all constraint kinds, senses, bounds and points.",
     ["problems/quadratic_program.py"],
     [("get_feasibility_info / is_feasible", "problems/quadratic_program.py")])

prop("C05", "Variable substitution preserves the problem",
     "For every program and every valid substitution of variables by constants or by non-zero multiples of other (not themselves substituted) variables, the resulting program has exactly the remaining variables, and at every point its objective value and each surviving constraint's truth equal those of the original program at the extended point; bounds of remaining variables are tightened exactly so that the substituted variables' bounds hold too. Whenever a substituted value, a resulting bound pair or a constraint that lost all its variables is contradictory, the result is flagged infeasible, and otherwise it is flagged valid. Invalid substitutions (same variable twice, zero multiplier, by itself, by a variable that is itself substituted) are rejected, and the original program is never modified.",
     ["inputs"], "all programs, all substitution maps, all points",
     "Tests cover a few fixed substitutions; preservation is a polynomial identity and an equivalence over all points.",
     ["problems/quadratic_program.py"],
     [("substitution of variables, expressions, constraints", "problems/quadratic_program.py")])

prop("C06", "Slack conversion preserves solutions and objective",
     "For every program and every slack mode, the inequality-to-equality conversion yields a program with only equality constraints, the same objective and original variables plus slack variables, such that every feasible point of the original (with integer-valued variables and coefficients wherever an integer slack is used) extends to a feasible point of the converted program by some slack values within their bounds, and every feasible point of the converted program restricts to a feasible point of the original with the same objective value. Interpreting a converted point returns exactly the original variables' values in order. The input program is not modified, float coefficients with the integer mode and unknown modes are rejected.",
     ["inputs", "configurations"], "all programs with bounded variables, all three modes, all points",
     "Tests compare slack names and a few bounds on fixed problems; the bijection between solution sets needs all coefficients, bounds, signs and right-hand sides.",
     ["converters/inequality_to_equality.py"],
     [("slack creation and bounds of the left-hand side", "converters/inequality_to_equality.py"), ("interpret", "converters/inequality_to_equality.py")])

prop("C07", "Binary encoding of integers is exact",
     "For every program with integer variables of finite integral bounds, the integer-to-binary conversion produces a program without integer variables in which the encoded value of each integer variable ranges over exactly its integers from lower to upper bound, and at every binary point the converted objective value and the truth of each constraint equal those of the original program at the interpreted point. Non-integer variables, constraint names and senses, and the objective sense are preserved, and a program without integer variables is returned as an equal copy. The input program is not modified.",
     ["inputs"], "all programs (linear and quadratic terms between any kinds of variables), all bounds, all points",
     "Tests compare a few fixed conversions coefficient by coefficient; negative lower bounds with cross terms are never exercised.",
     ["converters/integer_to_binary.py"],
     [("encoding coefficients", "converters/integer_to_binary.py"), ("substitution into linear and quadratic terms", "converters/integer_to_binary.py"), ("interpret", "converters/integer_to_binary.py")])

prop("C08", "The penalty objective is exactly the penalised objective",
     "For every program whose constraints are all linear equalities (no quadratic constraints), the penalty conversion yields an unconstrained program over the same variables whose objective at every point is the original objective plus (for minimisation) or minus (for maximisation) penalty times the sum of squared constraint residuals. When no penalty is given and all constraint coefficients are integral and all variables binary, the chosen penalty makes every infeasible binary point strictly worse than every feasible one, is recomputed on every conversion, and the penalty used is reported. Inequality constraints are rejected, interpretation is the identity (rejecting wrong lengths), and the input program is not modified.",
     ["inputs", "configurations"], "all programs with linear equality constraints, all penalties including automatic, all points",
     "Tests pin a few fixed coefficient dictionaries; exact-penalty sufficiency needs all objectives, constraints and points.",
     ["converters/linear_equality_to_penalty.py"],
     [("penalty expansion", "converters/linear_equality_to_penalty.py"), ("automatic penalty", "converters/linear_equality_to_penalty.py")])

prop("C09", "The QUBO pipeline preserves the optimum",
     "For every program with linear constraints, integral constraint coefficients and bounded binary/integer variables, conversion to QUBO yields only binary variables and no constraints, and every QUBO point that encodes a feasible point with matching slack has that point's original objective value while every other QUBO point is strictly worse than the best one (automatic penalty), so that interpreting any QUBO optimum gives a feasible optimum of the original. Programs with continuous variables, quadratic constraints, or inequality constraints with non-integral coefficients are rejected with an error. A converter instance behaves on each conversion as a fresh instance would, and the input program is not modified.",
     ["inputs", "histories", "configurations"], "all compatible and incompatible programs, all points, all reuse sequences of one converter",
     "Tests solve a few instances; optimum preservation across the composed converters needs all programs and points.",
     ["converters/quadratic_program_to_qubo.py", "converters/inequality_to_equality.py", "converters/integer_to_binary.py", "converters/linear_equality_to_penalty.py"],
     [("pipeline convert/interpret and compatibility check", "converters/quadratic_program_to_qubo.py")])

prop("C10", "Ising Hamiltonians carry the objective as energy",
     "For every unconstrained binary program, the diagonal entry of the exported Ising operator at each computational basis state (qubit i holding variable i) plus the exported offset equals the objective at that bitstring, negated for maximisation. Importing an operator made of identity, single-Z and double-Z Pauli terms (in any order, with repeated terms, with either the linear or the quadratic representation of single terms) gives a minimisation program over one binary variable per qubit whose objective at each bitstring equals the operator's energy plus the given offset. Programs with constraints or non-binary variables, and operators with other Pauli terms, are rejected.",
     ["inputs"], "all unconstrained binary programs, all Ising operators, all bitstrings",
     "Tests compare fixed operators of 4 qubits; the energy identity must hold for all coefficients and all basis states.",
     ["problems/quadratic_program.py"],
     [("to_ising", "problems/quadratic_program.py"), ("from_ising", "problems/quadratic_program.py")])

prop("C11", "docplex import and export are faithful",
     "For every supported docplex model, the imported program has the same variables (order, type, bounds, names), and at every point the same objective value and sense and, per constraint, the same left-minus-right value, sense and name, even when variables occur on both sides or repeatedly. Exporting a program to docplex and importing it again gives back the same program up to constraints that have no variables, and importing replaces everything that was in the program before. Unsupported elements (not-equal, indicator or logical constraints, unsupported variable types) are rejected.",
     ["inputs"], "all docplex models with linear/quadratic objectives and constraints; all programs",
     "Tests compare a few fixed models; fidelity quantifies over all expression shapes and points.",
     ["problems/quadratic_program.py"],
     [("from_docplex", "problems/quadratic_program.py"), ("to_docplex", "problems/quadratic_program.py")])

prop("C12", "Optimizer results report true values of the original problem",
     "Whatever converter chain an eigensolver-based optimizer uses, the reported solution, every sample and their objective values are those of the original problem: each objective value equals the original objective at the reported point, the status is success exactly for points feasible in the original problem, the probabilities of samples that describe the same original point add up, the samples are listed with feasible ones first and from best to worst original objective, and the reported solution is the interpretation of the raw sample with the best converted objective. A measured or simulated bitstring assigns qubit i's value to variable i, probabilities are squared amplitudes (or counts divided by shots) with samples below the cut-off dropped, and a result gives values by index, by name and as a dictionary consistently. Sizes that do not match are rejected.",
     ["inputs", "configurations"], "all programs, converter chains, sample multisets, state vectors and count dictionaries",
     "Tests check fixed problems with one solver; ordering, aggregation and bit order need all sample multisets.",
     ["algorithms/optimization_algorithm.py", "algorithms/minimum_eigen_optimizer.py"],
     [("interpretation of samples and results", "algorithms/optimization_algorithm.py"), ("eigenvector to samples", "algorithms/optimization_algorithm.py"), ("eigensolver solve", "algorithms/minimum_eigen_optimizer.py")])

prop("C13", "Recursive elimination returns consistent, truly evaluated solutions",
     "For every program convertible to QUBO and every sequence of correlations its sub-solver reports, the recursive optimizer terminates with a complete assignment in which each eliminated variable takes the value implied by its recorded relation to the variable it was replaced by, the reported objective value is the original objective at the reported point, and the status reflects feasibility in the original problem. Each elimination step replaces a variable by an equal or complementary other variable and keeps the reduced objective equal to the objective at the extended point, and the returned history contains one entry per elimination when requested.",
     ["inputs", "histories", "configurations"], "all programs, all correlation sequences of the sub-solver, all history settings",
     "Tests run two fixed problems with the default correlations; elimination order, sign and chained replacements vary with the sub-solver's samples.",
     ["algorithms/recursive_minimum_eigen_optimizer.py"],
     [("elimination loop and unrolling", "algorithms/recursive_minimum_eigen_optimizer.py"), ("strongest correlation", "algorithms/recursive_minimum_eigen_optimizer.py")])

prop("C14", "Classical optimizers pose and report the right problem",
     "The continuous optimizers hand their numerical back end an objective that equals the program's objective times its sense, and constraint functions that are non-negative (or zero for equalities) exactly where the program's constraints and finite bounds hold, with matching gradients. Among several trials they return the best one for the program's sense, with its objective value as evaluated on the original program and a status that matches feasibility. Incompatible variable types are rejected before solving.",
     ["inputs", "configurations"], "all programs of continuous variables, both senses, all trial counts and trial outcomes",
     "Tests solve a few minimisation problems with few trials; the sign conventions and best-of-trials selection need all senses and trial outcomes.",
     ["algorithms/cobyla_optimizer.py", "algorithms/slsqp_optimizer.py", "algorithms/multistart_optimizer.py", "algorithms/cplex_optimizer.py"],
     [("constraint functions", "algorithms/cobyla_optimizer.py"), ("constraint and gradient functions", "algorithms/slsqp_optimizer.py"), ("multi start selection", "algorithms/multistart_optimizer.py")])

prop("C15", "Graph applications model the problem they name",
     "For every graph (weighted, with isolated nodes, positive or negative weights), the programs built for maximum cut, stable set, vertex cover, clique (of given or maximum size) and graph partition evaluate, at every binary point, to the cut weight, set size, cover size, clique size or cut weight of the encoded node set, and their constraints hold exactly when the encoded set is a stable set, cover, clique (of that size) or balanced partition. Interpreting a solution returns exactly the encoded node sets, for a plain value vector and for a result object alike.",
     ["inputs"], "all simple graphs with weights, all binary points",
     "Tests use one fixed graph per application; the equivalence is over all graphs and all node subsets.",
     ["applications/max_cut.py", "applications/stable_set.py", "applications/vertex_cover.py", "applications/clique.py", "applications/graph_partition.py"],
     [("program construction and interpretation", "applications/max_cut.py"), ("program construction and interpretation", "applications/clique.py")])

prop("C16", "Routing applications model the tours they name",
     "For every weighted complete graph, the travelling-salesman program's constraints hold exactly when the point encodes a permutation of the nodes, its objective is then the length of that closed tour, and interpretation returns the tour in order. The vehicle-routing program's objective is the total length of the used edges, its constraints are exactly the in/out degree, depot degree and subset (sub-tour) conditions for the given number of vehicles and depot, and interpretation returns the depot-to-depot routes the point encodes. Tour length helpers and the coordinate-file reader agree with the coordinates given.",
     ["inputs", "configurations"], "all complete weighted graphs, all vehicle counts and depots, all points",
     "Tests use one fixed random instance; equivalence is over all instances and all points.",
     ["applications/tsp.py", "applications/vehicle_routing.py"],
     [("program construction and interpretation", "applications/tsp.py"), ("program construction and interpretation", "applications/vehicle_routing.py")])

prop("C17", "Set and number applications model the problem they name",
     "For all inputs, the knapsack program maximises total value under the total weight limit, the exact-cover program minimises the number of chosen subsets with every element covered exactly once, the set-packing program maximises the number of chosen subsets with every element covered at most once, and the number-partition program's constraint holds exactly when the two sides have equal sums. Interpreting a solution returns exactly the chosen items, subsets or the two lists of numbers, in input order, for a plain value vector and for a result object alike.",
     ["inputs"], "all item lists, set families and number lists, all binary points",
     "Tests use one fixed instance each; the equivalence is over all instances and points.",
     ["applications/knapsack.py", "applications/exact_cover.py", "applications/set_packing.py", "applications/number_partition.py"],
     [("program construction and interpretation", "applications/knapsack.py"), ("program construction and interpretation", "applications/exact_cover.py")])

prop("C18", "ADMM splits the problem without changing it",
     "For every program with binary and continuous variables, the splitting optimizer's blocks select exactly the constraints over binary variables, over continuous variables and over both with the right coefficients, right-hand sides and signs, and its two subproblems minimise the binary part (plus the squared residuals of the binary equalities) and the continuous part of the (sense-adjusted) original objective plus the multiplier and penalty terms over the variables they share, with the binary variables relaxed to [0, 1] in the second one. The reported point puts each value at its variable's position in the original order, the reported value is the original objective at that point in the original sense, the status reflects feasibility in the original problem, the recorded cost, residual and merit values have one entry per iteration, the iterate with the least merit is returned, and the input program is not modified.",
     ["inputs", "configurations", "histories"], "all mixed binary/continuous programs, both senses, all iteration histories",
     "Tests solve a few small problems to a tolerance; block extraction and index mapping must be exact for all interleavings of variable types.",
     ["algorithms/admm_optimizer.py"],
     [("block extraction and subproblem construction", "algorithms/admm_optimizer.py"), ("solution assembly and result", "algorithms/admm_optimizer.py")])

prop("C19", "Grover search reports true values and decodes measurements exactly",
     "For every QUBO and every sequence of measurement outcomes, the threshold optimizer returns a point whose reported objective value is the original objective at that point in the original sense, and the value read from the measured value register is interpreted as a signed two's-complement number relative to the current threshold: a measurement is accepted exactly when it is below the best value found so far, and the last accepted point (or the all-zero point if it is already optimal) is the one returned. The encoded oracle coefficients equal those of the sense-adjusted QUBO objective, qubit i of the key register is variable i, and the input program is not modified.",
     ["inputs", "histories"], "all QUBOs, all measurement sequences, both senses",
     "Tests solve three fixed problems statistically; correctness must hold for every measurement history.",
     ["algorithms/grover_optimizer.py"],
     [("search loop, threshold and two's complement decoding", "algorithms/grover_optimizer.py")])

prop("C20", "Randomised rounding and warm starts keep solutions consistent",
     "For every unconstrained binary max-cut program, the rounding optimizer recovers the graph's weights from the program, reports for each cut the true original objective at the cut's assignment, returns each distinct cut once up to complement in best-first order, with the best one as result. The warm-start layer clamps relaxed values into the regularised interval, prepares each qubit i so that measuring it yields one with the clamped probability of variable i, hands the pre-solver a relaxed copy in which binary variables become continuous on the same range and nothing else changes, and aggregates samples of several runs by averaging the probabilities of equal assignments.",
     ["inputs", "configurations"], "all max-cut programs, all relaxed solutions, all sample multisets",
     "Tests run fixed instances; recovery of weights, uniqueness and averaging must hold for all inputs.",
     ["algorithms/goemans_williamson_optimizer.py", "algorithms/warm_start_qaoa_optimizer.py"],
     [("weight extraction, cut evaluation, unique cuts", "algorithms/goemans_williamson_optimizer.py"), ("clamping, state preparation, aggregation, relaxation", "algorithms/warm_start_qaoa_optimizer.py")])

prop("C21", "Quantum and ADMM heuristics find the optimum",
     "Given enough repetitions, iterations or circuit depth, the quantum (variational, amplitude-amplification, recursive, warm-started) and splitting heuristics return an optimal solution of the original problem.",
     ["inputs", "schedules"], "all problems, all random outcomes",
     "Tests check a few seeded runs; optimality is probabilistic and asymptotic.",
     ["algorithms/grover_optimizer.py", "algorithms/admm_optimizer.py", "algorithms/warm_start_qaoa_optimizer.py"],
     [("search heuristics", "algorithms/grover_optimizer.py")])

prop("C22", "LP files round-trip the program",
     "Writing a program to an LP file and reading it back gives a program with the same name, variables, objective and constraints up to the number formatting of the LP format.",
     ["inputs"], "all programs and file names",
     "Tests round-trip one fixed file.",
     ["problems/quadratic_program.py"],
     [("read_from_lp_file / write_to_lp_file", "problems/quadratic_program.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
