From b06a8f93287cfb60482329ce1d38e5de7a4a497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 01/27] fix: register variable and constraint names only after
 the element was built

---
 qiskit_optimization/problems/quadratic_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..a2b2e01 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -224,8 +224,8 @@ class QuadraticProgram:
                     "Variable name already exists: {}".format(indexed_name)
                 )
             names.append(indexed_name)
-            self._variables_index[indexed_name] = self.get_num_vars()
             variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
+            self._variables_index[indexed_name] = self.get_num_vars()
             self._variables.append(variable)
             variables.append(variable)
         return names, variables
@@ -646,10 +646,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +739,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +746,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From f4d9962f87636f0fc0e416d802b98f1bf6107c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 02/27] fix: scale linear cross terms by the encoding
 coefficients in IntegerToBinary

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..b9027ba 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From 47525aae47c287005748b814557eea92dd266efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 03/27] fix: IntegerToBinary handles integer variables with
 equal bounds

---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b9027ba..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From 77e86247a5cc51b3b7d2536c7f4e7c956e282562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 04/27] fix: to_ising returns a zero operator for a zero
 Hamiltonian

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index a2b2e01..bec9f7c 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1322,12 +1322,12 @@ class QuadraticProgram:
         # Remove paulis whose coefficients are zeros.
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
-        # qubit_op could be the integer 0, in this case return an identity operator of
+        # qubit_op could be the integer 0, in this case return a zero operator of
         # appropriate size
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = (0.0 * I) ^ num_nodes
 
         return qubit_op, offset
 
-- 
2.43.0


From 59c582364c289c0f55b12545338642751c66a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 05/27] fix: from_ising accumulates repeated Pauli terms and
 accepts identity terms

---
 qiskit_optimization/problems/quadratic_program.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index bec9f7c..d307349 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1373,10 +1373,9 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        pauli_list = qubit_op.to_pauli_op()
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
@@ -1388,10 +1387,12 @@ class QuadraticProgram:
             num_z = len(z_index)
 
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+            if num_z == 0:
+                offset += coeff.real
+            elif num_z == 1:
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
-- 
2.43.0


From fa3a22148f6116b94af60df0abc47037b4d8943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 06/27] fix: multi start compares trials of maximization
 problems in the same sense

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 3298eb9b3afab283faccc51df96f2a96ebee9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 07/27] fix: parse_gset_format stores the edge weight instead
 of the node index

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..73cb92e 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, w__ = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = w__
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From 9d54814e659e038f899f694c64ae1fafcd1a6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 08/27] fix: parse_tsplib_format strips header values and stops
 at EOF

---
 qiskit_optimization/applications/tsp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..a39b7f8 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -160,11 +160,9 @@ class Tsp(GraphOptimizationApplication):
             coord_section = False
             for line in infile:
                 if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
+                    name = line.split(":")[1].strip()
                 elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,14 +171,15 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
+                elif line.startswith("EOF"):
+                    break
                 elif coord_section:
                     v = line.split()
                     index = int(v[0]) - 1
-- 
2.43.0


From 7476367737ddaef648fe07c5f69693d3d883a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 09/27] fix: store coefficients as floats so that integer
 inputs are not truncated

---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From d8497327c4d2ddb9b093f2a8007ac42ce67980fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 10/27] fix: substitute_variables flags contradictory bounds as
 infeasible instead of raising

---
 .../problems/quadratic_program.py             | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index d307349..e784a3f 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1669,21 +1669,22 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    lowerbound = max(lb_j, new_lb_i)
+                    upperbound = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
-
-        for var in self._dst.variables:
-            if var.lowerbound > var.upperbound:
-                logger.warning(
-                    "Infeasible lower and upper bound: %s %f %f",
-                    var,
-                    var.lowerbound,
-                    var.upperbound,
-                )
-                feasible = False
+                    lowerbound = max(lb_j, new_ub_i)
+                    upperbound = min(ub_j, new_lb_i)
+                if lowerbound > upperbound:
+                    logger.warning(
+                        "Infeasible lower and upper bound: %s %f %f",
+                        var_j,
+                        lowerbound,
+                        upperbound,
+                    )
+                    feasible = False
+                else:
+                    var_j.lowerbound = lowerbound
+                    var_j.upperbound = upperbound
 
         return feasible
 
-- 
2.43.0


From 9ab7bf82690a2bf586861efc114b5c8b001ea2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 11/27] fix: reject chained variable substitutions in any order

---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index e784a3f..365b5de 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1621,7 +1621,7 @@ class SubstituteVariables:
                     raise QiskitOptimizationError(
                         "Cannot substitute the same variable twice: {} <- {} {}".format(i, j, v)
                     )
-                if j_2 in subs:
+                if j_2 in subs or any(i_2 == name for name, _ in subs.values()):
                     raise QiskitOptimizationError(
                         "Cannot substitute by variable that gets substituted itself: "
                         "{} <- {} {}".format(i, j, v)
-- 
2.43.0


From c4708fb20f0a2baa2ae3043465b610e62e31c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 12/27] fix: bit order of sampled eigenstates follows the qubit
 order of the Ising operator

---
 qiskit_optimization/algorithms/optimization_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..85551fa 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -540,7 +540,8 @@ class OptimizationAlgorithm(ABC):
             eigenvector = eigenvector.to_matrix()
 
         def generate_solution(bitstr, qubo, probability):
-            x = np.fromiter(list(bitstr), dtype=int)
+            # qubit 0, i.e., the rightmost bit, corresponds to the first variable
+            x = np.fromiter(list(bitstr[::-1]), dtype=int)
             fval = qubo.objective.evaluate(x)
             return SolutionSample(
                 x=x,
@@ -567,7 +568,7 @@ class OptimizationAlgorithm(ABC):
             for i, sampling_probability in enumerate(probabilities):
                 # add the i-th state if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")[::-1]
+                    bitstr = "{:b}".format(i).rjust(num_qubits, "0")
                     solutions.append(generate_solution(bitstr, qubo, sampling_probability))
 
         else:
-- 
2.43.0


From d35981fe8bb89e3116b38fdbc83cacdc9b7184c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 13/27] fix: Goemans-Williamson reports a failed SDP instead of
 raising on the result size

---
 qiskit_optimization/algorithms/goemans_williamson_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..a0a0e13 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,7 +156,7 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
+                x=None,
                 fval=0,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-- 
2.43.0


From 32e66470eef50cd74f0d93f39a4abc954849ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 14/27] fix: recursive optimizer does not modify the problem
 when no converter copies it

---
 .../algorithms/recursive_minimum_eigen_optimizer.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..a8ad89c 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,7 +224,8 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
+        # work on a copy because the objective function is updated in place below
+        problem_ = deepcopy(self._convert(problem, self._converters))
         problem_ref = deepcopy(problem_)
 
         # run recursive optimization until the resulting problem is small enough
-- 
2.43.0


From f218e2313c058c49b95ab1536d7448ff085f59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 15/27] fix: recursive optimizer keeps the bounds of a variable
 replaced by a complement

---
 .../algorithms/recursive_minimum_eigen_optimizer.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index a8ad89c..1545732 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -275,6 +275,11 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                     else:
                         problem_.objective.linear[k] = 0
 
+                # 1c. shift the bounds of x_i accordingly
+                var_i = problem_.variables[i]
+                var_i.lowerbound -= 1
+                var_i.upperbound -= 1
+
                 # 2. replace x_i by -x_j
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
-- 
2.43.0


From d99eabe7cfc344f2c5b3b788eeac070fb88f6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 16/27] fix: Grover optimizer does not modify the problem when
 no converter copies it

---
 qiskit_optimization/algorithms/grover_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..adcf702 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,7 +173,8 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
+        # work on a copy because the objective function is updated in place below
+        problem_ = deepcopy(self._convert(problem, self._converters))
         problem_init = deepcopy(problem_)
 
         # convert to minimization problem
-- 
2.43.0


From 77e08d7747c7824cd9269a319b872e13e3ca0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 17/27] fix: Grover samples sum up the probabilities over the
 value register

---
 qiskit_optimization/algorithms/grover_optimizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index adcf702..565f832 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -262,9 +262,12 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
-                        self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
-                        }
+                        key_probs = {}  # type: Dict[str, float]
+                        for bits, amplitude in self._circuit_results.items():
+                            # rightmost bit corresponds to the first variable
+                            key = bits[0:n_key][::-1]
+                            key_probs[key] = key_probs.get(key, 0.0) + amplitude ** 2
+                        self._circuit_results = key_probs
 
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
-- 
2.43.0


From 8f346b0f62c7dd5e11caacf7e1e9c7df15459153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 18/27] fix: ADMM saves the iterates of y separately from those
 of z

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From e3c2246580887941280bd7f276b9d88dbe5d11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 19/27] fix: ADMM step 1 includes all binary variables of the
 objective and the equalities

---
 qiskit_optimization/algorithms/admm_optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..f927a23 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -536,6 +536,9 @@ class ADMMOptimizer(OptimizationAlgorithm):
         # here we keep binary indices from the original problem
         step1_absolute_indices = []
 
+        # symmetric form, because a variable may appear only in the column of the triangular form
+        quadratic = self._state.op.objective.quadratic.to_array(symmetric=True)
+
         # iterate over binary variables and put all binary variables mentioned in the objective
         # to the array for the step1
         for binary_index in self._state.binary_indices:
@@ -543,8 +546,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             # either in the linear or quadratic terms
             if (
                 self._state.op.objective.linear[binary_index] != 0
-                or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
-                != 0
+                or np.abs(quadratic[binary_index, :]).sum() != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +561,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From 0a45fb42a377cce63a406bcc814388ed35006dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 20/27] fix: ADMM decreases rho when the dual residual
 dominates

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index f927a23..1443206 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -824,7 +824,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From f24823f234ffa0a134049133033e886e73cac351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 21/27] fix: warm-start QAOA aggregates samples of several runs
 in the original variables

---
 .../algorithms/warm_start_qaoa_optimizer.py   | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..a806dd2 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,28 +66,25 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: tuple of fval, probability, status
+        dict_samples: Dict[
+            Tuple[float, ...], Tuple[float, float, OptimizationResultStatus]
+        ] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
                 # state, fval, prob = sample[0], sample[1], sample[2]
-                state, fval, prob = (
-                    _to_string(sample.x),
+                state, fval, prob, status = (
+                    tuple(float(v) for v in sample.x),
                     sample.fval,
                     sample.probability,
+                    sample.status,
                 )
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
+                    dict_samples[state] = (fval, dict_samples[state][1] + prob, status)
                 else:
-                    dict_samples[state] = (fval, prob)
+                    dict_samples[state] = (fval, prob, status)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
@@ -95,10 +92,10 @@ class MeanAggregator(BaseAggregator):
         for state in dict_samples:
             # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
             sample = SolutionSample(
-                x=_from_string(state),
+                x=np.array(state),
                 fval=dict_samples[state][0],
                 probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+                status=dict_samples[state][2],
             )
             aggregated_samples.append(sample)
 
@@ -336,15 +333,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples are already translated back to the original variables
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From 5f7ac45ae151e50b0c64138d94768b338f351b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 22/27] fix: automatic slack mode uses continuous slacks for
 constraints with continuous variables

---
 .../converters/inequality_to_equality.py      | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..a3cea91 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -14,7 +14,7 @@
 import copy
 import logging
 import math
-from typing import List, Optional, Union
+from typing import Iterable, List, Optional, Union
 
 import numpy as np
 
@@ -248,8 +248,10 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", rhs, name)
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        # If a coefficient or a variable that is not integer exist, use a continuous slack variable
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_any_continuous_variable(linear):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -330,9 +332,12 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.quadratic_constraint(new_linear, quadratic, "==", rhs, name)
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
-        # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        # If a coefficient or a variable that is not integer exist, use a continuous slack variable
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_any_continuous_variable(linear)
+            or any(self._contains_any_continuous_variable(pair) for pair in quadratic)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
@@ -392,6 +397,19 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_x[i] = sol[var.name]
         return new_x
 
+    def _contains_any_continuous_variable(self, names: Iterable[str]) -> bool:
+        """Check whether any of the variables with the given names is continuous.
+
+        Args:
+            names: Names of the variables
+
+        Returns:
+            bool: If any of the variables is continuous, this returns True, else False.
+        """
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
     @staticmethod
     def _contains_any_float_value(values: List[Union[int, float]]) -> bool:
         """Check whether the list contains float or not.
-- 
2.43.0


From fe808b52e0cd3a13abb9a4ceffd1e5dd54ad4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 23/27] fix: parse_tsplib_format hands the node positions over
 as a dictionary

---
 qiskit_optimization/applications/tsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index a39b7f8..4e1a454 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -191,8 +191,10 @@ class Tsp(GraphOptimizationApplication):
         y_max = max(coord_[1] for coord_ in coord)
         y_min = min(coord_[1] for coord_ in coord)
 
+        pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
+
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=pos
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From 66e8bcf9bee85e03ab80976c5801cf6550835918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:59 +0000
Subject: [PATCH 24/27] fix: ADMM step 2 removes the whole binary part of the
 objective

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 1443206..20eed55 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -698,6 +698,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices:
+                op2.objective.quadratic[var_index, other_index] = 0
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From c6c9464fa318716ff7752a8514563de7b8ac95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 25/27] fix: slack variables of a linear and a quadratic
 constraint with the same name do not clash

---
 .../converters/inequality_to_equality.py          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a3cea91..c7920b4 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -177,6 +177,13 @@ class InequalityToEquality(QuadraticProgramConverter):
 
         return self._dst
 
+    def _get_slack_name(self, name, suffix):
+        # A linear and a quadratic constraint may have the same name
+        slack_name = name + self._delimiter + suffix
+        while slack_name in self._dst.variables_index:
+            slack_name = slack_name + self._delimiter
+        return slack_name
+
     def _add_integer_slack_var_linear_constraint(self, linear, sense, rhs, name):
         # If a coefficient that is not integer exist, raise error
         if self._contains_any_float_value(linear.values()):
@@ -193,7 +200,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._get_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -221,7 +228,7 @@ class InequalityToEquality(QuadraticProgramConverter):
         self._dst.linear_constraint(new_linear, "==", new_rhs, name)
 
     def _add_continuous_slack_var_linear_constraint(self, linear, sense, rhs, name):
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._get_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_linear_bounds(linear)
 
@@ -275,7 +282,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._get_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -304,7 +311,7 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_continuous_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # Add a new continuous variable.
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._get_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
-- 
2.43.0


From 5902bf6333dc0c32c4c972aa06845a34f0b3bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:23 +0000
Subject: [PATCH 26/27] fix: from_ising honours the phase of a Pauli

---
 qiskit_optimization/problems/quadratic_program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 365b5de..baa6bf6 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1380,7 +1380,8 @@ class QuadraticProgram:
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
             pauli = pauli_op.primitive
-            coeff = pauli_op.coeff
+            # a Pauli may carry a phase, e.g. Pauli('-ZZ')
+            coeff = pauli_op.coeff * (-1j) ** pauli.phase
             # Count the number of Pauli Zs in a Pauli term
             lst_z = pauli.z.tolist()
             z_index = [i for i, z in enumerate(lst_z) if z is True]
-- 
2.43.0


From e894cca663fdd43b9a54604ba3a400974c3177b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:42 +0000
Subject: [PATCH 27/27] fix: export constraints without variables to docplex

A constraint whose left side has no terms was built as the comparison of two
numbers, which docplex rejects (numpy right-hand sides, infeasible constraints)
or drops; ADMMOptimizer.solve failed through its debug output. Start from an
empty docplex expression.
---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index baa6bf6..c814248 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1068,7 +1068,7 @@ class QuadraticProgram:
             rhs = l_constraint.rhs
             if rhs == 0 and l_constraint.linear.coefficients.nnz == 0:
                 continue
-            linear_expr = 0
+            linear_expr = mdl.linear_expr()
             for j, v in l_constraint.linear.to_dict().items():
                 linear_expr += v * var[cast(int, j)]
             sense = l_constraint.sense
@@ -1092,7 +1092,7 @@ class QuadraticProgram:
                 and q_constraint.quadratic.coefficients.nnz == 0
             ):
                 continue
-            quadratic_expr = 0
+            quadratic_expr = mdl.linear_expr()
             for j, v in q_constraint.linear.to_dict().items():
                 quadratic_expr += v * var[cast(int, j)]
             for (j, k), v in q_constraint.quadratic.to_dict().items():
-- 
2.43.0

