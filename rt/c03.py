"""C03 runtime contracts: registry coherence over operation histories."""
from common import *

RULE = ("random histories of 1-14 public operations including rejected ones, compared step by step with a "
        "list model; distinct = different history")
SYN = {"<=": ["<=", "<", "L", "LE", "le"], ">=": [">=", ">", "G", "GE", "ge"], "==": ["==", "=", "E", "EQ", "eq"]}


def gen(r, tier):
    total = 2500 if tier == "quick" else 12000
    for _ in range(total):
        ops = []
        for _ in range(r.randint(1, 14)):
            nm = r.choice(["x", "y", "z", "x0", "x1", "x2", "a", "a1", None, None, "x10", "c0", "c1", "q0", "q1"])
            op = r.choice(["var", "var", "var", "vars", "vars", "lc", "lc", "lc", "qc", "qc", "rml", "rmq", "badvar", "badlc",
                           "badqc", "clear" if r.random() < .3 else "var", "dup", "rmbad", "lcn", "setb", "badsetb"])
            if op in ("lc", "qc") and r.random() < .8:
                nm = r.choice([None, None, None] + [op[0].replace("l", "c") + str(k) for k in range(6)])
            elif op == "var" and r.random() < .3:
                nm = r.choice([None, "x%d" % r.randint(0, 6)])
            t = r.choice("bic")
            lb = r.randint(-3, 3)
            ops.append([op, nm, t, lb, lb + r.randint(0, 3), r.choice(list(SYN)), r.randint(0, 4), r.randint(-3, 3),
                        r.choice(["", "{}", "_{}", "_{}_", "{}{}"] if op == "vars" else ["{}"]),
                        r.choice([1, 2, 3, 0, ["a", "b"], [1, 2], ["k"], ["s", "s"]]), r.choice(["list", "dict"])])
        yield {"k": "history", "ops": ops}


def run(c):
    from qiskit_optimization import QuadraticProgram, QiskitOptimizationError
    from qiskit_optimization.problems.variable import VarType
    q = QuadraticProgram("p")
    V, LC, QC = [], [], []
    tt = {"b": VarType.BINARY, "i": VarType.INTEGER, "c": VarType.CONTINUOUS}
    ERR = (QiskitOptimizationError, KeyError, IndexError, TypeError, ValueError)

    def names(lst):
        return [e[0] for e in lst]

    def addvar(t, lb, ub, nm):
        if t == "b":
            return q.binary_var(nm) if nm is not None else q.binary_var()
        f = q.integer_var if t == "i" else q.continuous_var
        return f(lb, ub, nm) if nm is not None else f(lb, ub)

    def addvars(t, keys, lb, ub, nm, kf, how):
        kw = {"keys": keys, "key_format": kf}
        if nm is not None:
            kw["name"] = nm
        if t != "b":
            kw.update(lowerbound=lb, upperbound=ub)
        f = getattr(q, {"b": "binary", "i": "integer", "c": "continuous"}[t] + "_var_" + how)
        return f(**kw)

    for step, (op, nm, t, lb, ub, s, k, rhs, kf, keys, how) in enumerate(c["ops"]):
        what = "step %d %s" % (step, op)
        n = len(V)
        b = (0, 1) if t == "b" else (lb, ub)
        coef = [[i, i + 1.5] for i in range(n) if (i + k) % 2 == 0]
        qcoef = [[i, j, i - j + .5] for i in range(n) for j in range(i, n) if (i * j + k) % 3 == 0]
        if op == "var":
            if nm is not None and nm in names(V):
                require(raises(lambda: addvar(t, lb, ub, nm), ERR), "%s: duplicate variable accepted", what)
            else:
                v = addvar(t, lb, ub, nm)
                if nm is None:
                    require(v.name not in names(V) and v.name.startswith("x"), "%s: generated name %s", what, v.name)
                else:
                    require(v.name == nm, "%s: name", what)
                V.append((v.name, t) + b)
                require(q.variables[-1] is v, "%s: not appended", what)
        elif op == "vars":
            bad = kf.count("{}") > 1 or (isinstance(keys, int) and keys < 1)
            base = "x" if nm is None else nm
            if not bad and isinstance(keys, list):
                cand = [base + kf.format(x) for x in keys]
                bad = len(set(cand)) < len(cand) or any(x in names(V) for x in cand)
            elif not bad and "{}" not in kf:
                cand = [base + kf] * keys
                bad = keys > 1 or cand[0] in names(V)
            else:
                cand = None
            if bad:
                before = len(q.variables)
                require(raises(lambda: addvars(t, keys, lb, ub, nm, kf, how), ERR), "%s: invalid batch accepted", what)
                # a rejected batch may have added a coherent prefix
                for v in q.variables[before:]:
                    V.append((v.name, t) + b)
            else:
                res = addvars(t, keys, lb, ub, nm, kf, how)
                vs = list(res.values()) if how == "dict" else res
                m = keys if isinstance(keys, int) else len(keys)
                require(len(vs) == m, "%s: %d variables returned", what, len(vs))
                if how == "dict":
                    require(all(key == v.name for key, v in res.items()), "%s: dict keys", what)
                if cand:
                    require([v.name for v in vs] == cand, "%s: names %s expected %s", what, [v.name for v in vs], cand)
                for v in vs:
                    require(v.name not in names(V), "%s: generated name collides %s", what, v.name)
                    if cand is None:
                        pre, post = kf.split("{}")
                        require(v.name.startswith(base + pre) and v.name.endswith(post), "%s: name %s", what, v.name)
                    V.append((v.name, t) + b)
        elif op in ("lc", "lcn"):
            arg = {i: v for i, v in coef} if k % 2 else {V[i][0]: v for i, v in coef}
            sn = SYN[s][k]
            nm2 = nm if op == "lc" else None
            if nm2 in names(LC):
                require(raises(lambda: q.linear_constraint(arg, sn, rhs, nm2), ERR), "%s: duplicate accepted", what)
            else:
                con = q.linear_constraint(arg, sn, rhs, nm2) if nm2 else q.linear_constraint(arg, sn, rhs)
                require(con.name not in names(LC), "%s: generated name collides %s", what, con.name)
                LC.append((con.name, [[i, float(v)] for i, v in coef], s, float(rhs)))
        elif op == "qc":
            arg = {(i, j): v for i, j, v in qcoef} if k % 2 else {(V[i][0], V[j][0]): v for i, j, v in qcoef}
            la = {i: v for i, v in coef}
            if nm in names(QC):
                require(raises(lambda: q.quadratic_constraint(la, arg, SYN[s][k], rhs, nm), ERR), "%s: duplicate accepted", what)
            else:
                con = q.quadratic_constraint(la, arg, SYN[s][k], rhs, nm) if nm else q.quadratic_constraint(la, arg, SYN[s][k], rhs)
                require(con.name not in names(QC), "%s: generated name collides %s", what, con.name)
                QC.append((con.name, [[i, float(v)] for i, v in coef], [[i, j, float(v)] for i, j, v in qcoef], s, float(rhs)))
        elif op == "rml" and LC:
            i = k % len(LC)
            q.remove_linear_constraint(i if rhs % 2 else LC[i][0])
            del LC[i]
        elif op == "rmq" and QC:
            i = k % len(QC)
            q.remove_quadratic_constraint(i if rhs % 2 else QC[i][0])
            del QC[i]
        elif op == "rmbad":
            require(raises(lambda: q.remove_linear_constraint("nope"), ERR), "%s accepted", what)
            require(raises(lambda: q.remove_quadratic_constraint(len(QC)), ERR), "%s accepted", what)
        elif op == "badvar":
            require(raises(lambda: q.integer_var(ub + 1, lb, "bad%d" % step), ERR), "%s: inverted bounds accepted", what)
            require(raises(lambda: q.continuous_var_list(2, ub + 1, lb, "bb%d" % step), ERR), "%s: inverted bounds accepted", what)
        elif op == "badlc":
            require(raises(lambda: q.linear_constraint({}, "?", 0, "bad%d" % step), ERR), "%s: bad sense accepted", what)
            require(raises(lambda: q.linear_constraint({"nope": 1}, "<=", 0, "bad%d" % step), ERR), "%s: unknown variable accepted", what)
            require(raises(lambda: q.linear_constraint("xx", "<=", 0), ERR), "%s: bad format accepted", what)
        elif op == "badqc":
            require(raises(lambda: q.quadratic_constraint({}, {}, "!=", 0, "bad%d" % step), ERR), "%s: bad sense accepted", what)
            require(raises(lambda: q.quadratic_constraint({}, {("nope", "nope"): 1}, "<=", 0), ERR), "%s: unknown variable accepted", what)
        elif op == "dup" and V:
            require(raises(lambda: q.continuous_var(0, 1, V[k % n][0]), ERR), "%s: duplicate accepted", what)
        elif op == "setb" and V:
            i = k % n
            nlb, nub = min(lb, V[i][2]), max(ub, V[i][3])
            q.variables[i].lowerbound = nlb
            q.variables[i].upperbound = nub
            V[i] = V[i][:2] + (nlb, nub)
        elif op == "badsetb" and V:
            i = k % n

            def lo():
                q.variables[i].lowerbound = V[i][3] + 1

            def hi():
                q.variables[i].upperbound = V[i][2] - 1
            require(raises(lo, ERR) and raises(hi, ERR), "%s: inverted bounds accepted", what)
        elif op == "clear":
            q.clear()
            V, LC, QC = [], [], []
            require(q.name == "" and q.objective.constant == 0 and not q.objective.linear.to_dict(), "%s: objective/name kept", what)
            require(q.status.name == "VALID", "%s: status", what)
        v = coherent(q, what)
        require([tuple(e) for e in v["vars"]] == V, "%s: variables %s expected %s", what, v["vars"], V)
        require([tuple(e) for e in v["lcs"]] == LC, "%s: linear constraints %s expected %s", what, v["lcs"], LC)
        require([tuple(e) for e in v["qcs"]] == QC, "%s: quadratic constraints %s expected %s", what, v["qcs"], QC)
        cnt = {x: sum(1 for e in V if e[1] == x) for x in "bic"}
        require((q.get_num_vars(), q.get_num_binary_vars(), q.get_num_integer_vars(), q.get_num_continuous_vars()) ==
                (len(V), cnt["b"], cnt["i"], cnt["c"]), "%s: counts", what)
        require((q.get_num_vars(VarType.BINARY), q.get_num_linear_constraints(), q.get_num_quadratic_constraints()) ==
                (cnt["b"], len(LC), len(QC)), "%s: counts", what)
