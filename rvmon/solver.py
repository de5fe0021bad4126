"""Whose fault is a wrong optimum: the model's or the solver's?

CBC itself now and then (about once in 5000 small models) returns a solution
that is not optimal.  The models handed to it are recorded, so that this can be
told from a wrong model: the same model, solved by the same default solver
again and with parts of the solver switched off, has a better solution then.
"""
import math

OTHER_WAYS = (["preprocess off"], ["cuts off"], ["presolve off"],
              ["preprocess off", "presolve off", "cuts off",
               "heuristics off"])


class Models:
    """with Models() as m: ...; m.seen are the models solved meanwhile."""

    def __enter__(self):
        import pulp
        self.cls = pulp.LpProblem
        self.orig = orig = self.cls.solve
        self.seen = seen = []

        def solve(prob, *args, **kwargs):
            out = orig(prob, *args, **kwargs)
            seen.append((prob.copy(), result(prob)))
            return out
        self.cls.solve = solve
        return self

    def __exit__(self, *_):
        self.cls.solve = self.orig

    def solver_errs(self):
        """Does the default solver miss the optimum of a sane model?"""
        return any(self._errs(p, v) for p, v in self.seen)

    def _errs(self, prob, value):
        if not sane(prob):
            return False
        again = self._solve(prob, [])
        if not close(again, value):
            return False    # not solved by default means
        return any(better(self._solve(prob, o), again) for o in OTHER_WAYS)

    def _solve(self, prob, options):
        import pulp
        prob = prob.copy()
        self.orig(prob, pulp.solvers.PULP_CBC_CMD(options=options))
        return result(prob)


def result(prob):
    import pulp
    if prob.status != pulp.LpStatusOptimal:
        return math.inf
    return float(pulp.value(prob.objective) or 0)


def close(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b))


def better(a, b):
    return a < b and not close(a, b)


def sane(prob):
    """No coefficients that a solver may legitimately lose."""
    top = max((abs(c) for c in prob.objective.values()), default=0)
    rows = [max((abs(c) for c in row.values()), default=0)
            for row in prob.constraints.values()]
    return top >= 100 and all(r == 0 or .9 <= r <= 1e5 for r in rows)
