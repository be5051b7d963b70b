"""What a Gurobi model built by the repository accepts, read back from the model itself."""
import math
import common


class View:
    """acceptance of a point by a model whose variables are all in `groups` (lists of gurobi variables)"""

    def __init__(self, model, groups):
        from gurobipy import GRB
        self.GRB = GRB
        model.update()
        self.model = model
        self.vars = model.getVars()
        self.groups = [[v.index for v in g] for g in groups]
        known = {i for g in self.groups for i in g}
        self.extra = [v.index for v in self.vars if v.index not in known]
        self.lin = []
        for c in model.getConstrs():
            row = model.getRow(c)
            try:
                lazy = c.Lazy
            except Exception:
                lazy = 0
            self.lin.append(([(row.getVar(k).index, row.getCoeff(k)) for k in range(row.size())], c.Sense, c.RHS, lazy))
        self.ind = []
        self.other = model.NumQConstrs + model.NumSOS
        for g in model.getGenConstrs():
            if g.GenConstrType == GRB.GENCONSTR_INDICATOR:
                bv, val, e, sense, rhs = model.getGenConstrIndicator(g)
                self.ind.append((bv.index, int(val), [(e.getVar(k).index, e.getCoeff(k)) for k in range(e.size())],
                                 e.getConstant(), sense, rhs))
            else:
                self.other += 1
        o = model.getObjective()
        self.obj = {}
        self.objc = o.getConstant()
        for k in range(o.size()):
            j = o.getVar(k).index
            self.obj[j] = self.obj.get(j, 0.0) + o.getCoeff(k)
        self.sense = model.ModelSense

    def direct(self):
        return not self.extra and not self.other

    def accepts(self, *vals, tol=1e-7):
        if not self.direct():
            return self.solve_fixed(vals)
        x = {}
        for g, v in zip(self.groups, vals):
            for i, a in zip(g, v):
                x[i] = float(a)
        for v in self.vars:
            a = x[v.index]
            if a < v.LB - tol or a > v.UB + tol:
                return False
            if v.VType in ('B', 'I') and abs(a - round(a)) > tol:
                return False
            if v.VType == 'B' and not -tol <= a <= 1 + tol:
                return False
        for coef, sense, rhs, lazy in self.lin:
            if lazy < 0:        # a user cut is not a constraint of the model
                continue
            if not self.holds(sum(c * x[i] for i, c in coef), sense, rhs, tol):
                return False
        for b, val, coef, const, sense, rhs in self.ind:
            if round(x[b]) == val and not self.holds(sum(c * x[i] for i, c in coef) + const, sense, rhs, tol):
                return False
        return True

    @staticmethod
    def holds(l, sense, rhs, tol):
        tol = tol * max(1.0, abs(rhs))
        return l <= rhs + tol if sense == '<' else l >= rhs - tol if sense == '>' else abs(l - rhs) <= tol

    def solve_fixed(self, vals):
        m = self.model.copy()
        m.Params.OutputFlag = 0
        m.Params.FeasibilityTol = 1e-9
        vs = m.getVars()
        for g, v in zip(self.groups, vals):
            for i, a in zip(g, v):
                a = float(a)
                if a < vs[i].LB - 1e-7 or a > vs[i].UB + 1e-7 or (vs[i].VType in 'BI' and abs(a - round(a)) > 1e-7):
                    return False
                vs[i].LB = vs[i].UB = a
        m.setObjective(0)
        m.optimize()
        return m.Status == self.GRB.OPTIMAL

    def objective(self, group, vals):
        return self.objc + sum(self.obj.get(i, 0.0) * float(a) for i, a in zip(self.groups[group], vals))


def listvars(tup, n):
    """variables of a tupledict, list or MVar in index order"""
    out = []
    for j in range(n):
        v = tup[j]
        out.append(v.item() if hasattr(v, 'item') and not hasattr(v, 'index') else v)
    return out
