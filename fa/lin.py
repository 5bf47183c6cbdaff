"""Polyhedral helper: entailment of linear inequalities by variable elimination, and null spaces."""
from fractions import Fraction
from .terms import lin_parts, lin_make


def infeasible(cons, limit=400):
    """cons: list of (dict atom->coef, const) meaning sum+const <= 0.  True only if contradictory."""
    rows = []
    for d, c in cons:
        d = {x: k for x, k in d.items() if k}
        if not d:
            if c > 0:
                return True
            continue
        rows.append((d, c))
    while rows:
        cnt = {}
        for d, _ in rows:
            for x, k in d.items():
                p = cnt.setdefault(x, [0, 0])
                p[0 if k > 0 else 1] += 1
        x = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1] - cnt[v][0] - cnt[v][1], v.id))
        pos = [r for r in rows if r[0].get(x, 0) > 0]
        neg = [r for r in rows if r[0].get(x, 0) < 0]
        rest = [r for r in rows if not r[0].get(x, 0)]
        seen = set()
        for dp, cp in pos:
            for dn, cn in neg:
                a, b = dp[x], -dn[x]
                d = {}
                for v, k in dp.items():
                    d[v] = d.get(v, 0) + k * b
                for v, k in dn.items():
                    d[v] = d.get(v, 0) + k * a
                d.pop(x, None)
                d = {v: k for v, k in d.items() if k}
                c = cp * b + cn * a
                if not d:
                    if c > 0:
                        return True
                    continue
                m = max(abs(k) for k in d.values())
                key = (tuple(sorted((v.id, Fraction(k, m)) for v, k in d.items())), Fraction(c, m))
                if key in seen:
                    continue
                seen.add(key)
                rest.append((d, c))
        if len(rest) > limit:
            return False
        rows = rest
    return False


def entails(facts, goal, bound):
    """facts: iterable of linear terms (<=0); goal: linear term.  True if goal <= 0 follows.
    bound(atom) -> (lo, hi) with None for unbounded."""
    items, c = lin_parts(goal)
    rel = set(x for x, _ in items)
    pool = [(dict(lin_parts(f)[0]), lin_parts(f)[1]) for f in facts]
    used, left = [], pool
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        nl = []
        new = set()
        for d, k in left:
            if rel & d.keys():
                used.append((d, k))
                new |= d.keys()
                changed = True
            else:
                nl.append((d, k))
        rel |= new
        left = nl
        if len(used) > 60:
            break
    cons = list(used)
    # negated goal: goal >= 1  <=>  1 - goal <= 0
    cons.append(({x: -k for x, k in items}, 1 - c))
    for x in rel:
        lo, hi = bound(x)
        if lo is not None:
            cons.append(({x: -1}, lo))
        if hi is not None:
            cons.append(({x: 1}, -hi))
    return infeasible(cons)


def null_space(rows, n):
    """Integer basis of { c in Q^n : for each row, sum(c_i row_i) = 0 }."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for col in range(n):
        p = next((i for i in range(r, len(m)) if m[i][col]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        v = m[r][col]
        m[r] = [x / v for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][col]:
                f = m[i][col]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(col)
        r += 1
    basis = []
    for free in range(n):
        if free in piv:
            continue
        v = [Fraction(0)] * n
        v[free] = Fraction(1)
        for i, col in enumerate(piv):
            v[col] = -m[i][free]
        den = 1
        for x in v:
            den = den * x.denominator // __import__("math").gcd(den, x.denominator)
        basis.append([int(x * den) for x in v])
    return basis
