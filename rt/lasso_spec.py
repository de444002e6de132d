"""GR(1) specifications judged on lasso-shaped words."""
from rt import expr as X
from rt import gr1, ltl


def rand_parts(rng, env, sys, n=(0, 1, 1, 2), depth=2, primed=True):
    """Random formulas for each part, as `rt.expr` trees."""
    allv = {**env, **sys}
    parts = dict()
    for k in gr1.PARTS:
        pr = ()
        if primed and k == 'env_safety':
            pr = tuple(env)
        if primed and k == 'sys_safety':
            pr = tuple(allv)
        parts[k] = [
            X.rand_expr(rng, allv, rng.randint(0, depth), pr)
            for _ in range(rng.choice(n))]
    return parts


def trees(parts):
    return {k: [ltl.of_expr(e) for e in es] for k, es in parts.items()}


def words(rng, vrs, n):
    return [ltl.rand_lasso(rng, vrs, X.domain_values) for _ in range(n)]


def as_ints(w, vrs):
    """The same word, with strings as positions in their domains."""
    def f(a):
        return {k: vrs[k].index(v) if isinstance(vrs[k], list) else v
                for k, v in a.items()}
    stem = [f(a) for a in w.word[:w.back]]
    loop = [f(a) for a in w.word[w.back:]]
    return ltl.Lasso(stem, loop)
