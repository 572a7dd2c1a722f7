"""Registry of contracts."""
REG = {}


class Contract:
    def __init__(self, prop, name, fn, targets, sym, samples, tol, limit, why, conc, max_paths, clause):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.sym, self.samples, self.tol, self.limit = sym, samples, tol, limit
        self.why, self.conc, self.max_paths, self.clause = why, conc, max_paths, clause


def contract(prop, name, targets, sym=True, samples=(24, 240), tol=1e-8, limit=90, why=None, conc=True,
             max_paths=600, clause=""):
    """Register harness fn(ctx) as a contract of `targets` (functions of /repo).

    sym=False marks a bounded stand-in (`why` says what is out of the verifier's reach)."""
    def deco(fn):
        REG.setdefault(prop, []).append(
            Contract(prop, name, fn, targets, sym, samples, tol, limit, why, conc, max_paths,
                     clause or (fn.__doc__ or "").strip()))
        return fn
    return deco
