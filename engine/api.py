"""what contract modules import"""
CONTRACTS = []


class ContractDef(object):
    def __init__(self, fn, title, targets, budget, seeds, sym, nmax, timeout, thorough_only, search):
        self.search = search
        self.fn, self.title, self.targets, self.budget, self.seeds = fn, title, targets, budget, seeds
        self.sym, self.nmax, self.timeout, self.thorough_only = sym, nmax, timeout, thorough_only
        self.name = fn.__name__


def contract(title, targets=(), budget=60, seeds=150, sym=True, nmax=5, timeout=4.0, thorough_only=False, search=10, again=True):
    """register a contract. targets: functions of the repository it specifies (documentation + evidence);
    sym=False: bounded native check only (labelled as such); why in the title;
    again: natively, also after an earlier call of the same function with other arguments (False: never; names: not of these)"""
    def deco(fn):
        fn.again = again
        CONTRACTS.append(ContractDef(fn, title, tuple(targets), budget, seeds, sym, nmax, timeout, thorough_only, search))
        return fn
    return deco
