"""Contract registry (no solver dependency: shared by the symbolic and the concrete runner)."""
CONTRACTS = []
PROPS = {}


def contract(pid, functions=(), assumes=(), paths=400, timeout=None, concrete=True, symbolic=True, samples=60, tags=(), bound=None, supplement=False):
    """register a contract: the body states precondition, call of the real function and postconditions

    functions: the /repo functions whose obligations this contract discharges ("module:qualname")
    assumes:   contracts assumed on callees / dependencies inside this contract
    bound:     structural bound of this contract (None: every input of every size); such a contract proves its functions only within the bound
    supplement: a bounded contract whose statement is also covered without bound by the other contracts of the property
    """
    def deco(f):
        c = dict(pid=pid, name=f.__name__, fn=f, functions=list(functions), assumes=list(assumes), paths=paths,
                 timeout=timeout, concrete=concrete, symbolic=symbolic, samples=samples, bound=bound, supplement=supplement, doc=(f.__doc__ or '').strip())
        CONTRACTS.append(c)
        f.__contract__ = c
        return f
    return deco


class Reject(Exception):
    """sampled input outside the precondition"""


class Failed(Exception):
    """postcondition violated on concrete input"""
    def __init__(self, name, detail=''):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail
