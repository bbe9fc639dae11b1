"""The decorators do nothing: contracts are read by engine/prove.py, and run natively by the bounded checks.

    @contract(module, function, properties, parameter types..., requires=name of a predicate)
    @lemma(properties, parameter types...)    the function must return a true value for all arguments
"""


def contract(*args, **kwargs):
    return lambda f: f


def lemma(*args, **kwargs):
    return lambda f: f


def implies(a, b):
    return (not a) or b


def invariant(f):
    """a loop invariant of the loops that follow: must hold before, and be kept by every iteration"""
