"""Code that fails some calls below the code of a node."""


def outer(n=0):
    return inner(n)


def inner(n):
    return [middle(v) for v in [n]]


def middle(n):
    raise ValueError('deep')
