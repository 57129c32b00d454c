"""On/off counting inferences from their definitions, in log space (math.lgamma) and in exact arithmetic."""
from fractions import Fraction
from math import exp, factorial, lgamma, log


def lcoef(n1, n0):
    return [lgamma(n1 + n0 - k + 1) - lgamma(n1 - k + 1) - lgamma(k + 1) for k in range(n1 + 1)]


def lse(l):
    m = max(l)
    return m + log(sum(exp(x - m) for x in l))


def lterms(s, n1, t1, n0, t0, co=None):
    """Logs of the terms of the marginal likelihood for signal s."""
    co = co or lcoef(n1, n0)
    if s == 0:
        return co[:1]
    lt = log(s*(t1 + t0))
    return [k*lt + c - s*t1 for k, c in enumerate(co)]


def probs(n1, t1, n0, t0):
    """Probabilities that i of the on counts are from the signal."""
    lf = log(1 + t0/t1)
    l = [i*lf + lgamma(n1 + n0 - i + 1) - lgamma(n1 - i + 1) for i in range(n1 + 1)]
    z = lse(l)
    return [exp(x - z) for x in l]


def lnorm(n1, t1, n0, t0, co=None):
    """Log of the integral of the marginal likelihood over s."""
    co = co or lcoef(n1, n0)
    lt = log(t1 + t0)
    return lse([c + k*lt + lgamma(k + 1) - (k + 1)*log(t1) for k, c in enumerate(co)])


def exact_probs(n1, t1, n0, t0):
    f = 1 + Fraction(t0)/Fraction(t1)
    l = [f**i*factorial(n1 + n0 - i)/factorial(n1 - i) for i in range(n1 + 1)]
    z = sum(l)
    return [x/z for x in l]


def exact_like(s, n1, t1, n0, t0):
    """The marginal likelihood without the exponential, and its s-derivative without the exponential."""
    s, t1, t0 = Fraction(s), Fraction(t1), Fraction(t0)
    c = [Fraction(factorial(n1 + n0 - k), factorial(n1 - k)*factorial(k))*(t1 + t0)**k for k in range(n1 + 1)]
    v = sum(x*s**k for k, x in enumerate(c))
    d = sum(k*x*s**(k - 1) for k, x in enumerate(c) if k)
    return v, d - t1*v
