"""Numeric co-processor for the specification: evaluates the exact terms that the TLA+ modules
produce (see spec/LogLin.tla) with 50 significant digits.  No law is written here."""
import math, struct
from fractions import Fraction
from functools import lru_cache
import mpmath
from mpmath import mp, mpf

mp.dps = 50


def num(a):
    m, d, e = a
    f = Fraction(m, d)
    return f * (Fraction(2) ** e)


def key(a):
    return tuple(tuple(x) for x in a)


@lru_cache(maxsize=None)
def _fr(m, d, e):
    return num((m, d, e))


@lru_cache(maxsize=None)
def tomp(fr):
    return mpf(fr.numerator) / mpf(fr.denominator)


@lru_cache(maxsize=200000)
def _fn(kind, args):
    s = tomp(sum(_fr(*a) for a in args))
    if kind == "ln":
        return mpmath.log(s)
    if kind == "lg":
        return mpmath.loggamma(s)
    raise ValueError(kind)


LNPI = mpmath.log(mpmath.pi)


class Val:
    """an extended real with the scale of the sum it came from"""
    __slots__ = ("v", "scale")

    def __init__(self, v, scale):
        self.v = v
        self.scale = scale


def ll(x):
    """value of an LL: Val(mpf or -inf, sum of magnitudes)"""
    if x["ni"]:
        return Val(-mpmath.inf, mpf(0))
    const = Fraction(0)
    tot = mpf(0)
    scale = mpf(0)
    for c, kind, args in x["t"]:
        cf = _fr(*c)
        if kind == "1":
            const += cf
            scale += abs(tomp(cf))
            continue
        cm = tomp(cf)
        v = LNPI if kind == "pi" else _fn(kind, key(args))
        tot += cm * v
        scale += abs(cm) * (abs(v) + 1)
    for c, parts in x["s"]:
        vs = [ll(p) for p in parts]
        m = max(v.v for v in vs)
        t = m + mpmath.log(sum(mpmath.exp(v.v - m) for v in vs))
        cm = tomp(_fr(*c))
        tot += cm * t
        scale += abs(cm) * (abs(t) + 1 + max(v.scale for v in vs if v.v >= m - 60))
    return Val(tot + tomp(const), scale)


def unbits(s):
    if s == "nan":
        return math.nan
    return struct.unpack(">d", bytes.fromhex(s))[0]


def bits(x):
    if x != x:
        return "nan"
    return struct.pack(">d", x).hex()


def f64(fr):
    """nearest double (Fraction -> float is correctly rounded)"""
    try:
        return float(fr)
    except OverflowError:
        return math.inf if fr > 0 else -math.inf


def f32_exact(x):
    try:
        return struct.unpack(">f", struct.pack(">f", x))[0] == x
    except OverflowError:
        return False


EPS = {"f64": mpf(1e-12), "f32": mpf(3e-6)}
HUGE = {"f64": mpf("1.7e308"), "f32": mpf("3.4e38")}


def close(got, want, width="f64", mult=1, floor=1):
    """is the float `got` the extended real `want` up to rounding?"""
    if not isinstance(got, float):
        return False
    v = want.v
    if v == -mpmath.inf or v == mpmath.inf:
        return got == float(v)
    if math.isnan(got):
        return False
    if math.isinf(got):
        return abs(v) > HUGE[width] / 4 and (got > 0) == (v > 0)
    tol = EPS[width] * mult * (want.scale + abs(v) + floor * mpf(0.05))
    return abs(mpf(got) - v) <= tol


def show(v):
    if isinstance(v, Val):
        v = v.v
    if isinstance(v, mpf):
        return mpmath.nstr(v, 17)
    return repr(v)


# ---- ground terms (spec/Terms.tla) ------------------------------------------------------------------
class Ambiguous(Exception):
    """too close to call, or beyond what double precision can represent"""


class Undefined(Exception):
    """the term has no value (division by zero, logarithm of a non-positive number, ...)"""


class Soft(Undefined):
    """undefined for a reason other than the four errors an evaluator reports (negative^fraction, 0^-1)"""


ENV = {}          # values of the variables of a term
SLACK = 0         # extra rounding units that evaluating ln and exp may lose
DEMOTE = False    # treat a rational that no float of the width holds as inexact
# what the width of the floats can represent, and how close a comparison may come
LIMITS = {"f64": dict(mant=53, amb=mpf(1e-12), cmp=mpf(1e-9), big=mpf(10) ** 290, tiny=mpf(10) ** -290, expmax=660, trig=10 ** 6),
          "f32": dict(mant=24, amb=mpf(5e-6), cmp=mpf(1e-4), big=mpf(10) ** 36, tiny=mpf(10) ** -36, expmax=80, trig=10 ** 3)}
W = LIMITS["f64"]
NARROW = False    # the leaves themselves may be out of range of the width


def set_width(w):
    global W, NARROW
    W, NARROW = LIMITS[w], w == "f32"


def representable(f):
    d = f.denominator
    if d & (d - 1) or d.bit_length() > 1000:
        return False
    m = f.numerator
    return m == 0 or (abs(m).bit_length() < 1000 and (abs(m) >> ((m & -m).bit_length() - 1)).bit_length() <= W["mant"])


INF = mpmath.inf


def _m(v):
    return tomp(v) if isinstance(v, Fraction) else v


def _mag(v):
    return abs(_m(v))


def _chk(v):
    a = abs(v)
    if a > W["big"] and a != INF or (a != 0 and a < W["tiny"]):
        raise Ambiguous
    return v


def term(t):
    """(value, scale): value is a Fraction while exact, else mpf; scale bounds, in units of the
    rounding unit, what evaluating the term in floating point can lose"""
    o, a = t["o"], t["a"]
    if o == "q":
        f = num(a[0])
        if NARROW:
            _chk(tomp(f))
        return f, abs(tomp(f))
    if o == "ll":
        v = ll(a[0])
        return v.v, v.scale
    if o == "v":
        if a[0] not in ENV:
            raise Undefined
        f = ENV[a[0]]
        if NARROW:
            _chk(tomp(f))
        return f, abs(tomp(f))
    if o == "bits":
        x = unbits(a[0])
        if x != x or x in (math.inf, -math.inf):
            raise Ambiguous
        f = Fraction(x)
        return f, abs(tomp(f))
    if o == "ninf":
        return -INF, mpf(0)
    if o == "if":
        return term(a[1]) if cond(a[0]) else term(a[2])
    if o == "touch":
        v, _ = term(a[0])
        _chk(_m(v))
        return term(a[1])
    if o == "sum":
        v, s = Fraction(0), mpf(0)
        for x in a:
            v, s = _add((v, s), term(x))
        return v, s
    if o == "lse":
        vs = [term(x) for x in a]
        m = max((_m(v) for v, _ in vs), default=-INF)
        if m == -INF:
            return -INF, mpf(0)
        r = m + mpmath.log(sum(mpmath.exp(_m(v) - m) for v, _ in vs))
        return r, abs(r) + 1 + 2 * SLACK + max(s for v, s in vs if _m(v) >= m - 60)
    xs = [term(x) for x in a]
    v, s = OPS[o](*xs)
    if DEMOTE and isinstance(v, Fraction) and not representable(v):
        v = tomp(v)
    return v, s


def _add(x, y):
    (u, s), (v, w) = x, y
    if _m(u) == -INF or _m(v) == -INF:
        if INF in (_m(u), _m(v)):
            raise Undefined
        return -INF, mpf(0)
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        r = u + v
    else:
        r = _m(u) + _m(v)
    return r, s + w + _mag(r)


def _neg(x):
    return -x[0], x[1]


def _mul(x, y):
    (u, s), (v, w) = x, y
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        r = u * v
    elif (isinstance(u, Fraction) and u == 0) or (isinstance(v, Fraction) and v == 0):
        return Fraction(0), mpf(0)
    else:
        r = _m(u) * _m(v)
    _chk(_m(r))
    return r, _mag(u) * w + _mag(v) * s + _mag(r)


def _div(x, y):
    (u, s), (v, w) = x, y
    if v == 0:
        raise Undefined if isinstance(v, Fraction) else Ambiguous
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        r = u / v
    else:
        if not isinstance(v, Fraction) and abs(v) <= W["amb"] * w:
            raise Ambiguous
        r = _m(u) / _m(v)
    _chk(_m(r))
    return r, (s + _mag(r) * w) / _mag(v) + _mag(r)


def _ln(x):
    u, s = x
    if isinstance(u, Fraction):
        if u <= 0:
            raise Undefined
        if u == 1 and s <= 4:
            return Fraction(0), s
    else:
        if abs(u) <= W["amb"] * s:
            raise Ambiguous
        if u <= 0:
            raise Undefined
    r = mpmath.log(_m(u))
    return r, s / _mag(u) + abs(r) + SLACK


def _exp(x):
    u, s = x
    if _m(u) == -INF:
        return Fraction(0), mpf(0)
    if abs(_m(u)) > W["expmax"]:
        raise Ambiguous
    if isinstance(u, Fraction) and u == 0 and not SLACK:
        return Fraction(1), 1 + s
    r = mpmath.exp(_m(u))
    return r, r * (s + 1 + SLACK)


def _sqrt(x):
    u, s = x
    if isinstance(u, Fraction):
        if u < 0:
            raise Undefined
        if u == 0:
            return Fraction(0), mpmath.sqrt(s * mpf(2) ** -52) * mpf(2) ** 52 if s else mpf(0)
        a, b = math.isqrt(u.numerator), math.isqrt(u.denominator)
        if a * a == u.numerator and b * b == u.denominator:
            r = Fraction(a, b)
            return r, s / (2 * tomp(r)) + tomp(r)
    else:
        if abs(u) <= W["amb"] * s:
            raise Ambiguous
        if u < 0:
            raise Undefined
    r = mpmath.sqrt(_m(u))
    return r, s / (2 * r) + r


def _trig(f, x):
    u, s = x
    if _mag(u) > W["trig"]:
        raise Ambiguous
    if isinstance(u, Fraction) and u == 0:
        return Fraction(0 if f is mpmath.sin else 1), s + 1
    r = f(_m(u))
    return r, s + 1


def _pow(x, y):
    (u, s), (v, w) = x, y
    if isinstance(v, Fraction) and v.denominator == 1 and abs(v) < 10000:
        k = int(v)
        if u == 0 and k < 0:
            raise Soft
        if k == 0:
            return Fraction(1), mpf(1)
        if not isinstance(u, Fraction) and k < 0 and abs(u) <= W["amb"] * s:
            raise Ambiguous
        big = abs(k) * max(abs(mpmath.log(_mag(u))), 0) if u != 0 else 0
        if big > W["expmax"]:
            raise Ambiguous
        r = u ** k if isinstance(u, Fraction) and abs(k) <= 400 else _m(u) ** k
        if u == 0:
            return Fraction(0), mpf(0) if s == 0 else s
        return r, abs(k) * _mag(r) / _mag(u) * s + (abs(k) + 1) * _mag(r)
    if u < 0 and isinstance(v, Fraction) and v.denominator == 1:
        r, t = _pow((-u, s), y)
        return (r if int(v) % 2 == 0 else -r), t
    if u < 0 and not isinstance(v, Fraction) and abs(v - mpmath.nint(v)) <= W["amb"] * w:
        raise Ambiguous
    if isinstance(u, Fraction):
        if u < 0:
            raise Soft
        if u == 0:
            if _m(v) > 0:
                return Fraction(0), mpf(0)
            raise Soft
        if u == 1 and s <= 2:
            return Fraction(1), mpf(1)
    else:
        if abs(u) <= W["amb"] * s:
            raise Ambiguous
        if u < 0:
            raise Soft
    l = mpmath.log(_m(u))
    if abs(l * _m(v)) > W["expmax"]:
        raise Ambiguous
    r = mpmath.exp(l * _m(v))
    return r, r * (abs(_m(v)) * s / _mag(u) + abs(l) * w + abs(l * _m(v)) + 1)


OPS = {"+": _add, "-": lambda x, y: _add(x, _neg(y)), "neg": _neg, "*": _mul, "/": _div, "ln": _ln, "exp": _exp,
       "sqrt": _sqrt, "sin": lambda x: _trig(mpmath.sin, x), "cos": lambda x: _trig(mpmath.cos, x), "pow": _pow,
       "abs": lambda x: (abs(x[0]), x[1])}


def _cmp(a):
    (u, s), (v, w) = term(a[0]), term(a[1])
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        return (u > v) - (u < v)
    d = _m(u) - _m(v)
    if abs(d) <= W["cmp"] * (s + w):
        raise Ambiguous
    return 1 if d > 0 else -1


def cond(c):
    o, a = c["o"], c["a"]
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "and":
        return cond(a[0]) and cond(a[1])
    if o == "unbound":
        return a[0] not in ENV
    if o == "or":
        return cond(a[0]) or cond(a[1])
    if o == "not":
        return not cond(a[0])
    r = _cmp(a)
    return {"lt": r < 0, "le": r <= 0, "eq": r == 0}[o]


def tval(t):
    """Val of a ground term (raises Ambiguous / Undefined)"""
    v, s = term(t)
    return Val(_m(v), s)
