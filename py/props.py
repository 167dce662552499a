"""C23-C27, C30: the Python module against Python's own int.  A case is a plain JSON value; strategy(prop) generates it with
Hypothesis, check(prop, case) runs it and raises Bad when the property fails."""
import array
import bisect
import copy
import ctypes
import math
import operator
import os
import pickle
import platform
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from hypothesis import strategies as st
from pybiginteger import BigInteger as B


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


# ---------------------------------------------------------------- generators
EDGE_LIMBS = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x00ff00ff, 0x80, 0xff, 0x8000]
limb = st.one_of(st.sampled_from(EDGE_LIMBS), st.integers(0, 0xffffffff))


def from_limbs(ls):
    v = 0
    for x in reversed(ls):
        v = v << 32 | x
    return v


magnitude = st.one_of(
    st.integers(0, 300),
    st.builds(lambda k, d: max(0, (1 << k) + d), st.integers(0, 200), st.integers(-2, 2)),
    st.builds(from_limbs, st.lists(limb, min_size=1, max_size=6)),
    st.builds(lambda k, d: max(0, (1 << 8 * k) + d), st.integers(0, 40), st.integers(-2, 2)),
    st.builds(lambda k, d: max(0, (1 << 8 * k - 1) + d), st.integers(1, 40), st.integers(-2, 2)),
    st.builds(from_limbs, st.lists(limb, min_size=7, max_size=45)),
)


def long_number(seed, limbs, kind, d):
    """A number of the given size whose limbs follow from the seed."""
    x, out = seed, []
    for _ in range(limbs):
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        out.append((x >> 32, 0, 0xffffffff, EDGE_LIMBS[x >> 40 & 7])[kind])
    out[0] = out[0] + d & 0xffffffff
    out[-1] = out[-1] or 1 + seed % 3
    return from_limbs(out)


large = st.builds(long_number, st.integers(0, 1 << 32), st.one_of(st.integers(30, 300), st.integers(300, 1200)), st.integers(0, 3), st.integers(-2, 2))
size = st.integers(0, 59)
magnitude_l = size.flatmap(lambda k: large if k == 59 else magnitude)
number = st.builds(lambda m, neg: -m if neg else m, magnitude_l, st.booleans())


def decimal(a):
    """str(a) without Python's limit on its length, which does not apply to the class."""
    lim = sys.get_int_max_str_digits() if hasattr(sys, "get_int_max_str_digits") else 0
    if not lim:
        return str(a)
    sys.set_int_max_str_digits(0)
    try:
        return str(a)
    finally:
        sys.set_int_max_str_digits(lim)
small = st.integers(-5, 5)


# ---------------------------------------------------------------- models
def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def tmod(a, b):
    return a - b * tdiv(a, b)


def tpowmod(a, e, m):
    if abs(m) == 1:
        return 0
    r = pow(abs(a), e, abs(m))
    return -r if a < 0 and e & 1 else r


def twos(a):
    """Shortest little-endian two's complement form, at least one byte."""
    n = (a.bit_length() if a >= 0 else (~a).bit_length()) // 8 + 1
    return a.to_bytes(n, "little", signed=True)


def unsigned(a):
    return a.to_bytes(max(1, (a.bit_length() + 7) // 8), "little")


def raised(f):
    """(True, None) or (False, exception)."""
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001 - whatever the module raises is examined by the caller
        return None, e


def short(v):
    return str(v) if abs(v) < 10 ** 60 else hex(v)


def is_b(x, want, what):
    need(type(x) is B, f"{what}: result is a {type(x).__name__}, not a BigInteger")
    got = int.from_bytes(bytes(x), "little", signed=True)
    need(got == want, f"{what}: got {short(got)}, expected {short(want)}")


def is_i(x, want, what):
    need(type(x) is int, f"{what}: result is a {type(x).__name__}, not an int")
    need(x == want, f"{what}: got {short(x)}, expected {short(want)}")


# ---------------------------------------------------------------- C23 conversions
class MyInt(int):
    pass


def c23_strategy():
    return st.fixed_dictionaries({
        "a": number,
        "bytes": st.one_of(
            st.binary(max_size=40),
            st.builds(lambda b, pad, n: bytes(b) + bytes([pad]) * n, st.binary(max_size=12), st.sampled_from([0, 255, 128, 127]), st.integers(0, 9))),
        "start": st.integers(-12, 12), "stop": st.one_of(st.none(), st.integers(-12, 40)), "step": st.sampled_from([1, 1, 2, 3, -1, -2, 5]),
        "base": st.one_of(st.sampled_from([2.0, 3.0, 10.0, math.e, 0.5, 0.1, 1e300, 1e-300]), st.floats(1.25, 1e6), st.floats(1e-6, 0.8)),
        "leak": st.integers(0, 199).map(lambda x: x == 199),
    })


def c23_check(c):
    a, raw = c["a"], c["bytes"]
    x = B(a)
    is_i(int(x), a, "int(B(a))")
    is_i(operator.index(x), a, "index(B(a))")
    need(str(x) == decimal(a), f"str(B(a)) gave {str(x)[:200]!r}")
    need(bytes(x) == twos(a), f"bytes(B(a)) gave {bytes(x)!r}, expected {twos(a)!r}")
    for be in (False, True):
        w = twos(a)[::-1] if be else twos(a)
        g = x.to_array(is_unsigned=False, is_bigendian=be)
        need(type(g) is bytes and g == w, f"to_array(False, {be}) gave {g!r}, expected {w!r}")
        g, e = raised(lambda: x.to_array(is_unsigned=True, is_bigendian=be))
        if a < 0:
            need(isinstance(e, (OverflowError, RuntimeError)), f"to_array(True, {be}) of a negative number: {g!r} {e!r}")
        else:
            w = unsigned(a)[::-1] if be else unsigned(a)
            need(e is None and g == w, f"to_array(True, {be}) gave {g!r} {e!r}, expected {w!r}")
    need(x.to_array() == twos(a), "to_array() without arguments")
    need(x.to_array(is_bigendian=True) == twos(a)[::-1], "to_array(is_bigendian=True)")
    if a >= 0:
        need(x.to_array(True) == unsigned(a) == x.to_array(is_unsigned=True), "to_array(True)")
    is_b(B(value=a), a, "B(value=a)")
    g, e = raised(lambda: float(x))
    w, we = raised(lambda: float(a))
    need(type(e) is type(we) and g == w, f"float(B(a)) gave {g!r} {e!r}, expected {w!r} {we!r}")
    is_i(int(B(MyInt(a))), a, "B(subclass of int)")
    is_i(int(B(a & 1 == 1)), a & 1, "B(bool)")
    if abs(a) < 1 << 60:
        need(hex(x) == hex(a) and len(range(x, x)) == 0 and [7, 8, 9][B(a % 3)] == 7 + a % 3, "index protocol")
    s = x.sign
    need(s == (a > 0) - (a < 0), f"sign gave {s}")
    need(x.is_even() == (a % 2 == 0), "is_even")
    need(x.is_power_of_two() == (a > 0 and a & (a - 1) == 0), "is_power_of_two")
    bl = a.bit_length() if a >= 0 else (~a).bit_length()
    need(x.get_bit_Length() == bl, f"get_bit_Length gave {x.get_bit_Length()}, expected {bl}")
    base = c.get("base", 3.0)
    if a > 0:
        for name, g, w in (("log", B.log(x), math.log(a)), ("log(int)", B.log(a), math.log(a)), ("log10", B.log10(x), math.log10(a)), ("log10(int)", B.log10(a), math.log10(a)),
                           ("log base", B.log(x, base), math.log(a) / math.log(base)), ("log base (int)", B.log(a, base), math.log(a) / math.log(base)), ("log base (keyword)", B.log(value=x, base_value=base), math.log(a) / math.log(base))):
            need(abs(g - w) <= 1e-12 * max(1e-3, abs(w)), f"{name} gave {g!r}, expected {w!r}")
    d = copy.deepcopy(x)
    l = copy.deepcopy([x, {"k": x}])
    before = x
    d += 1
    is_b(d, a + 1, "deepcopy(B(a)) + 1")
    is_b(l[0], a, "deepcopy([B(a)])")
    is_b(l[1]["k"], a, "deepcopy({k: B(a)})")
    need(d is not before, "deepcopy gave the same object")
    is_b(x, a, "B(a) after its copy changed")
    is_b(B.zero(), 0, "zero()")
    is_b(B.one(), 1, "one()")
    is_b(B.minus_one(), -1, "minus_one()")
    # from buffers of any kind
    w = int.from_bytes(raw, "little", signed=True)
    for what, buf in (("bytes", raw), ("bytearray", bytearray(raw)), ("memoryview", memoryview(raw)), ("array", array.array("B", raw))):
        is_b(B(buf), w, f"B({what})")
    part = slice(c["start"], c["stop"], c["step"])
    for what, buf in (("strided view", memoryview(raw)[part]), ("strided bytearray view", memoryview(bytearray(raw))[part]), ("value=", memoryview(raw)[part])):
        got = B(value=buf) if what == "value=" else B(buf)
        is_b(got, int.from_bytes(raw[part], "little", signed=True), f"B({what} {part})")
    is_b(B(bytes(x)), a, "B(bytes(B(a)))")
    is_b(B(x.to_array(False, True)[::-1]), a, "B(big-endian reversed)")
    if c["leak"]:
        def body():
            y = B(a)
            int(y); str(y); bytes(y); raised(lambda: float(y)); hash(y); y.to_array(False, True); B(raw); B(memoryview(raw)[part]); y + 1; 1 + y; divmod(1, B(7)); y == 3; copy.deepcopy(y)
            raised(lambda: y / 0); raised(lambda: B("x")); raised(lambda: y ** -1); raised(lambda: B(memoryview(raw).cast("b")))
        leakfree(body)


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


_libc = ctypes.CDLL(None)
try:
    _libc.mallinfo2.restype = Mallinfo2
except AttributeError:
    _libc = None


def held():
    m = _libc.mallinfo2() if _libc else None
    return sys.getallocatedblocks(), (m.uordblks + m.hblkhd if m else 0)


def leakfree(body, n=400):
    grew = []
    for attempt in range(4):  # caches may fill on the first rounds
        for _ in range(20):
            body()
        b0, m0 = held()
        for _ in range(n):
            body()
        b1, m1 = held()
        grew = [b1 - b0, m1 - m0]
        if b1 - b0 < n // 2 and m1 - m0 < n * 8:
            return
    raise Bad(f"memory grows: {n} repetitions left {grew[0]} more objects and {grew[1]} more bytes allocated")


# ---------------------------------------------------------------- C24 operators
BIN = {
    "+": (operator.add, lambda a, b: a + b), "-": (operator.sub, lambda a, b: a - b), "*": (operator.mul, lambda a, b: a * b),
    "/": (operator.truediv, tdiv), "//": (operator.floordiv, tdiv), "%": (operator.mod, tmod),
    "&": (operator.and_, lambda a, b: a & b), "|": (operator.or_, lambda a, b: a | b), "^": (operator.xor, lambda a, b: a ^ b),
}
AUG = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod,
       "&": operator.iand, "|": operator.ior, "^": operator.ixor}


class MyB(B):
    pass


CORNERS = sorted({s * ((1 << k) + d) for k in (0, 15, 30, 31, 32, 60, 62, 63, 64, 96, 128) for d in (-1, 0, 1) for s in (1, -1)} | {3, -3, 4})


def corner_pair(i):
    return CORNERS[i // len(CORNERS)], CORNERS[i % len(CORNERS)]


def related(draw_a):
    return st.integers(0, 9).flatmap(lambda k: st.integers(0, len(CORNERS) ** 2 - 1).map(corner_pair) if k == 9 else related_(draw_a))


def related_(draw_a):
    return draw_a.flatmap(lambda a: st.tuples(st.just(a), st.one_of(number, number, small, st.sampled_from([a, -a, ~a]), st.builds(lambda k: a + k, small), st.builds(lambda k, r: a * k + r, number, small))))


def c24_strategy():
    return st.fixed_dictionaries({
        "ab": related(number), "sub": st.booleans(),
        "k": st.one_of(st.integers(-70, 130), st.sampled_from([-64, -33, -32, -31, 31, 32, 33, 64, 96, 1000, -2000])), "e": st.integers(0, 9),
        "exp": magnitude.filter(lambda m: m < 1 << 300), "m": number.filter(lambda m: m != 0)})


def c24_check(c):
    (a, b), k, e, exp, m = c["ab"], c["k"], c["e"], c["exp"], c["m"]
    A, C, K, E = B(a), B(b), B(k), B(e)
    for name, (f, model) in BIN.items():
        if name in ("/", "//", "%") and b == 0:
            continue
        w = model(a, b)
        is_b(f(A, C), w, f"B {name} B")
        is_b(f(A, b), w, f"B {name} int")
        is_i(f(a, C), w, f"int {name} B")
        if c["sub"]:
            is_b(f(A, MyInt(b)), w, f"B {name} subclass of int")
            is_i(f(MyInt(a), C), w, f"subclass of int {name} B")
            is_b(f(A, True), model(a, 1), f"B {name} True")
            is_b(f(MyB(a), C), w, f"subclass of B {name} B")
            is_b(f(A, MyB(b)), w, f"B {name} subclass of B")
        for other in (C, b):
            z = alias = A
            z = AUG[name](z, other)
            is_b(z, w, f"B {name}= {type(other).__name__}")
            is_b(alias, a, f"the other name of the object after {name}=")
        if a != 0 or name not in ("/", "//", "%"):
            is_b(f(A, A), model(a, a), f"x {name} x")
            z = alias = B(a)
            z = AUG[name](z, z)
            is_b(z, model(a, a), f"x {name}= x")
            is_b(alias, a, f"the other name of the object after x {name}= x")
    if b:
        q, r = tdiv(a, b), tmod(a, b)
        for what, pair, chk in (("B,B", divmod(A, C), is_b), ("B,int", divmod(A, b), is_b), ("int,B", divmod(a, C), is_i)):
            need(type(pair) is tuple and len(pair) == 2, f"divmod({what}) gave a {type(pair).__name__}, not a pair")
            chk(pair[0], q, f"divmod({what})[0]")
            chk(pair[1], r, f"divmod({what})[1]")
    if a:
        is_b(divmod(A, A)[0], 1, "divmod(x, x)[0]")
        is_b(divmod(A, A)[1], 0, "divmod(x, x)[1]")
    is_b(K << K if k >= 0 else K >> K, k << k if k >= 0 else k << -k, "shift of x by x")
    is_b(E ** E, e ** e, "x ** x")
    for name, f, w in (("<<", operator.lshift, a << k if k >= 0 else a >> -k), (">>", operator.rshift, a >> k if k >= 0 else a << -k)):
        is_b(f(A, K), w, f"B {name} B")
        is_b(f(A, k), w, f"B {name} int")
        is_i(f(a, K), w, f"int {name} B")
        for other in (K, k):
            z = alias = B(a)
            z = (operator.ilshift if name == "<<" else operator.irshift)(z, other)
            is_b(z, w, f"B {name}= {type(other).__name__}")
            is_b(alias, a, f"the other name of the object after {name}=")
    if abs(a) < 1 << 400:
        w = a ** e
        is_b(A ** E, w, "B ** B")
        is_b(A ** e, w, "B ** int")
        is_b(pow(A, E), w, "pow(B, B)")
        is_i(a ** E, w, "int ** B")
        for other in (E, e):
            z = alias = B(a)
            z = operator.ipow(z, other)
            is_b(z, w, f"B **= {type(other).__name__}")
            is_b(alias, a, "the other name of the object after **=")
    if abs(m) < 1 << 700:
        w = tpowmod(a, exp, m)
        is_b(pow(A, B(exp), B(m)), w, "pow(B, B, B)")
        is_b(pow(A, exp, B(m)), w, "pow(B, int, B)")
        is_b(pow(A, B(exp), m), w, "pow(B, B, int)")
    is_b(-A, -a, "-B")
    is_b(+A, a, "+B")
    is_b(abs(A), abs(a), "abs(B)")
    is_b(~A, ~a, "~B")
    is_b(A, a, "the left operand afterwards")
    is_b(C, b, "the right operand afterwards")
    is_b(K, k, "the shift amount afterwards")


# ---------------------------------------------------------------- C25 errors
TOO_BIG = st.one_of(st.integers(2 ** 31, 2 ** 70), st.integers(-2 ** 70, -2 ** 31 - 1))
OTHERS = ["1.5", "None", "'12'", "[1]", "1j", "object()"]


def c25_strategy():
    return st.fixed_dictionaries({
        "a": number, "neg": magnitude.map(lambda m: -m - 1), "big": TOO_BIG, "other": st.sampled_from(OTHERS), "items": st.binary(min_size=1, max_size=24),
        "e": st.integers(0, 40), "fmt": st.sampled_from("bchHiIlLqQfd"), "after": number})


class NoInit(B):
    def __init__(self):
        pass


def c25_check(c):
    a, neg, big, items = c["a"], c["neg"], c["big"], c["items"]
    x, zero, n = B(a), B(0), B(neg)

    def must(what, f, *kinds):
        r, e = raised(f)
        need(e is not None, f"{what}: no exception, result {r!r:.200}")
        need(isinstance(e, kinds) and not isinstance(e, (SystemError, MemoryError)), f"{what}: {type(e).__name__}: {str(e)[:120]}")

    for what, f in (("B / B(0)", lambda: x / zero), ("B / 0", lambda: x / 0), ("int / B(0)", lambda: a / zero), ("B // B(0)", lambda: x // zero), ("B // 0", lambda: x // 0),
                    ("int // B(0)", lambda: a // zero), ("B % B(0)", lambda: x % zero), ("B % 0", lambda: x % 0), ("int % B(0)", lambda: a % zero), ("divmod(B, B(0))", lambda: divmod(x, zero)),
                    ("divmod(B, 0)", lambda: divmod(x, 0)), ("divmod(int, B(0))", lambda: divmod(a, zero)), ("z / z", lambda: zero / zero), ("z // z", lambda: zero // zero), ("z % z", lambda: zero % zero), ("divmod(z, z)", lambda: divmod(zero, zero)),
                    ("pow(z, z, z)", lambda: pow(zero, zero, zero)), ("pow(x, z, z)", lambda: pow(x, zero, zero)), ("pow(B, B, B(0))", lambda: pow(x, B(c["e"]), zero)),
                    ("pow(B, int, B(0))", lambda: pow(x, c["e"], zero)), ("pow(B, B, 0)", lambda: pow(x, B(c["e"]), 0))):
        must(what, f, RuntimeError, ArithmeticError)
    for what, f in (("B ** negative B", lambda: x ** B(-1 - c["e"])), ("B ** negative int", lambda: x ** (-1 - c["e"])), ("int ** negative B", lambda: a ** B(-1 - c["e"])),
                    ("pow(n, n, n)", lambda: pow(n, n, n)), ("n ** n", lambda: B(-1 - c["e"]) ** B(-1 - c["e"])), ("pow(B, negative B, B)", lambda: pow(x, n, B(7))), ("pow(B, negative int, B)", lambda: pow(x, neg, B(7))), ("pow(B, negative B, int)", lambda: pow(x, n, 7))):
        must(what, f, IndexError, ValueError)
    for what, f in (("B ** too big int", lambda: x ** big), ("B ** too big B", lambda: x ** B(big)), ("int ** too big B", lambda: a ** B(big)), ("B << too big B", lambda: x << B(big)),
                    ("B >> too big B", lambda: x >> B(big)), ("int << too big B", lambda: a << B(big)), ("int >> too big B", lambda: a >> B(big))):
        must(what, f, OverflowError, IndexError)
    for what, f in (("B << too big int", lambda: x << big), ("B >> too big int", lambda: x >> big)):
        must(what, f, Exception)
    must("unsigned bytes of a negative", lambda: n.to_array(True, False), OverflowError, RuntimeError)
    other = eval(c["other"])  # noqa: S307 - one of the constants above
    for what, f in (("B(other)", lambda: B(other)), ("B + other", lambda: x + other), ("other + B", lambda: other + x), ("B - other", lambda: x - other), ("B * other", lambda: x * other if not isinstance(other, (list, str)) else x - other),
                    ("B / other", lambda: x / other), ("B % other", lambda: x % other), ("B & other", lambda: x & other), ("B << other", lambda: x << other), ("B ** other", lambda: x ** other),
                    ("B < other", lambda: x < other), ("B >= other", lambda: x >= other), ("log(other)", lambda: B.log10(other)), ("B()", lambda: B()), ("B(1, 2)", lambda: B(1, 2)), ("to_array(other)", lambda: x.to_array(7, 7, 7))):
        must(what, f, TypeError)
    # buffers of the wrong shape or element type
    raw = items * 8
    must("wrong element type", lambda: B(memoryview(raw).cast(c["fmt"])), RuntimeError, ValueError, TypeError)
    must("two-dimensional buffer", lambda: B(memoryview(items * 2).cast("B", (2, len(items)))), RuntimeError, ValueError, TypeError)
    must("zero-dimensional buffer", lambda: B(ctypes.c_ubyte(items[0])), RuntimeError, ValueError, TypeError)
    must("zero-dimensional bytes", lambda: B(memoryview(items[:1]).cast("B", [])), RuntimeError, ValueError, TypeError)
    must("subclass that never initialises its base", NoInit, TypeError)
    raised(lambda: copy.copy(x))
    raised(lambda: pickle.dumps(x))
    dead = memoryview(bytearray(items))
    dead.release()
    must("released buffer", lambda: B(dead), ValueError, TypeError, RuntimeError, BufferError)
    for base in (0.5, 1.0, 0.0, -1.0, math.inf, math.nan, 2.0):
        for v in (a, 0, -5, 1):
            g, e = raised(lambda: B.log(B(v), base))
            need(e is None and type(g) is float, f"log({short(v)}, {base}) raised {e!r}")
    for v in (neg, -1):
        need(math.isnan(B.log(v)) and math.isnan(B.log10(B(v))), "log of a negative number is not NaN")
    need(B.log(0) == -math.inf, "log of 0 is not -inf")
    # nothing above changed an operand, and the objects still work
    is_b(x, a, "operand after the errors")
    is_b(zero, 0, "zero after the errors")
    is_b(n, neg, "negative operand after the errors")
    is_b(x + B(c["after"]), a + c["after"], "sum after the errors")


# ---------------------------------------------------------------- C26 comparisons and containers
CMP = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}


def c26_strategy():
    pool = st.lists(number, min_size=1, max_size=6).flatmap(lambda p: st.tuples(st.just(p), st.lists(st.tuples(st.integers(0, 5), small), max_size=6)))
    return st.fixed_dictionaries({
        "ab": related(number), "pool": pool,
        "ops": st.lists(st.tuples(st.sampled_from(["set", "get", "del", "add", "discard", "in", "sort", "bisect", "max", "count"]), st.integers(0, 11), st.booleans()), max_size=25)})


def c26_check(c):
    a, b = c["ab"]
    A, C = B(a), B(b)
    for name, f in CMP.items():
        w = f(a, b)
        for what, g in (("B B", f(A, C)), ("B int", f(A, b)), ("int B", f(a, C)), ("B subclass of int", f(A, MyInt(b))), ("subclass of int B", f(MyInt(a), C))):
            need(g is w, f"{what} {name}: got {g!r}")
        need(f(A, A) is f(a, a), f"x {name} x")
        need(f(A, B(a)) is f(a, a), f"x {name} copy of x")
    if a == b:
        need(hash(A) == hash(C), "equal objects with different hashes")
    need(hash(A) == hash(B(bytes(A))), "hash depends on how the object was made")
    need(hash(A) == hash(a), "object equal to an int with a different hash")
    base, more = c["pool"]
    vals = base + [base[i % len(base)] + d for i, d in more]
    objs = [B(v) for v in vals]
    d, md, s, ms, l, ml = {}, {}, set(), set(), [], []
    for i, (op, j, as_int) in enumerate(c["ops"]):
        v = vals[j % len(vals)]
        key = v if as_int else (objs[j % len(vals)] if i & 1 else B(v))
        what = f"step {i} {op} {short(v)}"
        if op == "set":
            d[key] = i; md[v] = i; l.append(key); ml.append(v)
        elif op == "get":
            need(d.get(key) == md.get(v), what)
        elif op == "del":
            need(d.pop(key, None) == md.pop(v, None), what)
        elif op == "add":
            s.add(key); ms.add(v)
        elif op == "discard":
            s.discard(key); ms.discard(v)
        elif op == "in":
            need((key in s) == (v in ms) and (key in d) == (v in md) and (key in l) == (v in ml), what)
        elif op == "sort":
            l.sort(); ml.sort()
            need([int(x) for x in l] == ml, what)
        elif op == "bisect":
            need(bisect.bisect_left(sorted(l), key) == bisect.bisect_left(sorted(ml), v), what)
        elif op == "max":
            if l:
                need(int(max(l)) == max(ml) and int(min(l)) == min(ml), what)
        elif op == "count":
            need(l.count(key) == ml.count(v), what)
        need(len(d) == len(md) and len(s) == len(ms), what + ": different sizes")
    need({int(k): x for k, x in d.items()} == md and {int(x) for x in s} == ms, "final contents")
    for v, o in zip(vals, objs):
        is_b(o, v, "object after the container operations")


# ---------------------------------------------------------------- C27 histories, threads and re-entrancy
class Hook(int):
    """An int whose comparisons run Python code: another conversion, and a chance for another thread."""
    def __lt__(self, other):
        nested(self)
        return int.__lt__(self, other)

    def __gt__(self, other):
        nested(self)
        return int.__gt__(self, other)


class Refuse(int):
    def __lt__(self, other):
        raise ZeroDivisionError("refused by the number")


class Buf:
    """An object that is asked for its bytes, and runs code before it hands them out."""
    def __init__(self, data):
        self.data = data

    def __buffer__(self, flags):
        nested(len(self.data))
        return memoryview(self.data)


def nested(v):
    v = int(v)
    other = (v ^ 0x5DEECE66D) * 3 + 1
    is_b(B(other) + B(v), other + v, "conversion in the middle of another")
    need(int(B(-other)) == -other, "conversion in the middle of another")
    time.sleep(0)
    is_b(B(bytes(B(other))), other, "conversion in the middle of another")


SHARED, OWN = 6, 4
LIMIT_BITS = 5000
OPS27 = (list(BIN) + [n + "=" for n in BIN] + ["<<", ">>", "<<=", ">>=", "**", "pow", "divmod", "cmp"]) * 2 + ["conv", "buf", "copy", "one", "error", "log"] * 3


def c27_strategy():
    step = st.tuples(st.integers(0, len(OPS27) - 1), st.integers(0, SHARED + OWN - 1), st.integers(0, SHARED + OWN - 1), st.integers(0, OWN - 1), st.integers(0, 4))
    prog = st.lists(step, min_size=1, max_size=30)
    progs = st.lists(prog, min_size=1, max_size=4)

    def storm(k):  # every thread in the same function, on objects of its own choice
        s = st.tuples(st.just(k), st.integers(0, SHARED + OWN - 1), st.integers(0, SHARED + OWN - 1), st.integers(0, OWN - 1), st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
        return st.lists(st.lists(s, min_size=8, max_size=30), min_size=3, max_size=4)
    storms = st.integers(0, len(OPS27) - 1).flatmap(storm)
    return st.fixed_dictionaries({"vals": st.lists(number, min_size=SHARED, max_size=SHARED), "progs": st.one_of(progs, progs, storms)})


def c27_step(S, sv, o, m, step):
    """One operation on the thread's own objects o (model m) and the shared ones S (model sv)."""
    k, i, j, d, form = step
    op = OPS27[k]
    x, a = (S[i], sv[i]) if i < SHARED else (o[i - SHARED], m[i - SHARED])
    y, b = (S[j], sv[j]) if j < SHARED else (o[j - SHARED], m[j - SHARED])
    other = (y, b, Hook(b), y, MyInt(b))[form]
    left = a if form == 3 else x  # the int on the left
    chk = is_i if form == 3 else is_b
    what = f"{op} form {form} of {short(a)} and {short(b)}"

    def keep(z, w):
        o[d], m[d] = (z, w) if w.bit_length() <= LIMIT_BITS else (B(w & 0xffffffffffff), w & 0xffffffffffff)

    if op.rstrip("=") in BIN:
        name = op.rstrip("=")
        if name in ("/", "//", "%") and b == 0:
            _, e = raised(lambda: BIN[name][0](left, other))
            need(isinstance(e, Exception), what + ": no error")
            return
        w = BIN[name][1](a, b)
        if op.endswith("="):
            o[d], m[d] = x, a
            o[d] = AUG[name](o[d], other)
            is_b(o[d], w, what)
            is_b(x, a, what + ": the object's other name")
            keep(o[d], w)
        else:
            z = BIN[name][0](left, other)
            chk(z, w, what)
            keep(B(z) if type(z) is int else z, w)
    elif op.startswith(("<<", ">>")):
        n = (b % 331) - 90
        n_ = (B(n), n, Hook(n), B(n), n)[form]
        w = (a << n if n >= 0 else a >> -n) if op[0] == "<" else (a >> n if n >= 0 else a << -n)
        if op.endswith("="):
            z = x
            z = (operator.ilshift if op[0] == "<" else operator.irshift)(z, n_)
            is_b(x, a, what + ": the object's other name")
            is_b(z, w, what)
        else:
            z = (operator.lshift if op[0] == "<" else operator.rshift)(left, n_)
            chk(z, w, what)
        keep(B(z) if type(z) is int else z, w)
    elif op == "**":
        e = b % 5
        w = a ** e
        z = left ** (B(e), e, Hook(e), B(e), e)[form]
        chk(z, w, what)
        keep(B(z) if type(z) is int else z, w)
    elif op == "pow":
        mod = sv[(i + j) % SHARED] or 7
        if abs(mod) < 1 << 700 and abs(b) < 1 << 300:
            w = tpowmod(a, abs(b), mod)
            e = (B(abs(b)), abs(b), Hook(abs(b)), B(abs(b)), B(abs(b)))[form]
            z = pow(x, e, Hook(mod) if form >= 3 else B(mod))
            is_b(z, w, what + f" modulo {short(mod)}")
            keep(z, w)
    elif op == "divmod":
        if b:
            q, r = divmod(left, other)
            chk(q, tdiv(a, b), what)
            chk(r, tmod(a, b), what)
            keep(B(q) if type(q) is int else q, tdiv(a, b))
    elif op == "cmp":
        for name, f in CMP.items():
            need(f(left, other) is f(a, b), f"{name}, {what}")
        need(hash(x) == hash(a), what + ": hash")
    elif op == "conv":
        z = B(Hook(a))
        is_b(z, a, "B(int with a hook)")
        is_i(int(x), a, "int")
        need(str(x) == decimal(a), "str")
        need(bytes(x) == twos(a), "bytes")
        need(operator.index(x) == a, "index")
        if a >= 0:
            need(x.to_array(True, True) == unsigned(a)[::-1], "to_array")
        keep(z, a)
    elif op == "buf":
        data = bytearray(twos(a))
        z = B(Buf(data)) if form < 3 else B(memoryview(data))
        is_b(z, a, "B(buffer)")
        data += b"x"  # the buffer has to be free again
        is_b(z, a, "object after its buffer changed")
        keep(z, a)
    elif op == "copy":
        z = copy.deepcopy(x)
        is_b(z, a, "deepcopy")
        keep(z, a)
    elif op == "one":
        for f, w in ((B.zero, 0), (B.one, 1), (B.minus_one, -1)):
            is_b(f(), w, "constant")
        is_b(-x, -a, "-")
        is_b(~x, ~a, "~")
        is_b(abs(x), abs(a), "abs")
        need(x.is_even() is (a & 1 == 0) and x.sign == (a > 0) - (a < 0), "queries")
        keep(+x, a)
    elif op == "log":
        if a > 0:
            need(B.log10(x) == B.log10(B(a)) and B.log(x) == B.log(a), "log")
            need(float(x) == float(a) if a.bit_length() < 1000 else True, "float")
    elif op == "error":
        bad = [lambda: x + Refuse(5), lambda: B(Refuse(-5)), lambda: x / B(0), lambda: x % 0, lambda: x + None, lambda: x << (1 << 40), lambda: B(memoryview(b"12345678").cast("I")), lambda: pow(x, B(-1), B(3)), lambda: B("1")]
        n = (i * 7 + j + form) % len(bad)
        _, e = raised(bad[n])
        need(isinstance(e, Exception), f"misuse {n} was accepted")
        if n < 2:
            need(type(e) is ZeroDivisionError and str(e) == "refused by the number", f"the number's own error became {type(e).__name__}: {e}")
        del e
        is_b(x, a, "object after a refused operation")


def c27_check(c, reps=1):
    S = [B(v) for v in c["vals"]]
    sv = c["vals"]
    errs = []

    def thread(t, start):
        o, m = [S[(t + i) % SHARED] for i in range(OWN)], [sv[(t + i) % SHARED] for i in range(OWN)]
        try:
            start()
            for n, step in enumerate(c["progs"][t]):
                c27_step(S, sv, o, m, step)
                if n % 5 == 4:
                    for q in range(OWN):
                        is_b(o[q], m[q], f"object {q} after step {n}")
            for q in range(OWN):
                is_b(o[q], m[q], f"object {q} at the end")
        except Bad as e:
            errs.append(f"thread {t}: {e}")
        except Exception as e:  # noqa: BLE001
            errs.append(f"thread {t}: unexpected {type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(reps):
            n = len(c["progs"])
            if n == 1:
                thread(0, lambda: None)
            else:
                bar = threading.Barrier(n)
                ts = [threading.Thread(target=thread, args=(t, bar.wait)) for t in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            for v, x in zip(sv, S):
                is_b(x, v, "shared object at the end")
            need(not errs, "; ".join(errs)[:2000])
    finally:
        sys.setswitchinterval(old)


# ---------------------------------------------------------------- C30 the tools for stub files
LEGACY = {": buffer": ": bytes", "neo3vm::": "", "int_": "int", "bool_": "bool", "from numpy import float64": "", "_Shape = Tuple[int, ...]": ""}
WORDS = ["def", "self", "BigInteger", "float", "->", "None:", "", "    ", "(", ")", "[", "]", ",", "prints", "boolean", "numpy", "a_buffer", "bytes", "typing.Any", "\u00e9\u2028", "\x0c", "class X:", ": str", "neo3vm", "#", "...", "Tuple[int]"]
MACHINES = ["x86_64", "aarch64", "arm64", "i686", "amd64"]


def c30_strategy():
    legacy = st.sampled_from(sorted(LEGACY))
    word = st.tuples(st.sampled_from(WORDS), st.booleans()).map(list)
    token = st.one_of(word, st.tuples(legacy, st.booleans()).map(list))
    line = st.one_of(st.lists(token, max_size=8), st.lists(st.tuples(legacy, st.just(True)).map(list), max_size=4))
    version = st.from_regex(r"[0-9]{1,4}\.[0-9]{1,3}(\.[0-9]{1,3})?((a|b|rc|\.post|\.dev)[0-9]{1,2})?", fullmatch=True)
    decoy = st.tuples(version, st.sampled_from(["cp311-cp311", "cp313-cp313", "cp313-cp313t", "pp310-pypy310_pp73", "cp312-cp312"]), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({"lines": st.lists(line, max_size=8), "end": st.booleans(), "name": st.sampled_from(["pybiginteger", "pybiginteger", "neo3vm", "neo3crypto", "x"]), "version": version,
                                  "tag": st.integers(0, 3), "decoys": st.lists(decoy, max_size=6), "dir": st.sampled_from(["dist", "wheelhouse", "w"]), "extra": st.booleans()})


def c30_text(c):
    """The stub as pybind11-stubgen might write it, and as it ought to be afterwards."""
    before, after = [], []
    for line in c["lines"]:
        b = a = ""
        for t, again in line:
            b += " " + t + (" " if again else "") * 2
            a += " " + LEGACY.get(t, t) + (" " if again else "") * 2
        before.append(b + "\n")
        after.append(a + "\n")
    if c["name"] == "neo3vm":
        after.insert(2, "from pybiginteger import BigInteger\n")
    elif after and not c["end"]:
        before[-1], after[-1] = before[-1][:-1], after[-1][:-1]
    return "".join(before), "".join(after)


def c30_check(c):
    tools = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tools")
    name, machine = c["name"], platform.machine()
    other = [m for m in MACHINES if m != machine]
    right = f"{name}-{c['version']}-cp312-cp312-" + [f"manylinux_2_17_{machine}.manylinux2014_{machine}", f"manylinux_2_28_{machine}", f"manylinux2014_{machine}", f"manylinux1_{machine}"][c["tag"]] + ".whl"
    files = {right}
    for v, py, k in c["decoys"]:
        plat = [f"macosx_11_0_{machine}", "win_amd64", f"musllinux_1_2_{machine}", f"manylinux_2_17_{other[k % 4]}", f"manylinux2014_{machine}"][k % 5]
        if py != "cp312-cp312" or k % 5 != 4:
            files.add(f"{name}-{v}-{py}-{plat}.whl")
    if c["extra"]:
        files |= {f"{name}-{c['version']}.tar.gz", "notes.txt"}
    stub, want = c30_text(c)
    calls, packed = [], []
    root = tempfile.mkdtemp(prefix="stubs-")
    wheels = os.path.join(root, c["dir"])
    pyi = os.path.join(wheels, f"{name}-stubs", "__init__.pyi")
    old = os.getcwd(), sys.argv, {n: getattr(subprocess, n) for n in ("run", "call", "check_call", "check_output", "Popen")}, os.system

    def script(path, *args):
        sys.argv = [path, *args]
        try:
            runpy.run_path(path, run_name="__main__")
        except SystemExit as e:
            need(not e.code, f"{path} ended with {e.code}")

    def stand_in(cmd, *args, cwd=None, **kw):
        """No command is run: the stub generator is played here, and the polishing script is run in this process."""
        cmd = cmd.split() if isinstance(cmd, str) else [str(x) for x in cmd]
        here = os.path.normpath(os.path.join(root, cwd or "."))
        calls.append(cmd)
        if any(x.endswith("pybind11-stubgen") or x == "pybind11_stubgen" for x in cmd):
            d = os.path.join(here, cmd[cmd.index("-o") + 1] if "-o" in cmd else ".", cmd[-1] + "-stubs")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "__init__.pyi"), "w", newline="") as f:
                f.write(stub)
        elif any(x.endswith("fix-stubs.py") for x in cmd):
            i = [x.endswith("fix-stubs.py") for x in cmd].index(True)
            os.chdir(here)
            script(os.path.join(tools, "fix-stubs.py"), *cmd[i + 1:])
            os.chdir(root)
        elif "bdist_wheel" in cmd:
            for n in ("setup.py", "MANIFEST.in"):
                with open(os.path.join(here, n)) as f:
                    packed.append(f.read())
            with open(pyi, newline="") as f:
                packed.append(f.read())
        return subprocess.CompletedProcess(cmd, 0, b"", b"")

    try:
        os.makedirs(wheels)
        for f in sorted(files):
            open(os.path.join(wheels, f), "w").close()
        os.chdir(root)
        for n in old[2]:
            setattr(subprocess, n, stand_in)
        os.system = stand_in
        script(os.path.join(tools, "generate-stubs.py"), ("./" if c["tag"] & 1 else "") + c["dir"], "linux", name)
    finally:
        for n, f in old[2].items():
            setattr(subprocess, n, f)
        os.system, sys.argv = old[3], old[1]
        os.chdir(old[0])
        shutil.rmtree(root, ignore_errors=True)
    got = {os.path.basename(x) for cmd in calls for x in cmd if x.endswith(".whl")}
    need(got == {right}, f"installed {sorted(got)} of {sorted(files)}, not {right}")
    need(len(packed) == 3, f"packed {len(packed) // 3} times")
    args = []
    fake = type(sys)("setuptools")
    fake.setup = lambda **kw: args.append(kw)
    real = sys.modules.get("setuptools")
    sys.modules["setuptools"] = fake
    try:
        exec(compile(packed[0], "setup.py", "exec"), {"__name__": "__main__"})
    finally:
        if real is None:
            del sys.modules["setuptools"]
        else:
            sys.modules["setuptools"] = real
    kw = args[0]
    need(kw["name"] == name + "-stubs" and kw["version"] == c["version"], f"the package is {kw['name']} {kw['version']}, not {name}-stubs {c['version']}")
    need([x.replace(" ", "") for x in kw["install_requires"]] == [f"{name}=={c['version']}"], f"it requires {kw['install_requires']}")
    need(list(kw["packages"]) == [name + "-stubs"] and f"{name}-stubs/" in packed[1], f"it holds {kw['packages']}, {packed[1]!r}")
    need(packed[2] == want, f"{stub!r} was polished to {packed[2]!r}, not {want!r}")


def heavy(*v):
    return any(abs(x) >= 1 << 31 for x in v)


def grid(prop, seed, shard, shards):
    """The part that is enumerated rather than drawn: all pairs of limits, where short cuts through native types go wrong."""
    n = len(CORNERS)
    if prop in ("C24", "C26"):
        for i in range(shard, n * n, shards):
            a, b = corner_pair(i)
            r = i * 2654435761 + seed
            if prop == "C24":
                yield {"ab": (a, b), "sub": i % 5 == 0, "k": r % 200 - 70, "e": r % 10, "exp": abs(CORNERS[r % n]), "m": CORNERS[(r >> 8) % n] or 1}
            else:
                yield {"ab": (a, b), "pool": ([a, b], [(0, 1), (1, -1)]), "ops": [("set", 0, False), ("get", 1, True), ("add", 1, False), ("in", 0, True), ("set", 2, True), ("sort", 0, False), ("max", 1, True), ("count", 1, False), ("del", 1, True)]}
    elif prop == "C25":
        big = [c for c in CORNERS if abs(c) >= 1 << 31 and c != -1 << 31]
        for i in range(shard, n * len(big), shards):
            a = CORNERS[i % n]
            yield {"a": a, "neg": -abs(a) - (a == 0), "big": big[i // n], "other": OTHERS[i % len(OTHERS)], "items": bytes([i & 255]) * (1 + i % 24), "e": i % 41, "fmt": "bchHiIlLqQfd"[i % 12], "after": big[i % len(big)]}


PROPS = {
    "C23": (c23_strategy, c23_check, lambda c: heavy(c["a"]) or len(c["bytes"]) > 4,
            "an integer and a byte string, taken through every conversion of the Python module in both directions (int, str, bytes, to_array, float, index, buffers with strides, deepcopy, queries, logs) and compared with Python's int; non-trivial when the integer needs more than one machine word or the buffer more than 4 bytes"),
    "C24": (c24_strategy, c24_check, lambda c: heavy(*c["ab"]),
            "two related integers, a shift amount, an exponent and a modulus, put through every operator with the BigInteger on the left, on the right and on both sides, and compared with a model over Python's int; non-trivial when an operand is beyond 31 bits"),
    "C25": (c25_strategy, c25_check, lambda c: heavy(c["a"]) or heavy(c["neg"]),
            "one integer put through every operation outside its domain (zero divisors, negative or huge exponents and shifts, foreign types, unsuitable buffers), each of which has to raise and leave the objects usable; non-trivial when an operand is beyond 31 bits"),
    "C26": (c26_strategy, c26_check, lambda c: heavy(*c["ab"]) or any(heavy(v) for v in c["pool"][0]) and len(c["ops"]) > 2,
            "two related integers compared in every way, and a random sequence of dict, set and list operations with BigInteger and int keys mirrored on ints; non-trivial when a value is beyond 31 bits"),
    "C27": (c27_strategy, c27_check, lambda c: any(heavy(v) for v in c["vals"]) and sum(map(len, c["progs"])) > 3,
            "six shared integers and up to four threads, each with a program of up to 30 operations on the shared objects and four of its own, in which numbers and buffers with hooks run Python code in the middle of an operation; mirrored on ints; non-trivial when a value is beyond 31 bits and there are more than 3 operations"),
    "C30": (c30_strategy, c30_check, lambda c: any(sum(t in LEGACY for t, _ in l) > 1 for l in c["lines"]) or len(c["decoys"]) > 1,
            "a generated stub file and a directory of wheels, taken through tools/generate-stubs.py and tools/fix-stubs.py, whose commands are played by stand-ins; the wheel chosen, the package written and the polished stub are compared with what they ought to be; non-trivial when a line has two notations to be rewritten or there are two other wheels"),
}
