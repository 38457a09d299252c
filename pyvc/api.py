"""The contract language.  A contract is a harness: it builds arbitrary inputs through a provider `I`, runs the
real function(s), and states postconditions with I.check / I.check_eq.  The same harness runs

  * symbolically, unbounded   (SymI, bound=None)   -> proof obligations
  * symbolically, lists <= b  (SymI, bound=b)      -> counterexample search / bounded stand-in
  * concretely                (ConcreteI)          -> replay of a counterexample on the untouched real code
  * concretely, random        (RandomI)            -> CPython cross-check of the contracts, fallback search
"""
import os
import random
import sys

CONTRACTS = {}

ALPHA = "abcdefghijklmnopqrstuvwxyz"


class Contract:
    def __init__(self, prop, name, fn, functions, opts):
        self.prop, self.name, self.fn, self.functions, self.opts = prop, name, fn, functions, opts

    @property
    def id(self):
        return f"{self.prop}.{self.name}"


def contract(prop, functions=(), **opts):
    """opts: bound (list length of the bounded mode), samples (random executions), kind ('proof'|'bounded'),
    doc (what is stated), assumes (list of assumptions)"""

    def deco(fn):
        c = Contract(prop, fn.__name__, fn, list(functions), opts)
        CONTRACTS[c.id] = c
        return fn

    return deco


class CheckFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class Discard(Exception):
    """assumption not met by a concrete input"""


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def exc_type(self):
        return type(self.exc).__name__ if self.exc is not None else None

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"raises({self.exc!r})"


def program_raised(ex):
    """the exception comes out of the code under test (not from the contract, nor from a stand-in it uses)"""
    obj = getattr(ex, "obj", None)
    if isinstance(ex, AttributeError) and obj is not None:
        m = getattr(type(obj), "__module__", "")
        if m.startswith(("contracts", "types", "pyvc")) or isinstance(obj, (type(sys), type)):
            return False
    if isinstance(ex, (ImportError, NameError)):
        return False
    inside = False
    tb = ex.__traceback__
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if "/contracts/" in f:
            inside = False
        elif "/metrics_layer/" in f:
            inside = True
        tb = tb.tb_next
    return inside


class Opt:
    def __init__(self, maker):
        self.maker = maker


class BaseI:
    symbolic = False

    def outcome(self, fn):
        try:
            return Outcome(True, fn())
        except (CheckFailed, Discard):
            raise
        except Exception as e:  # the engine's control exceptions are BaseExceptions
            if self.symbolic:
                from .core import program_error

                program_error(e)
                if os.environ.get("PYVC_TB"):
                    import traceback

                    traceback.print_exc()
            return Outcome(False, exc=e)

    def debug(self, *vs):
        print(*[repr(v.parts) if hasattr(v, "parts") else repr(v) for v in vs], file=sys.stderr)

    def full(self, name):
        return f"{self.prefix}.{name}" if self.prefix else name

    def opt(self, name, maker):
        if self.truth(self.bool(name + "?")):
            return maker(self.sub(name))
        return None

    def ident(self, name, mixed=False):
        from .core import IDENT, IDENT_MIXED

        return self.str(name, charset=IDENT_MIXED if mixed else IDENT, lower=not mixed, nonempty=True)

    def truth(self, v):
        return bool(v)


# ------------------------------------------------------------------------------------------------ symbolic
class SymI(BaseI):
    symbolic = True

    def __init__(self, run, prefix="", idxs=(), bound=None):
        self.run, self.prefix, self.idxs, self.bound = run, prefix, tuple(idxs), bound

    def sub(self, name):
        return SymI(self.run, self.full(name), self.idxs, self.bound)

    def _const(self, name, sort):
        import z3

        from .core import E, INT

        full = self.full(name)
        if self.idxs:
            return z3.Function(full, *[INT] * len(self.idxs), sort)(*self.idxs)
        e = z3.Const(full, sort)
        E.inputs.setdefault(full, e)
        return e

    def str(self, name, charset=None, lower=False, nonempty=False, exclude=None):
        from .core import STR, Atom, E, SStr, mkstr

        if exclude is not None and charset is None:
            charset = frozenset(chr(c) for c in range(32, 127)) - frozenset(exclude)
        a = Atom(self._const(name, STR), frozenset(charset) if charset else None, lower, nonempty)
        E.atom_facts(a)
        return mkstr([a])

    def int(self, name, lo=None, hi=None):
        import z3

        from .core import INT, E, SInt

        e = self._const(name, INT)
        cs = []
        if lo is not None:
            cs.append(e >= lo)
        if hi is not None:
            cs.append(e <= hi)
        if cs:
            E.solver.add(*cs)
        return SInt(e)

    def bool(self, name):
        from .core import BOOL, SBool

        return SBool(self._const(name, BOOL))

    def val(self, name):
        from .core import SVal, U

        return SVal(self._const(name, U))

    def choice(self, name, options):
        from .core import INT, E

        options = list(options)
        if len(options) == 1:
            return options[0]
        full = self.full(name)
        if not self.idxs:
            if full in E.raw:
                return options[E.raw[full]]
            i = E.choose(len(options))
            E.raw[full] = i
            return options[i]
        e = self._const(name, INT)
        for i in range(len(options) - 1):
            if E.decide(e == i):
                return options[i]
        return options[-1]

    def dict(self, name, spec):
        from .core import SymDict

        sub = self.sub(name) if name else self
        out = {}
        for k, m in spec.items():
            if isinstance(m, Opt):
                out[k] = (
                    (lambda m=m, k=k: m.maker(sub.sub(k)) if callable(m.maker) else m.maker),
                    (lambda k=k: sub.bool(k + "?")),
                )
            else:
                out[k] = ((lambda m=m, k=k: m(sub.sub(k)) if callable(m) else m), True)
        return SymDict(out, sub.prefix)

    def list(self, name, maker, min=0, max=None):
        import z3

        from .core import INT, E, EList, InputSeq, from_parts

        full = self.full(name)
        if self.bound is not None or (max is not None and max <= 3 and min == max):
            hi = self.bound if max is None else (max if self.bound is None else builtins_min(max, self.bound))
            if self.idxs:
                raise RuntimeError("bounded list inside an unbounded one")
            hi = builtins_max(hi, min)
            key = full + ".len"
            if key in E.raw:
                n = E.raw[key]
            else:
                n = min + E.choose(hi - min + 1)
                E.raw[key] = n
            return EList([maker(SymI(self.run, f"{full}[{i}]", (), self.bound)) for i in range(n)])
        ln = self._const(name + ".len", INT)
        E.solver.add(ln >= min)
        if max is not None:
            E.solver.add(ln <= max)
        idxs, run = self.idxs, self.run
        return from_parts(
            [InputSeq(full, list(idxs), ln, lambda k: maker(SymI(run, full + "[]", idxs + (k,), None)))]
        )

    def assume(self, cond):
        from .core import E, truth

        E.assume(cond if not isinstance(cond, bool) else cond)

    def stub(self, obj, attr, value):
        from .core import E

        had = attr in obj.__dict__
        old = obj.__dict__.get(attr)
        if isinstance(obj, type) or not isinstance(obj.__dict__, dict):
            setattr(obj, attr, value)
        else:
            obj.__dict__[attr] = value

        def undo():
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)

        E.cleanups.append(undo)

    def cleanup(self, fn):
        from .core import E

        E.cleanups.append(fn)

    def check(self, label, cond):
        from . import prove

        res = []
        prove.prove(cond, label, res)
        self.run.obligations(res)

    def check_eq(self, label, a, b):
        from . import prove

        res = []
        prove.prove_eq(a, b, label, res)
        self.run.obligations(res)

    def cover(self, label):
        self.run.covers[label] = self.run.covers.get(label, 0) + 1


from builtins import max as builtins_max  # noqa: E402
from builtins import min as builtins_min  # noqa: E402


# ------------------------------------------------------------------------------------------------ concrete
class ConcreteI(BaseI):
    def __init__(self, values, prefix="", state=None):
        self.values, self.prefix = values, prefix
        self.state = state if state is not None else {"cleanups": [], "checks": 0, "failed": [], "covers": {}}

    def sub(self, name):
        return type(self)(self.values, self.full(name), self.state)

    def _get(self, name, default):
        return self.values.get(self.full(name), default)

    def str(self, name, charset=None, lower=False, nonempty=False, exclude=None):
        d = sorted(charset - frozenset("_0123456789"))[0] if charset else "v"
        if charset and not (charset - frozenset("_0123456789")):
            d = sorted(charset)[0]
        v = self._get(name, None)
        if v is None:
            return d * 3 if nonempty else ""
        if charset is not None and any(c not in charset for c in v):
            raise Discard(name)
        if exclude is not None and any(c in exclude for c in v):
            raise Discard(name)
        if (nonempty and not v) or (lower and v != v.lower()):
            raise Discard(name)
        return v

    def int(self, name, lo=None, hi=None):
        v = self._get(name, lo if lo is not None else 0 if hi is None or hi >= 0 else hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard(name)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def val(self, name):
        return self._get(name, f"<{self.full(name)}>")

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, 0)
        return options[i if i < len(options) else 0]

    def dict(self, name, spec):
        sub = self.sub(name) if name else self
        out = {}
        for k, m in spec.items():
            if isinstance(m, Opt):
                if not sub.bool(k + "?"):
                    continue
                m = m.maker
            out[k] = m(sub.sub(k)) if callable(m) else m
        return out

    def list(self, name, maker, min=0, max=None):
        full = self.full(name)
        n = self._len(full, min, max)
        return [maker(type(self)(self.values, f"{full}[{i}]", self.state)) for i in range(n)]

    def _len(self, full, mn, mx):
        return builtins_max(mn, self.values.get(full + ".len", mn))

    def assume(self, cond):
        if not cond:
            raise Discard("assume")

    def stub(self, obj, attr, value):
        had = attr in obj.__dict__
        old = obj.__dict__.get(attr)
        if isinstance(obj, type) or not isinstance(obj.__dict__, dict):
            setattr(obj, attr, value)
        else:
            obj.__dict__[attr] = value

        def undo():
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)

        self.state["cleanups"].append(undo)

    def cleanup(self, fn):
        self.state["cleanups"].append(fn)

    def check(self, label, cond):
        self.state["checks"] += 1
        if not cond:
            self.state["failed"].append((label, "condition is false"))

    def check_eq(self, label, a, b):
        self.state["checks"] += 1
        if not (a == b):
            self.state["failed"].append((label, f"got      {a!r}\nexpected {b!r}"))

    def cover(self, label):
        self.state["covers"][label] = self.state["covers"].get(label, 0) + 1


def run_concrete(contract, I):
    """-> (list of failures, number of checks) ; None when the input is discarded"""
    try:
        contract.fn(I)
    except Discard:
        return None
    finally:
        for c in reversed(I.state["cleanups"]):
            c()
        I.state["cleanups"] = []
    return I.state["failed"], I.state["checks"]


class ExhaustI(ConcreteI):
    """enumerates every combination of choices and booleans (a finite space); other inputs take a fixed generic value"""

    trace = []  # [index, size] per decision, depth first
    pos = 0

    def _pick(self, n):
        cls = type(self)
        if cls.pos == len(cls.trace):
            cls.trace.append([0, n])
        i = cls.trace[cls.pos][0]
        cls.pos += 1
        return i

    def choice(self, name, options):
        options = list(options)
        full = self.full(name)
        if full not in self.values:
            self.values[full] = self._pick(len(options))
        return options[self.values[full]]

    def bool(self, name):
        full = self.full(name)
        if full not in self.values:
            self.values[full] = bool(self._pick(2))
        return self.values[full]

    @classmethod
    def advance(cls):
        while cls.trace and cls.trace[-1][0] + 1 >= cls.trace[-1][1]:
            cls.trace.pop()
        if not cls.trace:
            return False
        cls.trace[-1][0] += 1
        return True


class RandomI(ConcreteI):
    rng = random.Random(0)
    max_list = 4
    words, numbers = [], []  # literals of the code under contract, drawn now and then

    def _draw(self, name, gen):
        full = self.full(name)
        if full not in self.values:
            self.values[full] = gen()
        return self.values[full]

    def str(self, name, charset=None, lower=False, nonempty=False, exclude=None):
        r = self.rng

        def gen():
            if charset:
                if len(charset) < 40:
                    pool = "ab_1" if "a" in charset else "".join(sorted(charset))
                else:
                    pool = "abAB_1"
                pool = "".join(c for c in pool if c in charset) or "".join(sorted(charset))[:8]
            else:
                pool = "ab A.%_-1'$\""
            if exclude:
                pool = "".join(c for c in pool if c not in exclude)
            if lower:
                pool = pool.lower()
            prev = self.state.setdefault("strings", [])
            reuse = self.state.setdefault("reuse", r.choice([0, 0.3, 0.7]))
            if prev and r.random() < reuse:
                s = r.choice(prev)
                if (s or not nonempty) and (not lower or s == s.lower()) and not any(c in s for c in exclude or ()) and (charset is None or all(c in charset for c in s)):
                    return s
            if self.words and r.random() < 0.06:
                s = r.choice(self.words)
                if (s or not nonempty) and (not lower or s == s.lower()) and not any(c in s for c in exclude or ()) and (charset is None or all(c in charset for c in s)):
                    return s
            n = r.choice([1, 1, 2, 3]) if nonempty else r.choice([0, 1, 2, 3, 5])
            return "".join(r.choice(pool) for _ in range(n))

        self.state.setdefault("strings", []).append(self._draw(name, gen))
        return super().str(name, charset, lower, nonempty, exclude)

    def int(self, name, lo=None, hi=None):
        r = self.rng
        a = lo if lo is not None else -5
        b = hi if hi is not None else a + 12

        def gen():
            if r.random() < 0.08:
                n = r.choice([-1, 1, 1]) * (r.choice([10 ** r.randint(2, 19), 2 ** r.randint(5, 65), r.randint(0, 10 ** r.randint(3, 12))]) + r.randint(-2, 2))
                if self.numbers and r.random() < 0.5:
                    n = r.choice(self.numbers) + r.randint(-1, 1)
                if (lo is None or n >= lo) and (hi is None or n <= hi):
                    return n
            return r.choice([a, b, r.randint(a, b), r.randint(a, builtins_min(b, a + 6))])

        self._draw(name, gen)
        return super().int(name, lo, hi)

    def bool(self, name):
        r = self.rng
        return bool(self._draw(name, lambda: r.random() < 0.5))

    def choice(self, name, options):
        r = self.rng
        options = list(options)
        self._draw(name, lambda: r.randrange(len(options)))
        return super().choice(name, options)

    def _len(self, full, mn, mx):
        r = self.rng
        if full + ".len" not in self.values:
            hi = self.max_list if mx is None else builtins_min(mx, builtins_max(self.max_list, mn))
            self.values[full + ".len"] = r.randint(mn, builtins_max(mn, hi))
        return self.values[full + ".len"]
