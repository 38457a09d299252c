"""pyvc core: path-wise verification-condition generation over the instrumented real code.

A harness (contract) is explored path by path by deterministic re-execution: every branch on a symbolic
condition consults the decision trace, a fresh one is split with z3.  Loops over symbolic (unbounded)
sequences are never unrolled: the body is explored once for an arbitrary element and summarised (see
`forloop`), the inferred invariant being  acc == acc0 ++ flatmap(body, seq[:i]).
"""
import operator
import builtins
import enum
import sys
import time
import types

import z3

sys.setrecursionlimit(20000)


class Control(BaseException):
    pass


class Abort(Control):
    """infeasible path"""


class Unsupported(Control):
    """the code left the subset the verifier understands"""


class NeedInvariant(Unsupported):
    pass


class Budget(Control):
    pass


STR, INT, BOOL = z3.StringSort(), z3.IntSort(), z3.BoolSort()
U = z3.DeclareSort("U")
SORTS = {"str": STR, "int": INT, "bool": BOOL, "any": U}

_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ------------------------------------------------------------------------------------------------ values
class Sym:
    """base of symbolic scalars"""

    __hash__ = None

    def _subst(self, sb):
        raise NotImplementedError


class SBool(Sym):
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.decide(self.e)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.e))
        if isinstance(o, (int, float)):
            return mkbool(self.e if o == 1 else z3.Not(self.e) if o == 0 else _FALSE)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    __hash__ = None

    def _subst(self, sb):
        return mkbool(sb.e(self.e))

    def __repr__(self):
        return f"SBool({self.e})"


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bexpr(v):
    """python bool / SBool -> z3 Bool"""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return _TRUE if v else _FALSE
    raise Unsupported(f"bexpr of {type(v)}")


def snot(v):
    if isinstance(v, SBool):
        return mkbool(z3.Not(v.e))
    return not v


def sand(*vs):
    es = []
    for v in vs:
        if v is False:
            return False
        if v is True:
            continue
        es.append(bexpr(v))
    if not es:
        return True
    return mkbool(z3.And(*es))


def sor(*vs):
    es = []
    for v in vs:
        if v is True:
            return True
        if v is False:
            continue
        es.append(bexpr(v))
    if not es:
        return False
    return mkbool(z3.Or(*es))


class SInt(Sym):
    def __init__(self, e):
        self.e = e

    @staticmethod
    def _x(o):
        if isinstance(o, SInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _bin(self, o, f):
        x = self._x(o)
        if x is None:
            if isinstance(o, float) and o.is_integer():
                x = z3.IntVal(int(o))
            else:
                raise Unsupported(f"int op with {type(o)}")
        return mkint(f(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / z3.IntVal(o))
        raise Unsupported("floordiv by non-positive/symbolic")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % z3.IntVal(o))
        raise Unsupported("mod by non-positive/symbolic")

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        x = self._x(o)
        if x is None:
            if isinstance(o, float):
                return mkbool(f(z3.ToReal(self.e), z3.RealVal(o)))
            raise TypeError(f"int compare with {type(o)}")
        return mkbool(f(self.e, x))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SStr, list, dict, tuple)):
            return False
        try:
            return self._cmp(o, lambda a, b: a == b)
        except TypeError:
            return False

    def __ne__(self, o):
        return snot(self.__eq__(o))

    __hash__ = None

    def __bool__(self):
        return E.decide(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("symbolic int used as a concrete index")

    __int__ = __index__

    def _subst(self, sb):
        return mkint(sb.e(self.e))

    def __repr__(self):
        return f"SInt({self.e})"


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


class SVal(Sym):
    """opaque value: only equality is known about it"""

    def __init__(self, e, label="value"):
        self.e = e
        self.label = label

    def __eq__(self, o):
        if isinstance(o, SVal):
            return mkbool(self.e == o.e)
        if o is None:
            return False
        raise Unsupported("opaque value compared with a concrete one")

    def __ne__(self, o):
        return snot(self.__eq__(o))

    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth of an opaque value")

    def _subst(self, sb):
        return SVal(sb.e(self.e), self.label)


class Atom:
    """a symbolic string part. charset: a set of characters the atom is restricted to, or None (any)"""

    __slots__ = ("e", "charset", "lower", "nonempty", "props")

    def __init__(self, e, charset=None, lower=False, nonempty=False, props=frozenset()):
        self.e, self.charset, self.lower, self.nonempty = e, charset, lower, nonempty
        self.props = props  # subset of {"ls", "rs", "col"}: left/right stripped, runs of blanks collapsed

    def same(self, o):
        return isinstance(o, Atom) and self.e.eq(o.e)

    def _subst(self, sb):
        e = sb.e(self.e)
        if e.eq(self.e):
            return self
        a = Atom(e, self.charset, self.lower, self.nonempty, self.props)
        if (a.nonempty or a.charset is not None) and E.active:
            E.atom_facts(a)
        return a

    def z3(self):
        return self.e

    def __repr__(self):
        return f"‹{self.e}›"


class JoinAtom:
    """sep.join(parts) where parts contains symbolic segments"""

    __slots__ = ("sep", "parts", "_e", "_cs")

    def __init__(self, sep, parts):
        self.sep, self.parts = sep, parts
        self._e = None
        self._cs = False

    lower = False
    nonempty = False
    props = frozenset()

    @property
    def charset(self):
        """the characters any instance can consist of, or None (any)"""
        if self._cs is False:
            cs = _charset(self.parts)
            self._cs = None if cs is None else cs | frozenset(self.sep)
        return self._cs

    def same(self, o):
        return self is o

    def _subst(self, sb):
        np = [sb.v(p) for p in self.parts]
        if all(a is b for a, b in zip(np, self.parts)):
            return self
        return JoinAtom(self.sep, np)

    def z3(self):
        if self._e is None:
            self._e = E.fresh("join", STR)
        return self._e

    def __repr__(self):
        return f"‹join {self.sep!r} {self.parts}›"


def _charset(parts):
    cs = frozenset()
    for p in parts:
        if isinstance(p, str):
            c = frozenset(p)
        elif isinstance(p, SStr):
            c = _charset(p.parts)
        elif isinstance(p, (Atom, JoinAtom)):
            c = p.charset
        elif isinstance(p, Comp):
            c = frozenset()
            for _, ps in p.branches:
                x = _charset(ps)
                c = None if x is None else c | x
                if c is None:
                    break
        else:
            c = None
        if c is None:
            return None
        cs = cs | c
    return cs


class AccAtom:
    """value of a string accumulator at the start of an arbitrary iteration: may only be extended"""

    charset = None
    lower = False
    nonempty = False

    def same(self, o):
        return self is o

    def _subst(self, sb):
        return self

    def z3(self):
        raise NeedInvariant("string accumulator read inside the loop")


IDENT = frozenset("abcdefghijklmnopqrstuvwxyz0123456789_")
IDENT_MIXED = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
DIGITS = frozenset("0123456789")

LOWER = z3.Function("py_lower", STR, STR)
UPPER = z3.Function("py_upper", STR, STR)
TITLE = z3.Function("py_title", STR, STR)
LSTRIP = z3.Function("py_lstrip", STR, STR)
RSTRIP = z3.Function("py_rstrip", STR, STR)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def sparts(v):
    if isinstance(v, SStr):
        return v.parts
    if isinstance(v, str):
        return [v] if v else []
    raise Unsupported(f"string parts of {type(v)}")


class SStr(Sym):
    def __init__(self, parts):
        self.parts = parts

    __hash__ = None

    def z3(self):
        es = [z3.StringVal(p) if isinstance(p, str) else p.z3() for p in self.parts]
        return es[0] if len(es) == 1 else z3.Concat(*es)

    def _subst(self, sb):
        np = [p if isinstance(p, str) else p._subst(sb) for p in self.parts]
        if all(a is b for a, b in zip(np, self.parts)):
            return self
        return mkstr(np)

    def __repr__(self):
        return "S" + repr("".join(p if isinstance(p, str) else repr(p) for p in self.parts))

    # -- concatenation
    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')
        return mkstr(list(self.parts) + list(sparts(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        return mkstr(list(sparts(o)) + list(self.parts))

    def __mul__(self, n):
        if isinstance(n, int):
            return mkstr(list(self.parts) * n)
        raise Unsupported("str * symbolic")

    # -- comparison
    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        return snot(str_eq(self, o))

    def __lt__(self, o):
        raise Unsupported("string order")

    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        if any(isinstance(p, str) or p.nonempty for p in self.parts):
            return True
        return not E.decide(str_eq_e(self, ""))

    def __len__(self):
        raise Unsupported("len() of a symbolic string outside a len() call")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string")

    def __contains__(self, x):
        return truth(self.contains_(x))

    def __str__(self):
        raise Unsupported("symbolic string rendered by native code")

    def __format__(self, spec):
        raise Unsupported("symbolic string formatted by native code")

    # -- methods
    def contains_(self, x):
        if isinstance(x, str):
            if x == "":
                return True
            if any(isinstance(p, str) and x in p for p in self.parts):
                return True
            if self._excludes(x):
                return False
            return mkbool(z3.Contains(self.z3(), z3.StringVal(x)))
        if isinstance(x, SStr):
            n = len(x.parts)
            for i in range(len(self.parts) - n + 1):
                if all(same_part(a, b) for a, b in zip(self.parts[i : i + n], x.parts)):
                    return True
            return mkbool(z3.Contains(self.z3(), x.z3()))
        raise TypeError("'in <string>' requires string as left operand")

    def _excludes(self, x):
        """structurally certain that literal x (len>=1) does not occur"""
        # replace each atom of known charset by a hole; an occurrence must match literal chars and holes
        toks = []
        for p in self.parts:
            if isinstance(p, str):
                toks.extend(p)
            else:
                if p.charset is None:
                    return False
                toks.append(p)
        # simulate: can x be matched starting anywhere? atoms can absorb 0+ chars in charset
        def m(i, j, inside):
            if j == len(x):
                return True
            if i == len(toks):
                return False
            t = toks[i]
            if isinstance(t, str):
                return t == x[j] and m(i + 1, j + 1, False)
            # atom: absorb k chars
            k = j
            if m(i + 1, k, False):
                return True
            while k < len(x) and x[k] in t.charset:
                k += 1
                if k == len(x):
                    return True
                if m(i + 1, k, False):
                    return True
            return False

        for i in range(len(toks)):
            t = toks[i]
            if isinstance(t, str):
                if m(i, 0, False):
                    return False
            else:
                if m(i, 0, True):
                    return False
        return True

    def _touches(self, x):
        """an occurrence of literal x may involve (or straddle) a symbolic part"""
        toks = []
        for p in self.parts:
            if isinstance(p, str):
                toks.extend(p)
            else:
                toks.append(p)

        def absorb(t, j):
            """positions reachable in x after t absorbs 0+ characters from j"""
            out, k = [j], j
            while k < len(x) and (t.charset is None or x[k] in t.charset):
                k += 1
                out.append(k)
            return out

        def m(i, j, used):
            if j == len(x):
                return used
            if i == len(toks):
                return False
            t = toks[i]
            if isinstance(t, str):
                return t == x[j] and m(i + 1, j + 1, used)
            for k in absorb(t, j):
                # straddling an empty part counts only strictly inside the occurrence
                if k == len(x):
                    if k > j or used:
                        return True
                    continue
                if m(i + 1, k, used or k > j or j > 0):
                    return True
            return False

        for i, t in enumerate(toks):
            if m(i, 0, False):
                return True
        return False

    def count(self, x):
        if isinstance(x, str) and len(x) == 1 and all(
            isinstance(p, str) or (p.charset is not None and x not in p.charset) for p in self.parts
        ):
            return sum(p.count(x) for p in self.parts if isinstance(p, str))
        raise Unsupported("str.count on symbolic text")

    def lower(self):
        return self._case(LOWER, str.lower, True)

    def upper(self):
        return self._case(UPPER, str.upper, False)

    def _case(self, f, pf, low):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(pf(p))
            elif isinstance(p, Atom):
                if low and p.lower:
                    out.append(p)
                elif p.charset is not None and all(pf(c) == c for c in p.charset):
                    out.append(p)
                else:
                    cs = frozenset(pf(c) for c in p.charset) if p.charset is not None else None
                    if z3.is_app(p.e) and p.e.decl().name() in ("py_lower", "py_upper") and f is not None:
                        base = p.e.arg(0)
                        out.append(Atom(f(base), cs, low, p.nonempty))
                    else:
                        out.append(Atom(f(p.e), cs, low, p.nonempty))
            else:
                raise Unsupported("case of a join")
        return mkstr(out)

    def title(self):
        return mkstr([Atom(TITLE(self.z3()))])

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported("strip(chars)")
        return self._lr(True, True)

    def lstrip(self, chars=None):
        if chars is not None:
            raise Unsupported("lstrip(chars)")
        return self._lr(True, False)

    def rstrip(self, chars=None):
        if chars is not None:
            raise Unsupported("rstrip(chars)")
        return self._lr(False, True)

    def _lr(self, left, right):
        def nosp(p):
            return p.charset is not None and not any(c.isspace() for c in p.charset)

        parts = list(self.parts)
        for side in ([0] if left else []) + ([-1] if right else []):
            whole = LSTRIP if side == 0 else RSTRIP
            tag = "ls" if side == 0 else "rs"
            while parts:
                p = parts[side]
                if isinstance(p, str):
                    t = p.lstrip() if side == 0 else p.rstrip()
                    if t:
                        parts[side] = t
                        break
                    parts.pop(side)
                    continue
                if (nosp(p) or tag in p.props) and p.nonempty:
                    break
                # stripping may eat the whole part and go on: exact when what follows cannot be stripped
                if len(parts) == 1:
                    if isinstance(p, Atom):
                        parts[side] = p if nosp(p) or tag in p.props else Atom(whole(p.e), p.charset, p.lower, False, p.props | {tag})
                        break
                    raise Unsupported("strip on a join")
                q = parts[1] if side == 0 else parts[-2]
                if isinstance(p, Atom) and (
                    (isinstance(q, str) and not (q[0] if side == 0 else q[-1]).isspace())
                    or (not isinstance(q, str) and nosp(q) and q.nonempty)
                ):
                    if not nosp(p) and tag not in p.props:
                        parts[side] = Atom(whole(p.e), p.charset, p.lower, False, p.props | {tag})
                    break
                if all(isinstance(x, (str, Atom)) for x in parts):
                    cs = None
                    if all(isinstance(x, str) or x.charset is not None for x in parts):
                        cs = frozenset().union(*[frozenset(x) if isinstance(x, str) else x.charset for x in parts])
                    ne = any((isinstance(x, str) and x.strip()) or (not isinstance(x, str) and x.nonempty and nosp(x)) for x in parts)
                    parts = [Atom(whole(mkstr(parts).z3()), cs, False, ne)]
                    break
                raise Unsupported("strip on a join")
        return mkstr(parts)

    def startswith(self, x):
        if isinstance(x, tuple):
            return any(truth(self.startswith(y)) for y in x)
        if isinstance(x, str) and isinstance(self.parts[0], str):
            p = self.parts[0]
            if len(p) >= len(x):
                return p.startswith(x)
            if not x.startswith(p):
                return False
        elif isinstance(x, str) and x and isinstance(self.parts[0], Atom):
            a = self.parts[0]
            if a.charset is not None and a.nonempty and x[0] not in a.charset:
                return False
        return mkbool(z3.PrefixOf(z3.StringVal(x) if isinstance(x, str) else x.z3(), self.z3()))

    def endswith(self, x):
        if isinstance(x, tuple):
            return any(truth(self.endswith(y)) for y in x)
        if isinstance(x, str) and isinstance(self.parts[-1], str):
            p = self.parts[-1]
            if len(p) >= len(x):
                return p.endswith(x)
            if not x.endswith(p):
                return False
        elif isinstance(x, str) and x and isinstance(self.parts[-1], Atom):
            a = self.parts[-1]
            if a.charset is not None and a.nonempty and x[-1] not in a.charset:
                return False
        return mkbool(z3.SuffixOf(z3.StringVal(x) if isinstance(x, str) else x.z3(), self.z3()))

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or maxsplit != -1:
            raise Unsupported("split()")
        out, cur = [], []
        for p in self.parts:
            if isinstance(p, str):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(cur)
                    cur = [b]
            else:
                if p.charset is None or any(c in p.charset for c in sep):
                    return SplitEnds(self, sep)
                cur.append(p)
        out.append(cur)
        # the separator must not straddle parts
        if len(sep) > 1:
            for seg in out:
                s = mkstr(seg)
                if isinstance(s, SStr) and not s._excludes(sep):
                    return SplitEnds(self, sep)
        return E.mklist([mkstr(s) for s in out])

    def partition(self, sep):
        b = self.split(sep)
        if len(b) == 1:
            return (b[0], "", "")
        return (b[0], sep, E.call(sep.join, b[1:]))

    def replace(self, a, b, n=-1):
        if n != -1:
            raise Unsupported("replace count")
        if a is b or (isinstance(a, str) and isinstance(b, str) and a == b):
            return self
        if isinstance(a, str):
            if a == "":
                raise Unsupported("replace ''")
            if self._excludes(a):
                return self
            # all occurrences are inside literals, provided atoms cannot take part in one
            holes = not self._touches(a)
            if holes:
                out = []
                for p in self.parts:
                    if isinstance(p, str):
                        bits = p.split(a)
                        for i, x in enumerate(bits):
                            if i:
                                out.extend(sparts(b))
                            out.append(x)
                    else:
                        out.append(p)
                return mkstr(out)
            if isinstance(b, str) and len(self.parts) == 1 and isinstance(self.parts[0], Atom):
                f = z3.Function("py_replace", STR, STR, STR, STR)
                cs = self.parts[0].charset
                return mkstr([Atom(f(self.z3(), z3.StringVal(a), z3.StringVal(b)), None if cs is None else cs | frozenset(b))])
            if isinstance(b, str):
                # per part, when no occurrence can straddle two parts
                if len(a) == 1:
                    out = []
                    for p in self.parts:
                        if isinstance(p, str):
                            out.append(p.replace(a, b))
                        elif isinstance(p, Atom) and (p.charset is None or a in p.charset):
                            f = z3.Function("py_replace", STR, STR, STR, STR)
                            out.append(Atom(f(p.e, z3.StringVal(a), z3.StringVal(b)), None if p.charset is None else (p.charset - {a}) | frozenset(b)))
                        else:
                            out.append(p)
                    return mkstr(out)
            raise Unsupported("replace on free text")
        if isinstance(a, SStr):
            return rope_replace(self, a, b)
        raise Unsupported("replace")

    def format(self, *a, **k):
        raise Unsupported("format on symbolic template")

    def encode(self, *a, **k):
        raise Unsupported("encode")

    def join(self, it):
        raise Unsupported("symbolic separator")

    def isdigit(self):
        if all((p.isdigit() if isinstance(p, str) else p.charset is not None and p.charset <= DIGITS and p.nonempty) for p in self.parts):
            return True
        raise Unsupported("isdigit")

    def getitem_(self, i):
        if isinstance(i, slice):
            a, b, st = i.start, i.stop, i.step
            if st not in (None, 1):
                raise Unsupported("str slice step")
            if a is None and b is None:
                return self
            if isinstance(a, SInt) or isinstance(b, SInt):
                raise Unsupported("symbolic slice")
            if (a is None or a >= 0) and b is None and isinstance(self.parts[0], str) and len(self.parts[0]) >= (a or 0):
                return mkstr([self.parts[0][a or 0 :]] + list(self.parts[1:]))
            if (a is None or a >= 0) and b is not None and b < 0 and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= -b:
                q = mkstr(list(self.parts[:-1]) + [self.parts[-1][:b]])
                return getitem(q, slice(a, None)) if a else q
            if (a is None or a == 0) and b is not None and b >= 0:
                p0 = self.parts[0]
                if isinstance(p0, str) and len(p0) >= b:
                    return p0[:b]
                if b == 0:
                    return ""
            if a is not None and a > 0 and b is None and isinstance(self.parts[0], str):
                return getitem(mkstr(list(self.parts[1:])), slice(a - len(self.parts[0]), None))
            cs, low = self._class()
            e = self.z3()
            ln = z3.Length(e)

            def norm(x):
                if x is None:
                    return None
                return z3.If(ln + x < 0, 0, ln + x) if x < 0 else z3.If(ln < x, ln, z3.IntVal(x))

            lo = norm(a) if a is not None else z3.IntVal(0)
            hi = norm(b) if b is not None else ln
            return mkstr([Atom(z3.If(hi > lo, z3.SubString(e, lo, hi - lo), z3.StringVal("")), cs, low)])
        if isinstance(i, int):
            if i >= 0 and isinstance(self.parts[0], str) and len(self.parts[0]) > i:
                return self.parts[0][i]
            if i < 0 and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= -i:
                return self.parts[-1][i]
            if i in (0, -1) and len(self.parts) > 1 and isinstance(self.parts[i], Atom):
                p = self.parts[i]
                if p.nonempty or not E.decide(p.e == z3.StringVal("")):
                    return getitem(mkstr([p]), i)
                return getitem(mkstr(list(self.parts[1:] if i == 0 else self.parts[:-1])), i)
            cs, low = self._class()
            e = self.z3()
            ln = z3.Length(e)
            if E.decide(ln >= (i + 1 if i >= 0 else -i)):
                return mkstr([Atom(z3.SubString(e, i if i >= 0 else ln + i, 1), cs, low, nonempty=True)])
            raise IndexError("string index out of range")
        raise Unsupported("str index")

    def _class(self):
        """(charset, lower) that every substring inherits"""
        cs, low = frozenset(), True
        for p in self.parts:
            if isinstance(p, str):
                cs = None if cs is None else cs | frozenset(p)
                low = low and p == p.lower()
            else:
                pc = getattr(p, "charset", None)
                cs = None if cs is None or pc is None else cs | pc
                low = low and bool(getattr(p, "lower", False))
        return cs, low

    def len_(self):
        return mkint(z3.Length(self.z3()))


def same_part(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.same(b)


def rope_replace(s, a, b):
    """replace the rope a in s: structural occurrences only, sound when a is delimited: its literal border
    characters cannot occur inside any atom (so that every occurrence is a structural one)"""
    # flatten to tokens
    def toks(parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.extend(p)
            else:
                out.append(p)
        return out

    S, A = toks(s.parts), toks(a.parts)
    if not isinstance(A[0], str):
        raise Unsupported("replace: needle does not start with a literal")
    for p in s.parts:
        if not isinstance(p, str) and (p.charset is None or A[0] in p.charset):
            raise Unsupported("replace: needle may start inside free text")
    out, i = [], 0
    while i < len(S):
        # candidate: literal start matches
        if S[i] == A[0]:
            # find whether the needle matches here: decide equality of needle with some prefix S[i:j]
            end = A[-1] if isinstance(A[-1], str) else None
            if end is None:
                raise Unsupported("replace: needle does not end with a literal")
            # j = candidates where S[j-1] == end and the inside cannot contain end before
            hit = None
            for j in range(i + 1, len(S) + 1):
                if S[j - 1] == end:
                    cand = mkstr(S[i:j])
                    if truth(str_eq(cand, a)):
                        hit = j
                        break
            if hit is not None:
                out.extend(sparts(b))
                i = hit
                continue
        out.append(S[i])
        i += 1
    return mkstr(out)


def str_eq_e(a, b):
    r = str_eq(a, b)
    return bexpr(r)


def str_eq(a, b):
    if not isinstance(b, (str, SStr)):
        return False
    if not isinstance(a, (str, SStr)):
        return False
    pa, pb = list(sparts(a)), list(sparts(b))
    # strip common prefix
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0:1] = [x[n:]] if x[n:] else []
            pb[0:1] = [y[n:]] if y[n:] else []
        elif same_part(x, y):
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa[-1:] = [x[:-n]] if x[:-n] else []
            pb[-1:] = [y[:-n]] if y[:-n] else []
        elif same_part(x, y):
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    for p, q in ((pa, pb), (pb, pa)):
        if not p:
            if any(isinstance(x, str) or x.nonempty for x in q):
                return False
    # literal characters outside the charset of everything on the other side
    for p, q in ((pa, pb), (pb, pa)):
        if all(not isinstance(x, str) and x.charset is not None for x in q) and q:
            cs = frozenset().union(*[x.charset for x in q])
            if any(isinstance(x, str) and any(c not in cs for c in x) for x in p):
                return False
    joins = [x for x in pa + pb if isinstance(x, JoinAtom)]
    if joins:
        return JoinEq(mkstr(pa), mkstr(pb))
    # align on delimiter characters that no atom can contain
    al = _align(pa, pb)
    if al is not None:
        if al is False:
            return False
        return sand(*[str_eq(mkstr(x), mkstr(y)) for x, y in al])
    ea = mkstr(pa)
    eb = mkstr(pb)
    za = z3.StringVal(ea) if isinstance(ea, str) else ea.z3()
    zb = z3.StringVal(eb) if isinstance(eb, str) else eb.z3()
    return mkbool(za == zb)


def _align(pa, pb):
    """split both ropes at characters that no atom on either side can contain"""
    atoms = [x for x in pa + pb if not isinstance(x, str)]
    if not atoms or any(x.charset is None for x in atoms):
        return None
    cs = frozenset().union(*[x.charset for x in atoms])

    def cut(p):
        out, cur = [], []
        for x in p:
            if isinstance(x, str):
                buf = ""
                for c in x:
                    if c in cs:
                        buf += c
                    else:
                        if buf:
                            cur.append(buf)
                            buf = ""
                        out.append(cur)
                        out.append(c)
                        cur = []
                if buf:
                    cur.append(buf)
            else:
                cur.append(x)
        out.append(cur)
        return out

    ca, cb = cut(pa), cut(pb)
    if len(ca) == 1 and len(cb) == 1:
        return None
    if len(ca) != len(cb):
        return False
    res = []
    for x, y in zip(ca, cb):
        if isinstance(x, str) != isinstance(y, str):
            return False
        if isinstance(x, str):
            if x != y:
                return False
        else:
            res.append((x, y))
    return res


class SplitEnds:
    """text.split(sep) of free text, of which only the first and last pieces can be told"""

    def __init__(self, text, sep):
        self.text, self.sep = text, sep

    def __getitem__(self, i):
        sep, parts = self.sep, self.text.parts
        if i == -1 and isinstance(parts[-1], str):
            # nothing after the separator's last occurrence in the closing literal; str.split takes that very occurrence
            # unless another one overlaps it from the left
            lit = parts[-1]
            p = lit.rfind(sep)
            if p >= 0:
                for b in range(1, len(sep)):
                    if sep[:b] == sep[-b:]:
                        need, have = sep[:-b], lit[:p]
                        if len(have) >= len(need):
                            bad = have.endswith(need)
                        else:
                            bad = need.endswith(have)
                        if bad:
                            raise Unsupported("split on free text")
                return lit[p + len(sep):]
        raise Unsupported("split on free text")

    def _no(self, *a, **k):
        raise Unsupported("split on free text")

    __iter__ = __len__ = __contains__ = __bool__ = __add__ = __eq__ = __hash__ = _no


class JoinEq(SBool):
    """equality of strings holding joins of symbolic sequences: only provable as a goal"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    @property
    def e(self):
        raise Unsupported("equality of symbolic joins used as a condition")

    def __bool__(self):
        raise Unsupported("equality of symbolic joins used as a condition")


class Poison:
    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise NeedInvariant(object.__getattribute__(self, "_why"))

    __bool__ = __eq__ = __ne__ = __len__ = __iter__ = __contains__ = __getitem__ = __call__ = _bad
    __add__ = __radd__ = __iadd__ = __str__ = __format__ = __lt__ = __gt__ = __le__ = __ge__ = __sub__ = _bad
    __and__ = __rand__ = __iand__ = __or__ = __ror__ = __ior__ = __xor__ = __rxor__ = __invert__ = __neg__ = _bad
    __mul__ = __rmul__ = __mod__ = __rmod__ = __truediv__ = __rtruediv__ = __floordiv__ = __rsub__ = __index__ = _bad
    __int__ = __float__ = __setitem__ = __delitem__ = __next__ = __enter__ = __hash__ = __repr__ = _bad
    __getattr__ = _bad


# -------------------------------------------------------------------------------------------- containers
_NATIVE = (list, dict, set)


class EList(list):
    _elem = False
    _segs = None  # symbolic content: list of parts (SymSeq | element) when not None
    _acc = None  # accumulator mode inside a loop summary
    _serial = 0

    def __init__(self, *a):
        list.__init__(self, *a)
        self._serial = E.next_serial()

    # --- journaling
    def _w(self, what, arg=None):
        """before a mutation; returns True when handled in accumulator mode"""
        if self._acc is not None:
            if what == "append":
                self._acc.append(arg)
                E.journal(lambda: self._acc.pop() if self._acc else None)
                return True
            if what == "extend":
                n = len(self._acc)
                self._acc.extend(ordered(arg))

                def undo(n=n):
                    if self._acc is not None:
                        del self._acc[n:]

                E.journal(undo)
                return True
            raise NeedInvariant(f"list.{what} on a loop accumulator")
        if self._elem:
            raise NeedInvariant(f"list.{what} on an element of a symbolic list")
        if E.depth and not E.fresh_here(self):
            E.note_mutation(self)
            snap, segs = list.copy(self), (None if self._segs is None else builtins.list(self._segs))

            def undo():
                list.__setitem__(self, builtins.slice(None), snap)
                self._segs = segs

            E.journal(undo)
        return False

    def _r(self):
        if self._acc is not None:
            raise NeedInvariant("loop accumulator read inside the loop")

    def _plain(self, what):
        self._r()
        if self._segs is not None:
            raise Unsupported(f"list.{what} on a symbolic list")

    def append(self, x):
        if self._w("append", x):
            return
        if self._segs is not None:
            self._segs.append(x)
        else:
            list.append(self, x)

    def extend(self, it):
        if is_symseq(it) or self._segs is not None:
            ps = ordered(it)
            if self._acc is not None:
                n = len(self._acc)
                self._acc.extend(ps)

                def undo(n=n):
                    if self._acc is not None:
                        del self._acc[n:]

                E.journal(undo)
                return
            self._w("extend0")
            if self._segs is None:
                self._segs = list.copy(self)
                list.clear(self)
            self._segs.extend(ps)
            return
        if not isinstance(it, (list, tuple, set, dict)):
            it = builtins.list(it)
        if self._w("extend", it):
            return
        list.extend(self, ordered(it))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        self._r()
        if is_symseq(o) or self._segs is not None:
            return from_parts(ordered(self) + ordered(o))
        return EList(list.__add__(self, o))

    def __radd__(self, o):
        return from_parts(ordered(o) + ordered(self))

    def __mul__(self, n):
        self._plain("mul")
        return EList(list.__mul__(self, n))

    def insert(self, i, x):
        if self._segs is not None and i == 0:
            self._w("insert")
            self._segs.insert(0, x)
            return
        self._plain("insert")
        self._w("insert")
        list.insert(self, i, x)

    def pop(self, *a):
        self._plain("pop")
        self._w("pop")
        return list.pop(self, *a)

    def remove(self, x):
        self._plain("remove")
        self._w("remove")
        for i, y in enumerate(list.__iter__(self)):
            if y is x or truth(eq(y, x)):
                list.__delitem__(self, i)
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._plain("clear")
        self._w("clear")
        list.clear(self)

    def sort(self, *, key=None, reverse=False):
        r = sorted_(self, key, reverse)
        self._w("sort")
        if r._segs is not None:
            list.clear(self)
            self._segs = r._segs
        else:
            list.__setitem__(self, slice(None), builtins.list(list.__iter__(r)))

    def reverse(self):
        self._plain("reverse")
        self._w("reverse")
        list.reverse(self)

    def index(self, x, *a):
        self._r()
        if self._segs is None:
            for i, y in enumerate(list.__iter__(self)):
                if y is x or truth(eq(y, x)):
                    return i
            raise ValueError(f"{[[(type(u), u) for u in t] if isinstance(t,tuple) else t for t in x]} is not in list")
        raise Unsupported("index on a symbolic list")

    def count(self, x):
        self._plain("count")
        return sum(1 for y in list.__iter__(self) if truth(eq(x, y)))

    def copy(self):
        self._r()
        return from_parts(ordered(self))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return deepcopy_(self)

    def __reduce__(self):
        self._plain("pickle")
        return (EList, (builtins.list(list.__iter__(self)),))

    def __setitem__(self, i, v):
        self._plain("setitem")
        self._w("setitem")
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        self._plain("delitem")
        self._w("delitem")
        list.__delitem__(self, i)

    def __getitem__(self, i):
        return getitem(self, i)

    def __len__(self):
        self._plain("len")
        return list.__len__(self)

    def __bool__(self):
        self._r()
        if self._segs is None:
            return list.__len__(self) > 0
        return seq_nonempty(self)

    def __iter__(self):
        self._plain("iter")
        return list.__iter__(self)

    def __contains__(self, x):
        return truth(contains(x, self))

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return snot(eq(self, o))

    __hash__ = None

    def __repr__(self):
        if self._segs is not None:
            return f"EList~{self._segs}"
        return "[" + ", ".join(repr(x) for x in list.__iter__(self)) + "]"


class ESet(set):
    """native content while everything is concrete; `_items` (insertion ordered, distinct) otherwise;
    `_segs` when it holds symbolic segments (then duplicates are possible, membership is existential)"""

    _elem = False
    _items = None
    _segs = None
    _acc = None

    def __init__(self, it=()):
        set.__init__(self)
        self._serial = E.next_serial()
        if isinstance(it, GenSeq):
            it = it.force()
        if is_symseq(it):
            self._segs = parts_of(it)
            return
        for x in it:
            self.add(x)

    def _w(self, what, arg=None):
        if self._acc is not None:
            if what == "add":
                self._acc.append(arg)
                E.journal(lambda: self._acc.pop() if self._acc else None)
                return True
            if what == "update":
                n = len(self._acc)
                self._acc.extend(parts_of(arg))

                def undo(n=n):
                    if self._acc is not None:
                        del self._acc[n:]

                E.journal(undo)
                return True
            raise NeedInvariant(f"set.{what} on a loop accumulator")
        if self._elem:
            raise NeedInvariant(f"set.{what} on an element of a symbolic list")
        if E.depth and not E.fresh_here(self):
            E.note_mutation(self)
            snap, items, segs = set.copy(self), self._items and builtins.list(self._items), self._segs and builtins.list(self._segs)

            def undo():
                set.clear(self)
                set.update(self, snap)
                self._items, self._segs = items, segs

            E.journal(undo)
        return False

    def _symbolic(self):
        if self._items is None and self._segs is None:
            self._items = builtins.list(set.__iter__(self))
            set.clear(self)

    def parts(self):
        if self._acc is not None:
            raise NeedInvariant("loop accumulator read inside the loop")
        if self._segs is not None:
            return builtins.list(self._segs)
        if self._items is not None:
            return builtins.list(self._items)
        return builtins.list(set.__iter__(self))

    def add(self, x):
        if self._w("add", x):
            return
        if self._segs is not None:
            self._segs.append(x)
            return
        if has_sym_key(x) or self._items is not None:
            self._symbolic()
            for y in self._items:
                if y is x or truth(eq(y, x)):
                    return
            self._items.append(x)
            return
        set.add(self, x)

    def update(self, *its):
        for it in its:
            if is_symseq(it):
                ps = parts_of(it)
                if self._acc is not None:
                    self._w("update", it)
                    continue
                self._w("update0")
                if self._segs is None:
                    self._segs = self.parts()
                    set.clear(self)
                    self._items = None
                self._segs.extend(ps)
            else:
                for x in it:
                    self.add(x)

    def discard(self, x):
        self._w("discard")
        if self._segs is not None:
            raise Unsupported("discard on symbolic set")
        if has_sym_key(x) or self._items is not None:
            self._symbolic()
            self._items = [y for y in self._items if not truth(eq(x, y))]
            return
        set.discard(self, x)

    def remove(self, x):
        if not truth(contains(x, self)):
            raise KeyError(x)
        self.discard(x)

    def _mk(self, items):
        return ESet(items)

    def __or__(self, o):
        r = ESet(from_parts(self.parts()))
        r.update(o)
        return r

    union = lambda self, *os: _fold(self, os, lambda a, b: a | b)

    def __and__(self, o):
        if is_symseq(self) or is_symseq(o):
            return E.comp("set", self, lambda x: contains(x, o), lambda x: x)
        return ESet([x for x in self.parts() if truth(contains(x, o))])

    intersection = lambda self, *os: _fold(self, os, lambda a, b: a & b)

    def __rand__(self, o):
        return ESet(o) & self

    def __ror__(self, o):
        return ESet(o) | self

    def __sub__(self, o):
        if is_symseq(self) or is_symseq(o):
            return E.comp("set", self, lambda x: snot(contains(x, o)), lambda x: x)
        return ESet([x for x in self.parts() if not truth(contains(x, o))])

    difference = lambda self, *os: _fold(self, os, lambda a, b: a - b)

    def __rsub__(self, o):
        return ESet(o) - self

    def issubset(self, o):
        return all(truth(contains(x, o)) for x in self.parts())

    __le__ = issubset

    def issuperset(self, o):
        return all(truth(contains(x, self)) for x in o)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(truth(contains(x, o)) for x in self.parts())

    def copy(self):
        return ESet(from_parts(self.parts()))

    __copy__ = copy

    def __reduce__(self):
        return (ESet, (builtins.list(self.parts()),))

    def pop(self):
        if self._acc is not None or self._segs is not None:
            raise Unsupported("set.pop")
        items = self.parts()
        if not items:
            raise KeyError("pop from an empty set")
        if len(items) > 1:
            raise Unsupported("set.pop of one of several")
        self.clear()
        return items[0]

    def clear(self):
        self._w("clear")
        set.clear(self)
        self._items = self._segs = None

    def __contains__(self, x):
        return truth(contains(x, self))

    def __iter__(self):
        if self._segs is not None or self._acc is not None:
            raise Unsupported("native iteration over a symbolic set")
        return iter(self.parts())

    def __len__(self):
        if self._segs is not None or self._acc is not None:
            raise Unsupported("len of symbolic set")
        return len(self._items) if self._items is not None else set.__len__(self)

    def __bool__(self):
        if self._segs is not None:
            return seq_nonempty(from_parts(self._segs))
        return len(self) > 0

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        if is_symseq(self) or is_symseq(o):
            raise Unsupported("equality of symbolic sets")
        return len(self) == len(o) and all(truth(contains(x, o)) for x in self.parts())

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        if self._segs is not None:
            return f"ESet~{self._segs}"
        return "{" + ", ".join(map(repr, self._items if self._items is not None else set.__iter__(self))) + "}"


def _fold(a, os, f):
    for o in os:
        a = f(a, o)
    return a


class EDict(dict):
    """native while all keys are concrete; `_assoc` (ordered list of [k, v]) once a key is symbolic;
    `_segs` (parts that are (k, v) tuples or SymSeq of such) for maps of unbounded size"""

    _elem = False
    _assoc = None
    _segs = None
    _acc = None

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._serial = E.next_serial()
        for x in a:
            self.update(x)
        self.update(k)

    def _w(self, what, arg=None):
        if self._acc is not None:
            if what == "set":
                self._acc.append(arg)
                E.journal(lambda: self._acc.pop() if self._acc else None)
                return True
            raise NeedInvariant(f"dict.{what} on a loop accumulator")
        if self._elem:
            raise NeedInvariant(f"dict.{what} on an element of a symbolic list")
        if E.depth and not E.fresh_here(self):
            E.note_mutation(self)
            self._snap()
        return False

    def _snap(self):
        snap = dict.copy(self)
        assoc = None if self._assoc is None else [builtins.list(x) for x in self._assoc]
        segs = None if self._segs is None else builtins.list(self._segs)

        def undo():
            dict.clear(self)
            dict.update(self, snap)
            self._assoc, self._segs = assoc, segs

        E.journal(undo)

    def _find(self, k):
        """-> value or MISSING"""
        if self._acc is not None:
            raise NeedInvariant("loop accumulator (dict) read inside the loop")
        if self._segs is not None:
            # last write wins
            for p in reversed(self._segs):
                if isinstance(p, SymSeq):
                    hit = last_where(p, lambda kv: eq(kv[0], k))
                    if hit is not MISSING:
                        return hit[1]
                elif truth(eq(p[0], k)):
                    return p[1]
            return MISSING
        if self._assoc is not None:
            for kk, v in self._assoc:
                if kk is k or truth(eq(kk, k)):
                    return v
            return MISSING
        if has_sym_key(k):
            for kk in builtins.list(dict.keys(self)):
                if truth(eq(k, kk)):
                    return dict.__getitem__(self, kk)
            return MISSING
        return dict.get(self, k, MISSING)

    def __getitem__(self, k):
        v = self._find(k)
        if v is MISSING:
            return self.__missing__(k)
        return v

    def __missing__(self, k):
        raise KeyError(k)

    def get(self, k, d=None):
        v = self._find(k)
        return d if v is MISSING else v

    def __contains__(self, k):
        return self._find(k) is not MISSING

    has = __contains__

    def __setitem__(self, k, v):
        if self._elem and self._same(k, v):
            return
        if self._acc is None and not self._elem and E.depth and not E.fresh_here(self) and self._same(k, v):
            return  # leaves what is there: not a loop effect
        if self._w("set", (k, v)):
            return
        if self._segs is not None:
            self._segs.append((k, v))
            return
        if self._assoc is None and has_sym_key(k):
            for kk in builtins.list(dict.keys(self)):
                if truth(eq(k, kk)):
                    dict.__setitem__(self, kk, v)
                    return
            self._assoc = [[a, b] for a, b in dict.items(self)]
            dict.clear(self)
        if self._assoc is not None:
            for e_ in self._assoc:
                if e_[0] is k or truth(eq(e_[0], k)):
                    e_[1] = v
                    return
            self._assoc.append([k, v])
            return
        dict.__setitem__(self, k, v)

    def _same(self, k, v):
        """the write leaves what is already there"""
        old = self._find(k)
        return old is v or (isinstance(old, (str, SStr)) and isinstance(v, (str, SStr)) and eq(old, v) is True)

    def __delitem__(self, k):
        if self._segs is not None:
            raise Unsupported("del on a symbolic map")
        if not self.has(k):
            raise KeyError(k)
        self._w("del")
        if self._assoc is not None or has_sym_key(k):
            if self._assoc is None:
                self._assoc = [[a, b] for a, b in dict.items(self)]
                dict.clear(self)
            self._assoc = [e_ for e_ in self._assoc if not truth(eq(e_[0], k))]
            return
        dict.__delitem__(self, k)

    def pop(self, k, *d):
        v = self._find(k)
        if v is MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return v

    def setdefault(self, k, d=None):
        v = self._find(k)
        if v is MISSING:
            self[k] = d
            return d
        return v

    def update(self, *a, **k):
        for x in a:
            if isinstance(x, EDict):
                for p in x.item_parts():
                    if isinstance(p, SymSeq):
                        self._w("update")
                        if self._segs is None:
                            self._segs = self.item_parts()
                            dict.clear(self)
                            self._assoc = None
                        self._segs.append(p)
                    else:
                        self[p[0]] = p[1]
            elif isinstance(x, dict):
                for kk in x:
                    self[kk] = x[kk]
            elif hasattr(x, "keys"):
                for kk in x.keys():
                    self[kk] = x[kk]
            elif is_symseq(x):
                self._w("update")
                if self._segs is None:
                    self._segs = self.item_parts()
                    dict.clear(self)
                    self._assoc = None
                self._segs.extend(parts_of(x))
            else:
                for kk, v in x:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def item_parts(self):
        if self._acc is not None:
            raise NeedInvariant("loop accumulator (dict) read inside the loop")
        if self._segs is not None:
            return builtins.list(self._segs)
        if self._assoc is not None:
            return [(a, b) for a, b in self._assoc]
        return builtins.list(dict.items(self))

    def _sym(self):
        return self._segs is not None

    def items(self):
        if self._sym() or self._acc is not None:
            # a later write to an equal key replaces the earlier one: not expressible as concatenation
            raise NeedInvariant("items() of a map of unbounded size")
        return EList(self.item_parts())

    def keys(self):
        if self._sym() or self._acc is not None:
            raise NeedInvariant("keys() of a map of unbounded size")
        return EKeys([k for k, _ in self.item_parts()])

    def values(self):
        if self._sym() or self._acc is not None:
            raise NeedInvariant("values() of a map of unbounded size")
        return EList([v for _, v in self.item_parts()])

    def __iter__(self):
        if self._sym() or self._acc is not None:
            raise Unsupported("native iteration over a symbolic map")
        return iter([k for k, _ in self.item_parts()])

    def __len__(self):
        if self._sym() or self._acc is not None:
            raise Unsupported("len of a symbolic map")
        return len(self._assoc) if self._assoc is not None else dict.__len__(self)

    def __bool__(self):
        if self._sym():
            return seq_nonempty(from_parts(self._segs))
        return len(self) > 0

    def copy(self):
        r = EDict()
        r.update(self)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return deepcopy_(self)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def clear(self):
        self._w("clear")
        dict.clear(self)
        self._assoc = self._segs = None

    def popitem(self):
        raise Unsupported("popitem")

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return snot(eq(self, o))

    __hash__ = None

    def __reduce__(self):
        return (EDict, (dict(self.item_parts()),))

    def __repr__(self):
        if self._segs is not None:
            return f"EDict~{self._segs}"
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in (self._assoc if self._assoc is not None else dict.items(self))) + "}"


class EKeys(EList):
    def __sub__(self, o):
        return ESet(self) - o

    def __and__(self, o):
        return ESet(self) & o

    def __or__(self, o):
        return ESet(self) | o


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class SymDict(EDict):
    """a dict input whose keys are materialised on first access.
    spec: key -> (maker(), presence) with presence True or a thunk giving a SBool"""

    def __init__(self, spec, label=""):
        dict.__init__(self)
        self._serial = E.next_serial()
        self._spec = dict(spec)
        self.label = label

    def _force(self, k):
        sp = self._spec.pop(k, None)
        if sp is None:
            return
        if E.depth and not E.fresh_here(self):

            def undo(k=k, sp=sp):
                self._spec[k] = sp
                dict.pop(self, k, None)

            E.journal(undo)
        maker, presence = sp
        if presence is True or truth(presence()):
            v = maker()
            dict.__setitem__(self, k, mark_elem(v) if self._elem else v)

    def _force_all(self):
        for k in builtins.list(self._spec):
            self._force(k)

    def _snap(self):
        snap, spec = dict.copy(self), dict(self._spec)
        assoc = None if self._assoc is None else [builtins.list(x) for x in self._assoc]

        def undo():
            dict.clear(self)
            dict.update(self, snap)
            self._spec.clear()
            self._spec.update(spec)
            self._assoc = assoc

        E.journal(undo)

    def _find(self, k):
        if has_sym_key(k):
            for kk in builtins.list(self._spec):
                if truth(eq(k, kk)):
                    self._force(kk)
                    return dict.get(self, kk, MISSING)
            return EDict._find(self, k)
        self._force(k)
        return EDict._find(self, k)

    def __setitem__(self, k, v):
        if self._acc is None:
            if not has_sym_key(k):
                if self._elem and self._same(k, v):
                    return
                self._w("set")
                self._spec.pop(k, None)
                dict.__setitem__(self, k, v)
                return
            self._force_all()
        EDict.__setitem__(self, k, v)

    def item_parts(self):
        self._force_all()
        return EDict.item_parts(self)

    def __delitem__(self, k):
        self._force(k)
        EDict.__delitem__(self, k)

    def lazy_copy(self, deep=True):
        c = SymDict({}, self.label)
        for k, v in dict.items(self):
            dict.__setitem__(c, k, deepcopy_(v) if deep else v)
        src = self
        for k in self._spec:
            # share the materialisation with the original, so that both see one choice
            c._spec[k] = (
                (lambda k=k: deepcopy_(dict.__getitem__(src, k)) if deep else dict.__getitem__(src, k)),
                (lambda k=k: (src._force(k), dict.__contains__(src, k))[1]),
            )
        return c

    def copy(self):
        return self.lazy_copy(False)

    __copy__ = copy

    def __len__(self):
        self._force_all()
        return dict.__len__(self)

    def __bool__(self):
        if dict.__len__(self):
            return True
        if any(p is True for _, p in self._spec.values()):
            return True
        self._force_all()
        return dict.__len__(self) > 0

    def __repr__(self):
        return f"SymDict<{self.label}>({dict.__repr__(self)} + {builtins.list(self._spec)})"

    def _subst(self, sb):
        memo = sb.memo.get(id(self))
        if memo is not None:
            return memo[0]
        c = SymDict({}, self.label)
        c._serial = self._serial
        c._elem = True
        sb.memo[id(self)] = (c, self)
        for k, v in dict.items(self):
            dict.__setitem__(c, k, sb.v(v))
        src = self

        for k, (mk, pr) in self._spec.items():
            c._spec[k] = (
                (lambda mk=mk: Subst(sb.pairs).v(mk())),
                True if pr is True else (lambda pr=pr: Subst(sb.pairs).v(pr())),
            )
        return c


def has_sym_key(k):
    if isinstance(k, Sym) or isinstance(k, Poison):
        return True
    if isinstance(k, tuple):
        return any(has_sym_key(x) for x in k)
    # a program object with a hash of its own: kept apart by its own __eq__, pair by pair
    # (the convention that equal objects have equal hashes is assumed)
    return own_hash(k)


def own_hash(k):
    """a program object with a hash of its own"""
    h = getattr(type(k), "__hash__", None)
    return type(h) is types.FunctionType and h.__module__.startswith("metrics_layer") and not isinstance(k, enum.Enum)


def deepcopy_(v):
    if isinstance(v, SymDict):
        return v.lazy_copy(True)
    if isinstance(v, EDict):
        if v._segs is not None:
            r = EDict()
            r._segs = builtins.list(v._segs)
            return r
        r = EDict()
        for k, x in v.item_parts():
            r[k] = deepcopy_(x)
        return r
    if isinstance(v, dict) and type(v) is dict:
        r = EDict()
        for k, x in v.items():
            r[k] = deepcopy_(x)
        return r
    if isinstance(v, (list, tuple)):
        if isinstance(v, EList) and v._segs is not None:
            return from_parts(v._segs)
        return EList([deepcopy_(x) for x in v])
    return v


# --------------------------------------------------------------------------------------------- sequences
def mark_elem(v):
    """v is a view of an element of a symbolic list: writing to it would not write to the list"""
    if isinstance(v, EList):
        v._elem = True
        for x in list.__iter__(v):
            mark_elem(x)
    elif isinstance(v, SymDict):
        v._elem = True
        for x in dict.values(v):
            mark_elem(x)
    elif isinstance(v, EDict):
        v._elem = True
        if v._segs is None:
            for _, x in v.item_parts():
                mark_elem(x)
    elif isinstance(v, ESet):
        v._elem = True
    elif isinstance(v, tuple):
        for x in v:
            mark_elem(x)
    return v


class SymSeq:
    """an unbounded sequence segment over a base index: instantiate(k) gives the list of parts at index k"""

    def instantiate(self, k):
        raise NotImplementedError


class InputSeq(SymSeq):
    def __init__(self, key, args, length, elem, lo=None, hi=None):
        self.key, self.args, self.length, self.elem = key, args, length, elem
        self.lo = lo if lo is not None else z3.IntVal(0)
        self.hi = hi if hi is not None else length

    def base(self):
        return self

    def instantiate(self, k):
        return [mark_elem(self.elem(k))]

    def slice(self, lo, hi):
        return InputSeq(self.key, self.args, self.length, self.elem, lo, hi)

    def _subst(self, sb):
        na = [sb.e(a) for a in self.args]
        lo, hi, ln = sb.e(self.lo), sb.e(self.hi), sb.e(self.length)
        if all(a.eq(b) for a, b in zip(na, self.args)) and lo.eq(self.lo) and hi.eq(self.hi) and ln.eq(self.length):
            # elements may still depend on the index through the maker's captured args: they are `args`
            return self
        el = self.elem
        return InputSeq(self.key, na, ln, (lambda k: Subst(sb.pairs).v(el(k))), lo, hi)

    def same_base(self, o):
        return self.key == o.key and len(self.args) == len(o.args)

    def __repr__(self):
        return f"<{self.key}{self.args or ''}>"


class Comp(SymSeq):
    """for k in [lo, hi) of src: the parts of the branch whose conditions hold at k"""

    def __init__(self, src, k, branches):
        self.src, self.k, self.branches = src, k, branches

    def base(self):
        return self.src

    def instantiate(self, k):
        sb = Subst([(self.k, k)])
        for conds, parts in self.branches:
            cs = [sb.e(c) for c in conds]
            c = _TRUE if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)
            if E.decide(c):
                return [sb.v(p) for p in parts]
        raise Abort  # branches are exhaustive

    def slice(self, lo, hi):
        return Comp(self.src.slice(lo, hi), self.k, self.branches)

    def _subst(self, sb):
        ns = self.src._subst(sb)
        nb, ch = [], ns is not self.src
        for conds, parts in self.branches:
            nc = [sb.e(c) for c in conds]
            np = [sb.v(p) for p in parts]
            if any(a is not b and not a.eq(b) for a, b in zip(nc, conds)) or any(a is not b for a, b in zip(np, parts)):
                ch = True
            nb.append((nc, np))
        return Comp(ns, self.k, nb) if ch else self

    def __repr__(self):
        return f"<comp over {self.src} {[(p) for c, p in self.branches]}>"


class OpaqueSeq(SymSeq):
    """an order-only transformation of a symbolic list (sorted, reversed, deduplicated): kept as a term"""

    def __init__(self, op, parts, extra=None):
        self.op, self.parts, self.extra = op, parts, extra

    def _subst(self, sb):
        np = [sb.v(p) for p in self.parts]
        if all(a is b for a, b in zip(np, self.parts)):
            return self
        return OpaqueSeq(self.op, np, self.extra)

    def __repr__(self):
        return f"<{self.op} {self.parts}>"


class Subst:
    def __init__(self, pairs):
        self.pairs = pairs
        self.memo = {}

    def e(self, x):
        r = z3.substitute(x, *self.pairs)
        return r

    def v(self, v):
        if isinstance(v, (str, int, float, bytes, type(None), type, bool)):
            return v
        if isinstance(v, (Sym, SymSeq, SymDict)):
            return v._subst(self)
        if id(v) in self.memo:
            return self.memo[id(v)][0]
        if isinstance(v, EList):
            self.memo[id(v)] = (v, v)
            if v._segs is not None:
                np = [self.v(p) for p in v._segs]
                if all(a is b for a, b in zip(np, v._segs)):
                    return v
                r = from_parts(np)
            else:
                old = builtins.list(list.__iter__(v))
                np = [self.v(p) for p in old]
                if all(a is b for a, b in zip(np, old)):
                    return v
                r = EList(np)
            self.memo[id(v)] = (r, v)
            return r
        if isinstance(v, EDict):
            ps = v.item_parts()
            np = [self.v(p) for p in ps]
            if all(a is b or (isinstance(a, tuple) and a[0] is b[0] and a[1] is b[1]) for a, b in zip(np, ps)):
                self.memo[id(v)] = (v, v)
                return v
            r = EDict()
            if v._segs is not None:
                r._segs = np
            else:
                for k, x in np:
                    r[k] = x
            self.memo[id(v)] = (r, v)
            return r
        if isinstance(v, ESet):
            ps = v.parts()
            np = [self.v(p) for p in ps]
            if all(a is b for a, b in zip(np, ps)):
                return v
            return ESet(from_parts(np))
        if isinstance(v, tuple):
            np = [self.v(p) for p in v]
            if all(a is b for a, b in zip(np, v)):
                return v
            return tuple(np) if type(v) is tuple else type(v)(*np)
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict) and not isinstance(v, (type, type(sys))) and not callable(v):
            self.memo[id(v)] = (v, v)
            new, ch = {}, False
            for k, x in d.items():
                y = self.v(x)
                ch = ch or y is not x
                new[k] = y
            if not ch:
                return v
            r = object.__new__(type(v))
            r.__dict__.update(new)
            self.memo[id(v)] = (r, v)
            return r
        return v


def parts_of(x):
    if isinstance(x, EList):
        x._r()
        return builtins.list(x._segs) if x._segs is not None else builtins.list(list.__iter__(x))
    if isinstance(x, ESet):
        return x.parts()
    if isinstance(x, EDict):
        return parts_of(x.keys())
    if isinstance(x, SymSeq):
        return [x]
    if isinstance(x, GenSeq):
        return parts_of(x.force())
    if isinstance(x, Poison):
        x._bad()
    return builtins.list(x)


def ordered(x):
    """parts of x where order and multiplicity matter"""
    if isinstance(x, (ESet, EDict)) and is_symseq(x):
        raise NeedInvariant("a list made from a set or map of unbounded size")
    return parts_of(x)


def from_parts(parts):
    r = EList()
    if any(isinstance(p, SymSeq) for p in parts):
        r._segs = builtins.list(parts)
    else:
        list.extend(r, parts)
    return r


class GenSeq:
    """generator expression / map over a symbolic iterable: single use, evaluated by its consumer"""

    def __init__(self, it, cond, elt, nested):
        self.a = (it, cond, elt, nested)

    def __iter__(self):
        out = self.force()
        if is_symseq(out):
            raise Unsupported("iterating a generator over a sequence of unknown length")
        return iter(out)

    def force(self):
        it, cond, elt, nested = self.a
        return E.comp("list", it, cond, elt, nested)

    def loop(self, fn):
        it, cond, elt, nested = self.a

        def body(x):
            if cond is not None and not truth(cond(x)):
                return None
            y = elt(x)
            if nested:
                return loop(y, fn)
            return fn(y)

        return loop(it, body)


def is_symseq(x):
    if isinstance(x, EList):
        return x._segs is not None or x._acc is not None
    if isinstance(x, (ESet, EDict)):
        return x._segs is not None or x._acc is not None
    return isinstance(x, (SymSeq, GenSeq, Poison))


def loop(it, fn):
    """run fn (-> None | Ret | BRK) over any iterable; symbolic segments are summarised"""
    return E.forloop(it, fn, None, None, (), "loop")


# ------------------------------------------------------------------------------------------- operations
def truth(v):
    if v is True or v is False:
        return v
    return bool(v)


def eq(a, b):
    """Python ==, as bool or SBool"""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise NeedInvariant("loop-dependent value compared")
    if isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            import enum

            if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
                en, other = (a, b) if isinstance(a, enum.Enum) else (b, a)
                ty = type(en)
                if ty.__eq__ is not str.__eq__ and "__eq__" in ty.__dict__:
                    return en == other  # class-defined equality decides (may raise, as CPython would)
                return str_eq(str(en.value), other)
            return str_eq(a, b)
        o = b if isinstance(a, SStr) else a
        if isinstance(o, (type(None), int, float, list, dict, tuple, set, SInt, SBool)):
            return False
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        sa, sb_ = is_symseq(a), is_symseq(b)
        if sa or sb_:
            for x, y in ((a, b), (b, a)):
                if not is_symseq(x) and len(x) == 0:
                    return not seq_nonempty(y)
            return SeqEq(a, b)
        xa, xb = parts_of(a), parts_of(b)
        if len(xa) != len(xb):
            return False
        return sand(*[eqb(x, y) for x, y in zip(xa, xb)])
    if isinstance(a, EDict) or isinstance(b, EDict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        if is_symseq(a) or is_symseq(b):
            for x, y in ((a, b), (b, a)):
                if not is_symseq(x) and len(x) == 0:
                    return not bool(y)
            raise Unsupported("equality of symbolic maps")
        ia = a.item_parts() if isinstance(a, EDict) else builtins.list(a.items())
        nb = len(b)
        if len(ia) != nb:
            return False
        out = []
        for k, v in ia:
            w = b._find(k) if isinstance(b, EDict) else b.get(k, MISSING)
            if w is MISSING:
                return False
            out.append(eqb(v, w))
        return sand(*out)
    if isinstance(a, (EList, EDict)) or isinstance(b, (EList, EDict)):
        return False
    return a == b


def eqb(a, b):
    r = eq(a, b)
    if isinstance(r, (bool, SBool)):
        return r
    return truth(r)


class SeqEq(SBool):
    def __init__(self, a, b):
        self.a, self.b = a, b

    @property
    def e(self):
        raise Unsupported("equality of symbolic sequences used as a condition")

    def __bool__(self):
        raise Unsupported("equality of symbolic sequences used as a condition")


def contains(x, c):
    if isinstance(c, SStr):
        return c.contains_(x)
    if isinstance(c, str):
        if isinstance(x, SStr):
            return mkbool(z3.Contains(z3.StringVal(c), x.z3()))
        return x in c
    if isinstance(c, EDict):
        return c._find(x) is not MISSING
    if isinstance(c, Poison):
        c._bad()
    if isinstance(c, (EList, ESet, SymSeq, GenSeq)) and is_symseq(c):
        r = loop(c, lambda y: Ret(True) if truth(eq(y, x)) else None)
        return r is not None
    if isinstance(c, (EList, ESet, tuple, list)):
        if isinstance(c, ESet) and c._items is None and not has_sym_key(x):
            return set.__contains__(c, x)
        rs = []
        for y in parts_of(c):
            if y is x:
                return True
            r = eq(y, x)
            if r is True:
                return True
            if isinstance(r, SBool):
                rs.append(r)
            elif truth(r):
                return True
        return sor(*rs)
    if isinstance(c, (set, frozenset, dict)) and has_sym_key(x):
        return sor(*[eqb(x, y) for y in c])
    return x in c


def getitem(a, i):
    if isinstance(a, SStr):
        return a.getitem_(i)
    if isinstance(a, EList):
        if a._acc is not None:
            raise NeedInvariant("loop accumulator indexed inside the loop")
        if a._segs is None:
            if isinstance(i, SInt):
                n = list.__len__(a)
                for j in range(-n, n):
                    if E.decide(i.e == j):
                        return list.__getitem__(a, j)
                raise IndexError("list index out of range")
            r = list.__getitem__(a, i)
            return EList(r) if isinstance(i, slice) else r
        return seq_index(a, i)
    if isinstance(a, EDict):
        return a[i]
    if isinstance(a, dict) and has_sym_key(i):
        for k in builtins.list(a):
            if truth(eq(i, k)):
                return a[k]
        raise KeyError(i)
    if isinstance(a, Poison):
        a._bad()
    if isinstance(a, (list, tuple)) and isinstance(i, SInt):
        for j in range(-len(a), len(a)):
            if E.decide(i.e == j):
                return a[j]
        raise IndexError("index out of range")
    return a[i]


def seq_nonempty(x):
    ps = parts_of(x)
    cs = []
    for p in ps:
        if not isinstance(p, SymSeq):
            return True
        while isinstance(p, Comp) and all(any(not isinstance(y, SymSeq) for y in parts) for _, parts in p.branches):
            p = p.src
        if not isinstance(p, InputSeq):
            cs = None
            break
        cs.append(p.lo < p.hi)
    if cs is not None:
        return E.decide(z3.Or(*cs) if cs else _FALSE)
    r = loop(x, lambda y: Ret(True))
    return r is not None


def zif(c, a, b):
    """if-then-else over indices, simplified by what is known on the path"""
    c = z3.simplify(c)
    if z3.is_true(c) or (not z3.is_false(c) and E._sat(z3.Not(c)) == z3.unsat):
        return z3.simplify(a)
    if z3.is_false(c) or E._sat(c) == z3.unsat:
        return z3.simplify(b)
    return z3.simplify(z3.If(c, a, b))


def seq_index(a, i):
    ps = a._segs
    if isinstance(i, slice):
        if i.start is None and i.stop is None and i.step is None:
            return from_parts(ps)
        if len(ps) == 1 and isinstance(ps[0], InputSeq) and i.step is None and (i.start or 0) >= 0 and i.stop is None:
            s = ps[0]
            lo = s.lo + (i.start or 0)
            return from_parts([s.slice(zif(lo > s.hi, s.hi, lo), s.hi)])
        if i.start is None and i.step is None and i.stop == -1 and len(ps) == 1 and isinstance(ps[0], InputSeq):
            s = ps[0]
            hi = s.hi - 1
            return from_parts([s.slice(s.lo, zif(hi < s.lo, s.lo, hi))])
        raise Unsupported("slice of a symbolic list")
    if i == 0:
        r = loop(a, lambda y: Ret(y))
        if r is None:
            raise IndexError("list index out of range")
        return r.value
    if i == -1:
        for p in reversed(ps):
            if isinstance(p, SymSeq):
                hit = last_where(p, lambda y: True)
                if hit is not MISSING:
                    return hit
            else:
                return p
        raise IndexError("list index out of range")
    if len(ps) == 1 and isinstance(ps[0], InputSeq) and isinstance(i, (int, SInt)):
        s = ps[0]
        ie = i.e if isinstance(i, SInt) else z3.IntVal(i)
        n = s.hi - s.lo
        if isinstance(i, int) and i < 0:
            ie = n + ie
        if E.decide(z3.And(ie >= 0, ie < n)):
            k = z3.simplify(s.lo + ie)
            E.index_term(s, k)
            return s.elem(k)
        raise IndexError("list index out of range")
    raise Unsupported("index into a symbolic list")


def last_where(seq, pred):
    """last element satisfying pred, or MISSING"""
    return E.find(seq, pred, last=True)


def as_str(v):
    if isinstance(v, (str, SStr)):
        import enum

        if isinstance(v, enum.Enum):
            return str(v)
        return v
    if isinstance(v, SInt):
        return int_to_str(v)
    if isinstance(v, SBool):
        return "True" if truth(v) else "False"
    if isinstance(v, SVal):
        f = z3.Function("py_str", U, STR)
        return mkstr([Atom(f(v.e))])
    if isinstance(v, Poison):
        v._bad()
    if isinstance(v, (EList, ESet, EDict)) and deep_sym(v):
        # some text in the container's brackets (over-approximation: nothing else is assumed about it)
        l, r = "[]" if isinstance(v, EList) else "{}"
        return mkstr([l, Atom(E.fresh("repr", STR)), r])
    m = type(v).__str__
    if m is object.__str__:
        m = type(v).__repr__
    return m(v)


I2S = z3.Function("py_int_str", INT, STR)


def int_to_str(v):
    return mkstr([Atom(I2S(v.e), frozenset("-0123456789"), True, True)])


def deep_sym(v, depth=0, seen=None):
    if isinstance(v, (Sym, SymSeq, GenSeq, Poison, SymDict)):
        return True
    if depth > 6:
        return False
    if isinstance(v, (EList, ESet, EDict)):
        if v._segs is not None or v._acc is not None:
            return True
        if isinstance(v, EDict):
            if v._assoc is not None:
                return True
            return any(deep_sym(x, depth + 1) for x in dict.values(v))
        if isinstance(v, ESet):
            return v._items is not None and any(deep_sym(x, depth + 1) for x in v._items)
        return any(deep_sym(x, depth + 1) for x in list.__iter__(v))
    if isinstance(v, (list, tuple)):
        return any(deep_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(deep_sym(x, depth + 1) for x in v.values())
    return False


def sorted_(x, key=None, reverse=False):
    if is_symseq(x):
        return from_parts([OpaqueSeq("sorted" + (" reverse" if reverse else ""), ordered(x), key)])
    xs = ordered(x)
    if not any(deep_sym(y) for y in xs):
        if key is None:
            return EList(sorted(xs, reverse=bool(reverse)))
        ks = [key(y) for y in xs]
        if not any(deep_sym(k) for k in ks):
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
            return EList([xs[i] for i in idx])
    else:
        ks = [key(y) for y in xs] if key is not None else xs
        if len(xs) <= 1:
            return EList(xs)
        if not any(deep_sym(k) for k in ks):
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
            return EList([xs[i] for i in idx])
    if len(xs) <= 1:
        return EList(xs)
    if all(isinstance(k, (int, SInt)) for k in ks):
        # stable insertion sort with decided comparisons
        out = []
        for y, k in zip(xs, ks):
            j = len(out)
            while j > 0 and truth(out[j - 1][1] < k if reverse else k < out[j - 1][1]):
                j -= 1
            out.insert(j, (y, k))
        return EList([y for y, _ in out])
    return from_parts([OpaqueSeq("sorted" + (" reverse" if reverse else ""), xs, key)])


class RetT:
    __slots__ = ("value",)

    def __init__(self, v):
        self.value = v


Ret = RetT


class _BRK:
    pass


BRK = _BRK()


def unpack_pat(v, p):
    if p == 1:
        return [v]
    if isinstance(v, Poison):
        v._bad()
    vs = ordered(v) if isinstance(v, (EList,)) else builtins.list(v)
    if len(vs) != len(p):
        raise ValueError("unpack")
    out = []
    for x, q in zip(vs, p):
        out.extend(unpack_pat(x, q))
    return out


# ------------------------------------------------------------------------------------------------ engine
class Frame:
    __slots__ = ("trace", "pos", "conds", "serial0")

    def __init__(self):
        self.trace = []
        self.pos = 0
        self.conds = []
        self.serial0 = 0


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0


_EXMEMO = {}  # ast id -> applications of existential symbols below it (the ast is kept alive by the roots)
_EXROOTS = []


def ex_apps(e):
    """the applications of existential symbols (ex0, ex1, ...) occurring in e"""
    ctx = e.ctx
    cr = ctx.ref()
    i = e.get_id()
    hit = _EXMEMO.get(i)
    if hit is not None:
        return hit
    _EXROOTS.append(e)
    stack = [(e.as_ast(), i, False)]
    while stack:
        a, i, done = stack.pop()
        if i in _EXMEMO and not done:
            continue
        kind = z3.Z3_get_ast_kind(cr, a)
        if kind != z3.Z3_APP_AST:
            _EXMEMO[i] = ()
            continue
        app = z3.Z3_to_app(cr, a)
        n = z3.Z3_get_app_num_args(cr, app)
        args = [z3.Z3_get_app_arg(cr, app, j) for j in range(n)]
        ids = [z3.Z3_get_ast_id(cr, c) for c in args]
        if not done:
            stack.append((a, i, True))
            for c, ci in zip(args, ids):
                if ci not in _EXMEMO:
                    stack.append((c, ci, False))
            continue
        out = ()
        for ci in ids:
            for t in _EXMEMO[ci]:
                if not any(t.eq(o) for o in out):
                    out = out + (t,)
        nm = z3.Z3_get_symbol_string(cr, z3.Z3_get_decl_name(cr, z3.Z3_get_app_decl(cr, app)))
        if nm.startswith("ex") and nm[2:].isdigit():
            out = (z3.z3._to_expr_ref(a, ctx),) + out
        _EXMEMO[i] = out
    return _EXMEMO[e.get_id()]


class EngineT:
    Control = Control
    BRK = BRK
    Ret = RetT

    def __init__(self):
        self.active = False
        self.frames = []
        self.depth = 0
        self.stats = Stats()
        self.entered = {}
        self._serial = 0
        self.deadline = None
        self.bound = None
        self.solver = None
        self.timeout_ms = 4000
        self.max_paths = 200000
        self.call_models = {}
        self.memo = {}
        self.class_models = {}

    # ---- bookkeeping
    def next_serial(self):
        self._serial += 1
        return self._serial

    def enter(self, mod, qn, line):
        k = f"{mod}:{qn}"
        self.entered[k] = self.entered.get(k, 0) + 1

    def fresh(self, p, sort):
        self.counter += 1
        ctx = self.idx_stack
        if ctx:
            f = z3.Function(f"{p}!{self.counter}", *[INT] * len(ctx), sort)
            return f(*ctx)
        return z3.Const(f"{p}!{self.counter}", sort)

    def journal(self, undo):
        if self.depth:
            self._journal.append(undo)

    def fresh_here(self, obj):
        """created inside the current sub-path: survives its roll-back as (part of) the result"""
        return obj._serial > self.frames[-1].serial0

    def rollback(self, mark):
        while len(self._journal) > mark:
            self._journal.pop()()

    def note_mutation(self, obj):
        for lvl in self.mut:
            if obj._serial <= lvl["serial"]:
                lvl["objs"][id(obj)] = obj

    # ---- solver
    def _sat(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, c, is_cond=True):
        self.solver.add(c)
        if is_cond and self.frames:
            self.frames[-1].conds.append(c)
        self._scan(c)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.frames:
            raise Unsupported("symbolic branch outside exploration")
        fr = self.frames[-1]
        if fr.pos < len(fr.trace):
            v = fr.trace[fr.pos][0]
            fr.pos += 1
            self.add(c if v else z3.Not(c))
            return v
        self._scan(c)
        st = self._sat(c) != z3.unsat
        if st:
            sf = self._sat(z3.Not(c)) != z3.unsat
        else:
            sf = True
            if not self.frames[-1].conds and self._sat() == z3.unsat:
                raise Abort
        if not st and not sf:
            raise Abort
        v = st
        fr.trace.append([v, st and sf])
        fr.pos += 1
        self.add(c if v else z3.Not(c))
        return v

    def choose(self, n):
        """raw finite choice"""
        if n == 1:
            return 0
        fr = self.frames[-1]
        if fr.pos < len(fr.trace):
            v = fr.trace[fr.pos][0]
            fr.pos += 1
            return v
        fr.trace.append([0, n])
        fr.pos += 1
        return 0

    def assume(self, v):
        if v is True:
            return
        if v is False:
            raise Abort
        c = bexpr(v)
        self.add(c)
        if self._sat() == z3.unsat:
            raise Abort

    @staticmethod
    def _advance(fr):
        """next trace in DFS order, or False"""
        while fr.trace:
            e_ = fr.trace[-1]
            if e_[1] is True:  # boolean with the other side left
                e_[0], e_[1] = not e_[0], False
                return True
            if e_[1] is not False and not isinstance(e_[1], bool):  # n-ary
                if e_[0] + 1 < e_[1]:
                    e_[0] += 1
                    return True
            fr.trace.pop()
        return False

    def start_path(self):
        self.solver.reset()
        self.solver.set("timeout", self.timeout_ms)
        self.counter = 0
        self._serial = 0
        self._journal = []
        self.mut = []
        self.idx_stack = []
        self.ex_reg = {}
        self.ex_seen = set()
        self.universals = []
        self.index_terms = {}
        self.inst_seen = set()
        self.inputs = {}
        self.raw = {}
        self.cleanups = []
        self.axioms = []
        self.charset_done = set()
        self.created = {}
        self.memo = {}

    def lru(self, maxsize=128, typed=False):
        from .models import Lru

        if callable(maxsize):
            return Lru(maxsize, 128)
        return lambda fn: Lru(fn, maxsize)

    def explore(self, run, on_path):
        """run(): one path of the harness.  on_path(outcome) is called with the path still asserted"""
        self.active = True
        self.solver = z3.Solver()
        fr = Frame()
        self.frames = [fr]
        self.depth = 0
        n = 0
        try:
            while True:
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget")
                fr.pos, fr.conds = 0, []
                self.frames = [fr]
                self.depth = 0
                self.start_path()
                try:
                    run()
                    n += 1
                    on_path()
                except Abort:
                    pass
                finally:
                    for c in reversed(self.cleanups):
                        c()
                    self.cleanups = []
                if n > self.max_paths:
                    raise Budget("path budget")
                if not self._advance(fr):
                    break
        finally:
            self.active = False
            self.frames = []
            self.depth = 0
            self.stats.paths += n
        return n

    def subexplore(self, fn, keep_mut=False):
        """all paths of fn() from here; every mutation and assertion is undone after each of them.
        -> list of (conds, result)"""
        fr = Frame()
        out = []
        while True:
            fr.pos, fr.conds = 0, []
            fr.serial0 = self._serial
            self.frames.append(fr)
            self.depth += 1
            self.solver.push()
            mark = len(self._journal)
            saved = (
                len(self.universals),
                {k: list(v) for k, v in self.index_terms.items()},
                set(self.inst_seen),
                set(self.ex_seen),
                set(self.charset_done),
                len(self.axioms),
            )
            try:
                r = fn()
                out.append((list(fr.conds), r))
            except Abort:
                pass
            finally:
                self.rollback(mark)
                self.solver.pop()
                self.frames.pop()
                self.depth -= 1
                del self.universals[saved[0] :]
                self.index_terms = saved[1]
                self.inst_seen = saved[2]
                self.ex_seen = saved[3]
                self.charset_done = saved[4]
                del self.axioms[saved[5] :]
            if len(out) > 5000:
                raise Budget("sub-path budget")
            if not self._advance(fr):
                break
        return out

    # ---- existential definitions
    def index_term(self, seq, k):
        b = seq.base()
        lst = self.index_terms.setdefault(b.key, [])
        for t in lst:
            if t.eq(k):
                return
        lst.append(k)
        for u in list(self.universals):
            if u[0] == b.key:
                self._inst(u, k)

    def _universal(self, key, ident, fn):
        u = (key, ident, fn)
        self.universals.append(u)
        for k in list(self.index_terms.get(key, [])):
            self._inst(u, k)

    def _inst(self, u, k):
        tag = (u[1], k.get_id() if False else k.sexpr())
        if tag in self.inst_seen:
            return
        self.inst_seen.add(tag)
        f = u[2](k)
        self.solver.add(f)
        self._scan(f)

    def _scan(self, e):
        """register definitional axioms for every existential symbol occurring with new arguments"""
        if not self.ex_reg:
            return
        for x in ex_apps(e):
            nm = x.decl().name()
            d = self.ex_reg.get(nm)
            if d is not None:
                self._define(nm, d, [x.arg(j) for j in range(x.num_args())])

    def _define(self, nm, d, args):
        key = (nm, tuple(a.sexpr() for a in args))
        if key in self.ex_seen:
            return
        self.ex_seen.add(key)
        src, k, cond, params, ef, wf, last = d
        pairs = list(zip(params, args))
        sb = Subst(pairs)
        s2 = src._subst(sb) if pairs else src
        e_ = ef(*args) if args else ef()
        w_ = wf(*args) if args else wf()

        def at(j):
            return z3.substitute(cond, *(pairs + [(k, j)]))

        lo, hi = s2.lo, s2.hi
        f = z3.Implies(e_, z3.And(lo <= w_, w_ < hi, at(w_)))
        self.solver.add(f)
        self._scan(f)
        bkey = src.key
        self._universal(
            bkey,
            (nm, key, "none"),
            lambda j: z3.Implies(z3.And(z3.Not(e_), lo <= j, j < hi), z3.Not(at(j))),
        )
        if last:
            self._universal(
                bkey,
                (nm, key, "last"),
                lambda j: z3.Implies(z3.And(e_, j > w_, j < hi), z3.Not(at(j))),
            )
        else:
            self._universal(
                bkey,
                (nm, key, "first"),
                lambda j: z3.Implies(z3.And(e_, lo <= j, j < w_), z3.Not(at(j))),
            )
        self.index_term(s2, w_)

    def exists(self, src, k, cond, last=False):
        """-> (z3 Bool 'some index of src satisfies cond', witness term: first (or last) such index)"""
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return _FALSE, None
        if z3.is_true(cond):
            return z3.simplify(src.lo < src.hi), z3.simplify(src.hi - 1 if last else src.lo)
        # free generic indices
        occ = consts_of([cond, src.lo, src.hi] + list(src.args))
        params = [t for t in self.idx_stack if not t.eq(k) and t.get_id() in occ]
        canon = z3.Const("κ", INT)
        ps = [z3.Const(f"π{i}", INT) for i in range(len(params))]
        prs = [(k, canon)] + list(zip(params, ps))
        sig = (
            src.key,
            z3.substitute(cond, *prs).sexpr(),
            z3.substitute(src.lo, *prs).sexpr(),
            z3.substitute(src.hi, *prs).sexpr(),
            tuple(z3.substitute(a, *prs).sexpr() for a in src.args),
            last,
        )
        names = self.ex_reg.setdefault("#names", {})
        nm = names.get(sig)
        if nm is None:
            nm = f"ex{len(names)}"
            names[sig] = nm
            ef = z3.Function(nm, *[INT] * len(params), BOOL)
            wf = z3.Function("w_" + nm, *[INT] * len(params), INT)
            self.ex_reg[nm] = (src, k, cond, params, ef, wf, last)
        d = self.ex_reg[nm]
        ef, wf = d[4], d[5]
        e_ = ef(*params) if params else ef()
        w_ = wf(*params) if params else wf()
        self._scan(e_)
        return e_, w_

    # ---- loops
    def native_iter(self, it):
        if is_symseq(it):
            raise Unsupported("symbolic iteration in a loop outside the subset")
        if isinstance(it, SStr):
            raise Unsupported("iteration over a symbolic string")
        return it

    def caught(self):
        """first thing in every except-handler: an exception of the verifier must not be taken for the program's"""
        if self.active:
            program_error(sys.exc_info()[1])

    def is_ret(self, s):
        return isinstance(s, RetT)

    def forloop(self, it, body, get, set_, targets, where):
        if isinstance(it, SStr):
            raise Unsupported("iteration over a symbolic string")
        if isinstance(it, GenSeq):
            it = it.force()
        if not is_symseq(it):
            if isinstance(it, (EList, ESet)):
                # python iterates a list live; sets and dicts raise when resized
                if isinstance(it, EList):
                    i = 0
                    while i < list.__len__(it):
                        s = body(list.__getitem__(it, i))
                        if s is not None:
                            return s
                        i += 1
                    return None
                it = it.parts()
            elif isinstance(it, EDict):
                it = [k for k, _ in it.item_parts()]
            for x in it:
                s = body(x)
                if s is not None:
                    return s
            return None
        unordered = isinstance(it, (ESet, EDict))
        for p in parts_of(it):
            if isinstance(p, SymSeq):
                s = self.summarise(p, body, get, set_, targets, where, unordered)
            else:
                s = body(p)
            if s is not None:
                return s
        return None

    def run_parts(self, parts, body):
        for p in parts:
            if isinstance(p, SymSeq):
                s = self.summarise(p, body, None, None, (), "inner")
            else:
                s = body(p)
            if s is not None:
                return s
        return None

    def summarise(self, seq, body, get, set_, targets, where, unordered=False):
        if isinstance(seq, OpaqueSeq):
            raise Unsupported(f"loop over {seq.op} of a symbolic list at {where}")
        src = seq.base()
        self.counter += 1
        k = z3.Const(f"k!{self.counter}", INT)
        in_range = z3.And(src.lo <= k, k < src.hi)
        v0 = get() if get else {}
        acc_objs = {}
        acc_locals = {}
        acc_attrs = {}

        def one():
            self.add(in_range, is_cond=False)
            self.index_term(src, k)
            self.idx_stack.append(k)
            lvl = {"serial": ser, "objs": {}, "attrs": {}}
            self.mut.append(lvl)
            for o in acc_objs.values():
                o._acc = []
            for o, n in acc_attrs.values():
                self.poison_attr(o, n, where)
            exc = None
            try:
                try:
                    sig = self.run_parts(seq.instantiate(k), body)
                except Control:
                    raise
                except Exception as ex:
                    program_error(ex)
                    sig, exc = "raise", ex
                v1 = get() if get else {}
                acc = {i: list(o._acc) for i, o in acc_objs.items()}
                return sig, exc, v1, acc, (dict(lvl["objs"]), dict(lvl["attrs"]))
            finally:
                for o in acc_objs.values():
                    o._acc = None
                self.mut.pop()
                self.idx_stack.pop()
                if set_:
                    set_(vstart)

        for attempt in range(8):
            ser = self._serial
            vstart = dict(v0)
            for n in acc_locals:
                vstart[n] = acc_locals[n][0]
            if set_:
                set_(vstart)
            branches = self.subexplore(one)
            again = False
            for conds, (sig, exc, v1, acc, (objs, attrs)) in branches:
                if sig is not None:
                    continue
                for i, o in attrs.items():
                    if i not in acc_attrs:
                        acc_attrs[i] = o
                        again = True
                for i, o in objs.items():
                    if i not in acc_objs:
                        acc_objs[i] = o
                        again = True
                for n, x in v1.items():
                    if n in targets:
                        continue
                    if n not in vstart or x is not vstart[n]:
                        if n not in acc_locals:
                            acc_locals[n] = self._acc_local(n, v0, branches, where)
                            again = True
            if not again:
                break
        else:
            raise NeedInvariant(f"loop summary does not stabilise at {where}")
        if set_:
            set_(dict(v0))
        # mutations on exiting branches only are replayed natively below
        exits = [(c, r) for c, r in branches if r[0] is not None]
        stays = [(c, r) for c, r in branches if r[0] is None]

        def finish(rng_src):
            """effects of the non-exiting iterations over rng_src"""
            for o, n in acc_attrs.values():
                self.note_attr(o, n, self.created.get(id(o)))
                self.poison_attr(o, n, where)
            for i, o in acc_objs.items():
                bs = [(c, r[3][i]) for c, r in stays]
                if not any(parts for _, parts in bs):
                    continue
                comp = Comp(rng_src, k, [(c, list(ps)) for c, ps in bs] + [(c, []) for c, r in exits])
                comp = normal(comp)
                if unordered and not isinstance(o, ESet):
                    raise NeedInvariant(f"order-dependent loop over a set or map at {where}")
                if isinstance(o, EList):
                    o._w("summary") if o._acc is None else None
                    if o._acc is not None:
                        o._acc.append(comp)
                    else:
                        if o._segs is None:
                            o._segs = list.copy(o)
                            list.clear(o)
                        o._segs.append(comp)
                elif isinstance(o, ESet):
                    o._w("summary")
                    if o._segs is None:
                        o._segs = o.parts()
                        set.clear(o)
                        o._items = None
                    o._segs.append(comp)
                elif isinstance(o, EDict):
                    if isinstance(o, SymDict):
                        raise NeedInvariant("loop writes a lazily typed dict")
                    o._w("summary")
                    if o._segs is None:
                        o._segs = o.item_parts()
                        dict.clear(o)
                        o._assoc = None
                    o._segs.append(comp)
            if set_:
                v = dict(v0)
                for n in targets:
                    v[n] = Poison(f"loop variable {n} used after the loop at {where}")
                for n, (ph, kind, info) in acc_locals.items():
                    if kind == "str":
                        if unordered:
                            raise NeedInvariant(f"order-dependent loop over a set or map at {where}")
                        bs = []
                        if not any(info in sparts(r[2][n]) and len(sparts(r[2][n])) > 1 for _, r in stays):
                            # overwritten, never extended
                            v[n] = Poison(f"loop-local {n} used after the loop at {where}")
                            continue
                        for c, r in stays:
                            x = r[2][n]
                            ps = sparts(x)
                            if not ps or ps[0] is not info:
                                raise NeedInvariant(f"string accumulator {n} at {where}")
                            bs.append((c, [mkstr(ps[1:])] if len(ps) > 1 else []))
                        comp = normal(Comp(rng_src, k, bs + [(c, []) for c, r in exits]))
                        v[n] = mkstr(list(sparts(v0[n])) + [JoinAtom("", [comp])])
                    elif kind == "flag":
                        const = info[0]
                        cond = z3.Or(*[z3.And(*c) if c else _TRUE for c, r in stays if r[2].get(n, MISSING) is not ph])
                        e_, w_ = self.exists(rng_src, k, cond)
                        if self.decide(e_):
                            v[n] = const
                        # else unchanged
                    elif kind == "temp":
                        v[n] = Poison(f"loop-local {n} used after the loop at {where}")
                set_(v)

        if not exits:
            self._touch(acc_objs)
            finish(src)
            return None
        cond = z3.Or(*[z3.And(*c) if c else _TRUE for c, r in exits])
        e_, w_ = self.exists(src, k, cond)
        self._touch(acc_objs)
        if not self.decide(e_):
            finish(src)
            return None
        finish(src.slice(src.lo, w_))
        if set_:
            # the exiting iteration runs natively on the witness
            cur = get()
            for n, (ph, kind, info) in acc_locals.items():
                if kind == "temp":
                    cur[n] = v0.get(n, Poison(n)) if n in v0 else Poison(f"loop-local {n} at {where}")
            set_(cur)
        self.index_term(src, w_)
        sig = self.run_parts(seq.instantiate(w_), body)
        if sig is None:
            self.dead("exiting iteration of the loop", where)
        return sig

    def dead(self, what, where=""):
        """a path the summary excludes: must be infeasible"""
        if self._sat() == z3.unsat:
            raise Abort
        raise NeedInvariant(f"{what} does not follow its summary {where}")

    def _touch(self, objs):
        """register summarised containers with enclosing summaries"""
        for o in objs.values():
            if o._acc is None and self.depth:
                self.note_mutation(o)

    def _acc_local(self, n, v0, branches, where):
        """classify a local modified by the loop body -> (placeholder, kind, info)"""
        if n not in v0:
            return (Poison(f"{n} carried between iterations at {where}"), "temp", None)
        init = v0[n]
        vals = []
        for _, (sig, exc, v1, acc, objs) in branches:
            if sig is None and n in v1 and v1[n] is not init:
                vals.append(v1[n])
        if isinstance(init, (str, SStr)) and all(isinstance(x, (str, SStr)) for x in vals):
            a = AccAtom()
            return (SStr([a]), "str", a)
        consts = []
        for x in vals:
            if isinstance(x, (bool, int, str, type(None))) and not any(c is x or c == x for c in consts):
                consts.append(x)
            elif not isinstance(x, (bool, int, str, type(None))):
                consts = None
                break
        if consts is not None and len(consts) == 1 and isinstance(init, (bool, type(None), str, int)):
            return (Poison(f"{n} read inside the loop at {where}"), "flag", consts)
        return (Poison(f"{n} carried between iterations at {where}"), "temp", None)

    def find(self, seq, pred, last=False):
        """last element of a segment satisfying pred or MISSING"""
        if isinstance(seq, OpaqueSeq):
            raise Unsupported("find in opaque sequence")
        src = seq.base()
        self.counter += 1
        k = z3.Const(f"k!{self.counter}", INT)

        def one():
            self.add(z3.And(src.lo <= k, k < src.hi), is_cond=False)
            self.index_term(src, k)
            self.idx_stack.append(k)
            lvl = {"serial": self._serial, "objs": {}, "attrs": {}}
            self.mut.append(lvl)
            try:
                ps = seq.instantiate(k)
                if any(isinstance(p, SymSeq) for p in ps):
                    raise Unsupported("find in nested sequence")
                return any(truth(pred(p)) for p in ps)
            finally:
                self.mut.pop()
                self.idx_stack.pop()
                if lvl["objs"] or lvl["attrs"]:
                    raise NeedInvariant("search predicate with side effects")

        br = self.subexplore(one)
        cond = z3.Or(*[z3.And(*c) if c else _TRUE for c, r in br if r]) if any(r for _, r in br) else _FALSE
        e_, w_ = self.exists(src, k, cond, last=last)
        if not self.decide(e_):
            return MISSING
        hit = MISSING
        for p in seq.instantiate(w_):
            if truth(pred(p)):
                hit = p
        if hit is MISSING:
            self.dead("search witness")
        return hit

    def comp(self, kind, it, cond, elt, nested=False):
        if isinstance(it, SStr):
            raise Unsupported("iteration over a symbolic string")
        if kind == "gen":
            if is_symseq(it) or isinstance(it, GenSeq):
                return GenSeq(it, cond, elt, nested)

            def g():
                for x in it:
                    if cond is not None and not truth(cond(x)):
                        continue
                    y = elt(x)
                    if nested:
                        if is_symseq(y):
                            raise Unsupported("nested symbolic generator")
                        yield from y
                    else:
                        yield y

            if deep_sym(it) or nested:
                # nested generators may turn symbolic: keep the consumer in control
                return GenSeq(it, cond, elt, nested) if self.active else g()
            return g()
        if kind == "list":
            out = EList()
            add = out.append
            ext = out.extend
        elif kind == "set":
            out = ESet()
            add = out.add
            ext = out.update
        else:
            out = EDict()

            def add(kv):
                out[kv[0]] = kv[1]

            def ext(kvs):
                loop(kvs, lambda kv: add(kv))

        def body(x):
            if cond is not None and not truth(cond(x)):
                return None
            y = elt(x)
            if nested:
                if isinstance(y, GenSeq):
                    y.loop(lambda z: add(z))
                else:
                    for z in y:
                        add(z)
            else:
                add(y)
            return None

        self.forloop(it, body, None, None, (), "comp")
        return out

    def unpack(self, v, p):
        return unpack_pat(v, p)

    def unpackn(self, v, n):
        if isinstance(v, EList) and v._segs is None:
            return list.__iter__(v) if True else v
        if isinstance(v, Poison):
            v._bad()
        if isinstance(v, EList):
            raise Unsupported("unpacking a symbolic list")
        return v

    # ---- hooks
    def mklist(self, x):
        return EList(x) if self.active else x

    def mkset(self, xs):
        if self.active:
            return ESet(xs)
        return set(xs)

    def mkdict(self, items):
        if not self.active:
            d = {}
            for i in items:
                if len(i) == 1:
                    d.update(i[0]) if isinstance(i[0], dict) else d.update(i[0])
                else:
                    d[i[0]] = i[1]
            return d
        if items and len(items[0]) == 1 and isinstance(items[0][0], SymDict):
            d = items[0][0].lazy_copy(False)
            items = items[1:]
        else:
            d = EDict()
        for i in items:
            if len(i) == 1:
                d.update(i[0])
            else:
                d[i[0]] = i[1]
        return d

    def fstr(self, parts):
        sym = False
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if isinstance(v, Poison):
                v._bad()
            if not self.active or not needs_model(v):
                if conv == 115:
                    v = str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                x = format(v, spec)
                out.append(x)
                continue
            if spec:
                if isinstance(v, SInt) or isinstance(v, SStr):
                    raise Unsupported("format spec on symbolic value")
            if conv == 114:
                out.append(mkstr([Atom(self.fresh("repr", STR))]))
                continue
            x = as_str(v)
            sym = True
            out.append(x)
        if not sym:
            return "".join(out)
        res = []
        for x in out:
            res.extend(sparts(x))
        return mkstr(res)

    def contains(self, x, c):
        if not self.active:
            return x in c
        return contains(x, c)

    def is_(self, a, b):
        if a is b:
            return True
        if self.active:
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise NeedInvariant("loop-dependent value tested by identity")
            if isinstance(a, SBool) and isinstance(b, bool):
                return a == b
            if isinstance(b, SBool) and isinstance(a, bool):
                return b == a
        return False

    def eq_(self, a, b):
        if not self.active:
            return a == b
        return eq(a, b)

    def ne_(self, a, b):
        if not self.active:
            return a != b
        if not deep_sym(a) and not deep_sym(b) and not isinstance(a, (EList, EDict)) and not isinstance(b, (EList, EDict)):
            return a != b
        return snot(eq(a, b)) if isinstance(eq(a, b), (bool, SBool)) else a != b

    def mod_(self, a, b):
        if self.active and isinstance(a, (str, SStr)) and deep_sym(b):
            if isinstance(a, str) and a.count("%s") == a.count("%"):
                bits = a.split("%s")
                vs = b if isinstance(b, tuple) else (b,)
                if len(bits) - 1 != len(vs):
                    raise TypeError("not enough arguments for format string")
                out = [bits[0]]
                for v, t in zip(vs, bits[1:]):
                    out.extend(sparts(as_str(v)))
                    out.append(t)
                return mkstr(out)
            raise Unsupported("% formatting")
        return a % b

    def getitem(self, a, i):
        if not self.active:
            return a[i]
        return getitem(a, i)

    def setitem(self, a, i, v):
        if self.active and isinstance(a, dict) and not isinstance(a, EDict) and has_sym_key(i):
            raise Unsupported("symbolic key stored in a native dict")
        if self.active and self.depth and isinstance(a, (list, dict)) and not isinstance(a, (EList, EDict)):
            raise Unsupported("native container written inside a loop summary")
        a[i] = v

    def delitem(self, a, i):
        del a[i]

    def setattr_(self, o, n, v):
        if self.active and self.depth:
            cr = self.created.get(id(o))
            if cr is not None and cr[1] > self.frames[-1].serial0:
                setattr(o, n, v)
                return
            if self.mut and (cr is None or any(cr[1] <= lvl["serial"] for lvl in self.mut)):
                # object that exists outside the loop body: allowed only if undone at the end of sub-path
                self.note_attr(o, n, cr)
            old = o.__dict__.get(n, MISSING) if hasattr(o, "__dict__") else MISSING

            def undo():
                if old is MISSING:
                    try:
                        delattr(o, n)
                    except AttributeError:
                        pass
                else:
                    o.__dict__[n] = old

            self._journal.append(undo)
        setattr(o, n, v)

    def note_attr(self, o, n, cr):
        """an attribute of an object older than the loop: its value is unknown to other iterations and after the loop"""
        if isinstance(o, type) or not hasattr(o, "__dict__") or isinstance(o, type(builtins)):
            raise NeedInvariant(f"attribute {n} of a shared object written inside a loop over a symbolic list")
        for lvl in self.mut:
            if cr is None or cr[1] <= lvl["serial"]:
                lvl["attrs"][(id(o), n)] = (o, n)

    def poison_attr(self, o, n, where):
        old = o.__dict__.get(n, MISSING)

        def undo():
            if old is MISSING:
                o.__dict__.pop(n, None)
            else:
                o.__dict__[n] = old

        self._journal.append(undo)
        o.__dict__[n] = Poison(f"attribute {n} written by the loop at {where}")

    def star(self, it):
        """the argument of *it in a call: a symbolic list travels as one marker"""
        if self.active:
            if isinstance(it, GenSeq):
                it = it.force()
            if is_symseq(it):
                return [VarSeq(it)]
            if isinstance(it, (EList, ESet)):
                return parts_of(it)
        return it

    def unvar(self, args):
        if any(type(a) is VarSeq for a in args):
            ps = []
            for a in args:
                ps.extend(parts_of(a.seq) if type(a) is VarSeq else [a])
            return from_parts(ps)
        return args

    def aug(self, op, a, b):
        if op == "Add":
            a += b
            return a
        if op == "Sub":
            a -= b
            return a
        if op == "Mult":
            a *= b
            return a
        if op == "BitOr":
            a |= b
            return a
        f = {"BitAnd": operator.iand, "BitXor": operator.ixor, "Div": operator.itruediv, "FloorDiv": operator.ifloordiv,
             "Mod": operator.imod, "Pow": operator.ipow}.get(op)
        if f is None:
            raise Unsupported("augmented " + op)
        return f(a, b)

    def call(self, f, *args, **kw):
        if not self.active:
            return f(*args, **kw)
        return call(f, args, kw)


def needs_model(v):
    if isinstance(v, (str, int, float, type(None), bytes)) :
        return False
    return True


def normal(comp):
    """identity comprehension over its source collapses to the source"""
    if len(comp.branches) == 1:
        conds, parts = comp.branches[0]
        if len(parts) == 1 and isinstance(comp.src, InputSeq) and isinstance(parts[0], Sym):
            el = comp.src.elem(comp.k)
            if isinstance(el, Sym) and type(el) is type(parts[0]):
                r = eq(el, parts[0])
                if r is True:
                    return comp.src
    return comp


def isinstance_(v, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, Poison):
        v._bad()
    if isinstance(v, SStr):
        return any(x is str or x is object for x in ts)
    if isinstance(v, SInt):
        import numbers

        return any(x is int or x is object or x in (numbers.Number, numbers.Integral) for x in ts)
    if isinstance(v, SBool):
        return any(x in (bool, int, object) for x in ts)
    if isinstance(v, SVal):
        raise Unsupported("type test on an opaque value")
    return isinstance(v, t)


def any_(it):
    r = loop(it, lambda x: Ret(True) if truth(x) else None) if not isinstance(it, GenSeq) else it.loop(
        lambda x: Ret(True) if truth(x) else None
    )
    return r is not None


def all_(it):
    f = lambda x: None if truth(x) else Ret(True)  # noqa
    r = it.loop(f) if isinstance(it, GenSeq) else loop(it, f)
    return r is None


def next_(it, *d):
    f = lambda x: Ret(x)  # noqa
    if isinstance(it, GenSeq):
        r = it.loop(f)
        if r is not None:
            return r.value
        if d:
            return d[0]
        raise StopIteration
    return builtins.next(it, *d)


def join_(sep, it):
    if isinstance(it, GenSeq):
        it = it.force()
    ps = ordered(it)
    if any(isinstance(p, SymSeq) for p in ps):
        if sep == "":
            out = []
            for p in ps:
                if isinstance(p, SymSeq):
                    out.append(JoinAtom("", [p]))
                elif isinstance(p, (str, SStr)):
                    out.extend(sparts(p))
                else:
                    raise TypeError(f"sequence item: expected str instance, {type(p).__name__} found")
            return mkstr(out)
        return mkstr([JoinAtom(sep, ps)])
    out = []
    for i, p in enumerate(ps):
        if i:
            out.append(sep)
        if not isinstance(p, (str, SStr)):
            raise TypeError(f"sequence item {i}: expected str instance, {type(p).__name__} found")
        out.extend(sparts(p))
    return mkstr(out)


def format_(tpl, args, kw):
    import string

    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(tpl):
        out.append(lit)
        if name is None:
            continue
        if spec or conv:
            raise Unsupported("str.format with spec")
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unsupported("str.format field " + name)
        out.extend(sparts(as_str(v)))
    return mkstr(out)


def len_(x):
    if isinstance(x, SStr):
        return x.len_()
    if isinstance(x, (EList, ESet, EDict)) and is_symseq(x):
        ps = parts_of(x) if not isinstance(x, EDict) else x.item_parts()
        if x._acc is not None:
            raise NeedInvariant("len of loop accumulator")
        if isinstance(x, EList):
            n, tot = 0, z3.IntVal(0)
            for p in ps:
                if isinstance(p, InputSeq):
                    tot = tot + (p.hi - p.lo)
                elif isinstance(p, Comp) and all(
                    len(q) == 1 and not isinstance(q[0], SymSeq) for _, q in p.branches
                ):
                    tot = tot + (p.src.hi - p.src.lo)
                elif isinstance(p, SymSeq):
                    if not seq_nonempty(x):
                        return 0
                    v = E.fresh("len", INT)
                    E.add(v >= 1)
                    return SInt(v)
                else:
                    n += 1
            return mkint(tot + n)
        if not truth(x):
            return 0
        v = E.fresh("len", INT)
        E.add(v >= 1)
        return SInt(v)
    return len(x)


def consts_of(es):
    """ids of the uninterpreted constants occurring in the expressions"""
    out, seen, stack = set(), set(), list(es)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                stack.extend(x.children())
    return out


_SYMTYPES = ("Poison", "SStr", "SInt", "SBool", "SVal", "GenSeq", "Comp", "InputSeq", "OpaqueSeq", "VarSeq", "AccAtom", "JoinEq", "SeqEq")


def internal_error(ex):
    """an exception of the verifier itself, not of the program"""
    if isinstance(ex, (z3.Z3Exception, RecursionError)):
        return True
    tb = ex.__traceback__
    while tb and tb.tb_next:
        tb = tb.tb_next
    if tb is None:
        return False
    co = tb.tb_frame.f_code
    if "/z3/" in co.co_filename:
        return True
    if isinstance(ex, TypeError) and any(f"'{n}'" in str(ex) for n in _SYMTYPES):
        return True  # an operation the symbolic value does not model
    if "/pyvc/" in co.co_filename and isinstance(ex, (AttributeError, NameError, AssertionError)) and co.co_name != "call":
        return True
    return False


class Internal(Unsupported):
    pass


def program_error(ex):
    if internal_error(ex):
        import traceback

        raise Internal("".join(traceback.format_exception(ex))[-1500:])
    return ex


def _enumerate(it, start=0):
    if is_symseq(it):
        ps = ordered(it)
        if len(ps) == 1 and isinstance(ps[0], InputSeq):
            s = ps[0]
            off = start
            return from_parts(
                [
                    InputSeq(
                        s.key,
                        s.args,
                        s.length,
                        lambda k: (mkint(k - s.lo + off), s.elem(k)),
                        s.lo,
                        s.hi,
                    )
                ]
            )
        raise Unsupported("enumerate over a derived symbolic list")
    return EList([(i, x) for i, x in enumerate(ordered(it), start)])


_GEN = type(x for x in ())


class VarSeq(Poison):
    """*args of unknown length; only a function that takes *args can receive it"""

    def __init__(self, seq):
        object.__setattr__(self, "seq", seq)
        object.__setattr__(self, "_why", "symbolic *args passed to fixed parameters")


def call(f, args, kw):
    t = type(f)
    # --- builtins
    if t is _BT:
        self_ = f.__self__
        nm = f.__name__
        if isinstance(self_, str):
            if nm == "join":
                if args and isinstance(args[0], _GEN):
                    args = (builtins.list(args[0]),)
                if args and (deep_sym(args[0]) or isinstance(args[0], GenSeq)):
                    return join_(self_, args[0])
            elif deep_sym(args) or deep_sym(kw) or any(needs_model(a) for a in args) or any(needs_model(a) for a in kw.values()):
                if nm == "format":
                    return format_(self_, args, kw)
                if nm in ("replace", "startswith", "endswith", "count", "split") and deep_sym(args):
                    if nm == "startswith" and isinstance(args[0], SStr):
                        return mkbool(z3.PrefixOf(args[0].z3(), z3.StringVal(self_)))
                    if nm == "replace":
                        if isinstance(args[0], str) and isinstance(args[1], SStr):
                            bits = self_.split(args[0])
                            out = []
                            for i, b in enumerate(bits):
                                if i:
                                    out.extend(args[1].parts)
                                out.append(b)
                            return mkstr(out)
                        return rope_replace(SStr([self_]), args[0], args[1])
                    raise Unsupported(f"str.{nm} with symbolic argument")
            r = f(*args, **kw)
            if type(r) is list:
                return EList(r)
            return r
        if f is builtins.isinstance:
            return isinstance_(*args)
        if f is builtins.len:
            return len_(args[0])
        if f is builtins.any:
            return any_(args[0])
        if f is builtins.all:
            return all_(args[0])
        if f is builtins.next:
            return next_(*args)
        if f is builtins.sorted:
            return sorted_(args[0], **kw)
        if f is builtins.getattr or f is builtins.hasattr:
            if isinstance(args[1], SStr):
                raise Unsupported("getattr with symbolic name")
            return f(*args)
        if f is builtins.iter:
            return f(*args)
        if f is builtins.sum:
            it = args[0]
            if is_symseq(it):
                raise Unsupported("sum over a symbolic list")
            tot = args[1] if len(args) > 1 else kw.get("start", 0)
            for x in (it.force() if isinstance(it, GenSeq) else it):
                tot = tot + x
            return tot
        if f in (builtins.max, builtins.min):
            its = args[0] if len(args) == 1 else args
            if isinstance(its, GenSeq):
                its = its.force()
            if is_symseq(its):
                raise Unsupported("max/min over a symbolic list")
            xs = ordered(its) if not isinstance(its, tuple) else list(its)
            if not deep_sym(xs):
                if "key" in kw:
                    ks = [kw["key"](x) for x in xs]
                    if not deep_sym(ks):
                        if not xs:
                            if "default" in kw:
                                return kw["default"]
                            raise ValueError("empty")
                        i = f(range(len(xs)), key=lambda j: ks[j])
                        return xs[i]
                else:
                    return f(xs, **kw)
            key = kw.get("key", lambda x: x)
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise ValueError("arg is an empty sequence")
            best = xs[0]
            kb = key(best)
            for x in xs[1:]:
                kx = key(x)
                if truth(kx > kb) if f is builtins.max else truth(kx < kb):
                    best, kb = x, kx
            return best
        if f is builtins.print:
            return None
        if f is builtins.id or f is builtins.callable:
            return f(*args)
        if f is builtins.hash:
            from .models import hash_

            return hash_(args[0])
        if f is builtins.repr:
            if deep_sym(args[0]):
                return mkstr([Atom(E.fresh("repr", STR))])
            own = type(args[0]).__repr__
            if isinstance(own, _FT) and own.__module__ != __name__:
                return own(args[0])
            return f(*args)
        if f is builtins.format:
            return E.fstr([(args[0], -1, args[1] if len(args) > 1 else "")])
        m = E.call_models.get(getattr(f, "__module__", None) and f"{f.__module__}.{f.__qualname__}")
        if m:
            return m(*args, **kw)
        if type(self_) is _RP and nm in ("match", "search", "sub", "finditer", "findall"):
            m = E.call_models.get("re." + nm)
            if m:
                return m(self_, *args, **kw)
        if deep_sym(args) or deep_sym(kw):
            if isinstance(self_, type(sys)) or self_ is None:
                raise Unsupported(f"native {getattr(f, '__module__', '')}.{nm} with symbolic arguments")
        r = f(*args, **kw)
        return r
    if t is type or isinstance(f, type):
        if f is str:
            return as_str(args[0]) if args and needs_model(args[0]) else str(*args, **kw)
        if f is list:
            return from_parts(ordered(args[0])) if args else EList()
        if f is set:
            return ESet(args[0]) if args else ESet()
        if f is frozenset:
            return ESet(args[0]) if args else ESet()
        if f is dict:
            r = EDict()
            for a in args:
                if isinstance(a, SymDict) and len(args) == 1 and not kw:
                    return a.lazy_copy(False)
                r.update(a)
            r.update(kw)
            return r
        if f is tuple:
            ps = ordered(args[0]) if args else []
            return from_parts(ps) if any(isinstance(p, SymSeq) for p in ps) else tuple(ps)
        if f is bool:
            return truth(args[0]) if args else False
        if f is int:
            if args and isinstance(args[0], SInt):
                return args[0]
            if args and isinstance(args[0], SStr):
                s = args[0]
                if len(s.parts) == 1 and isinstance(s.parts[0], Atom):
                    e_ = s.parts[0].e
                    if z3.is_app(e_) and e_.decl().name() == "py_int_str":
                        return SInt(e_.arg(0))
                raise Unsupported("int() of symbolic string")
            return int(*args, **kw)
        if f is float:
            if args and isinstance(args[0], Sym):
                raise Unsupported("float() of symbolic value")
            return float(*args)
        if f is type and len(args) == 1:
            v = args[0]
            if isinstance(v, SStr):
                return str
            if isinstance(v, SInt):
                return int
            if isinstance(v, SBool):
                return bool
            if isinstance(v, EList):
                return list
            if isinstance(v, EDict):
                return dict
            if isinstance(v, ESet):
                return set
            return type(v)
        if f is enumerate:
            return _enumerate(*args, **kw)
        if f is zip:
            if any(is_symseq(a) for a in args):
                return zip_(args)
            return EList(list(zip(*[ordered(a) for a in args])))
        if f is range:
            if any(isinstance(a, SInt) for a in args):
                raise Unsupported("range over a symbolic bound")
            return range(*args)
        if f is reversed:
            if is_symseq(args[0]):
                raise Unsupported("reversed symbolic list")
            return EList(list(reversed(ordered(args[0]))))
        if f is map:
            fn, it = args
            return GenSeq(it, None, lambda x: call(fn, (x,), {}), False)
        if f is filter:
            fn, it = args
            return GenSeq(it, (lambda x: call(fn, (x,), {})) if fn is not None else (lambda x: x), lambda x: x, False)
        m = E.class_models.get(f)
        if m:
            return m(*args, **kw)
        if not known_module(f.__module__) and not issubclass(f, BaseException) and (deep_sym(args) or deep_sym(kw)):
            raise Unsupported(f"class {f.__module__}.{f.__qualname__} called with symbolic arguments")
        if E.depth and known_module(f.__module__) and issubclass(f, BaseException):
            r = f.__new__(f, *args, **kw)
            E.created[id(r)] = (r, E.next_serial())
            r.__init__(*args, **kw)
            return r
        if E.depth and type(f).__call__ is type.__call__ and f.__new__ is object.__new__ and known_module(f.__module__):
            r = object.__new__(f)
            E.created[id(r)] = (r, E.next_serial())
            r.__init__(*args, **kw)
            return r
        return f(*args, **kw)
    m = E.call_models.get(f) if t is _FT else None
    if m is None and t is _FT:
        m = E.call_models.get(f"{f.__module__}.{f.__qualname__}")
    if m:
        return m(*args, **kw)
    if t is _FT and not known_module(f.__module__) and (deep_sym(args) or deep_sym(kw)):
        raise Unsupported(f"library function {f.__module__}.{f.__qualname__} called with symbolic arguments")
    if t is _MT:
        m = E.call_models.get(f"{f.__func__.__module__}.{f.__func__.__qualname__}") if type(f.__func__) is _FT else None
        if m:
            return m(f.__self__, *args, **kw)
        if type(f.__func__) is _FT and not known_module(f.__func__.__module__) and (deep_sym(args) or deep_sym(kw)):
            raise Unsupported(f"library method {f.__func__.__module__}.{f.__func__.__qualname__} called with symbolic arguments")
    if t in (_MD, _WD):
        # str.lower as a function etc.
        if args and isinstance(args[0], SStr):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
    return f(*args, **kw)


def zip_(args):
    ps = [ordered(a) for a in args]
    if all(len(p) == 1 and isinstance(p[0], InputSeq) for p in ps):
        a = ps[0][0]
        if all(p[0].key == a.key and p[0].lo.eq(a.lo) and p[0].hi.eq(a.hi) for p in ps):
            ss = [p[0] for p in ps]
            return from_parts([InputSeq(a.key, a.args, a.length, lambda k: tuple(s.elem(k) for s in ss), a.lo, a.hi)])
    # slices of one list: the shortest decides, elements at shifted indices
    if all(len(p) == 1 and isinstance(p[0], InputSeq) and p[0].key == ps[0][0].key and len(p[0].args) == len(ps[0][0].args)
           and all(x.eq(y) for x, y in zip(p[0].args, ps[0][0].args)) for p in ps):
        a = ps[0][0]
        n = a.hi - a.lo
        for p in ps[1:]:
            m = p[0].hi - p[0].lo
            n = zif(m < n, m, n)
        n = z3.simplify(n)
        ss = [(p[0], z3.simplify(p[0].lo - a.lo)) for p in ps]
        return from_parts([InputSeq(a.key, a.args, a.length, lambda k: tuple(x.elem(z3.simplify(k + d)) for x, d in ss), a.lo, z3.simplify(a.lo + zif(n < 0, z3.IntVal(0), n)))])
    raise Unsupported("zip over symbolic lists")


_KNOWN = {}


def known_module(m):
    r = _KNOWN.get(m)
    if r is None:
        r = _KNOWN[m] = (m or "").split(".")[0] in ("metrics_layer", "pypika", "contracts", "pyvc", "builtins", "__main__")
    return r


_BT = type(len)
import re as _re  # noqa: E402

_RP = _re.Pattern
_FT = type(lambda: 0)
_MT = type(EngineT().fresh)
_MD = type(str.lower)
_WD = type(object.__str__)

E = EngineT()
builtins.__pyvc__ = E


def _atom_facts(self, a):
    """type facts of an input string: non-emptiness always, the character set only when a goal needs it"""
    if a.nonempty:
        self.solver.add(z3.Length(a.e) > 0)
    if a.charset is not None:
        key = a.e.sexpr()
        if key not in self.charset_done:
            self.charset_done.add(key)
            self.axioms.append(z3.InRe(a.e, charset_re(a.charset)))


_CS_CACHE = {}


def charset_re(cs):
    r = _CS_CACHE.get(cs)
    if r is None:
        codes = sorted(ord(c) for c in cs)
        rs, i = [], 0
        while i < len(codes):
            j = i
            while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
                j += 1
            rs.append(z3.Range(chr(codes[i]), chr(codes[j])))
            i = j + 1
        r = z3.Star(z3.Union(*rs) if len(rs) > 1 else rs[0])
        _CS_CACHE[cs] = r
    return r


EngineT.atom_facts = _atom_facts
