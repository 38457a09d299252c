"""Models of library functions on symbolic text: structural where the text's character classes decide the
answer, an uninterpreted function of the text otherwise."""
import copy
import hashlib
import json
import re

import z3

from . import core
from .core import (
    STR,
    Atom,
    E,
    EDict,
    EList,
    ESet,
    JoinAtom,
    SBool,
    SInt,
    SStr,
    Sym,
    SymDict,
    Unsupported,
    deep_sym,
    deepcopy_,
    mkbool,
    mkstr,
    sparts,
)


class SJson(Sym):
    """json.dumps(v): only json.loads of it is known"""

    def __init__(self, v):
        self.v = v

    def _subst(self, sb):
        v = sb.v(self.v)
        return self if v is self.v else SJson(v)

    def __eq__(self, o):
        if isinstance(o, SJson):
            return core.eq(self.v, o.v)
        raise Unsupported("json text compared")

    __hash__ = None

    def __add__(self, o):
        return SJson((self.v, o.v if isinstance(o, SJson) else o))

    def __radd__(self, o):
        return SJson((o.v if isinstance(o, SJson) else o, self.v))

    def encode(self, *a):
        return self


class SDigest(Sym):
    """a cryptographic digest (of a json text): equal exactly when the texts are (assumed)"""

    def __init__(self, v):
        self.v = v

    def _subst(self, sb):
        v = sb.v(self.v)
        return self if v is self.v else SDigest(v)

    def __eq__(self, o):
        if isinstance(o, SDigest):
            return self.v == o.v
        raise Unsupported("digest compared")

    __hash__ = None

    def hexdigest(self):
        return self


class SHash(Sym):
    """hash() of symbolic data, and sums of such: equal exactly when summed over the same data (assumed: no collisions)"""

    def __init__(self, const, terms):
        self.const, self.terms = const, terms

    def _subst(self, sb):
        ts = [sb.v(t) for t in self.terms]
        return self if all(a is b for a, b in zip(ts, self.terms)) else SHash(self.const, ts)

    def __add__(self, o):
        if isinstance(o, SHash):
            return SHash(self.const + o.const, self.terms + o.terms)
        if isinstance(o, int):
            return SHash(self.const + o, self.terms)
        raise Unsupported("arithmetic on a hash")

    __radd__ = __add__

    def __eq__(self, o):
        if not isinstance(o, SHash) or o.const != self.const or len(o.terms) != len(self.terms):
            return False
        return core.sand(*[True if a is b else core.eq(a, b) for a, b in zip(self.terms, o.terms)])

    __hash__ = None


def hash_(v):
    h = getattr(type(v), "__hash__", None)
    if core.own_hash(v):
        return core.call(h, (v,), {})
    if isinstance(v, (SJson, core.SStr)):
        return SHash(0, [v])
    if deep_sym(v):
        raise Unsupported("hash of symbolic value")
    return hash(v)


class Lru:
    """functools.lru_cache on a program function.  A path is one run of a fresh process, so the cache is empty when a path begins.
    Entries are found as CPython finds them: equal hash, then identity or ==.  Calls with symbolic text among their arguments are
    recomputed; entries made inside an arbitrary loop iteration do not outlive it"""

    def __init__(self, fn, maxsize=None):
        import functools

        functools.update_wrapper(self, fn)
        self.fn = fn
        self.maxsize = maxsize
        self.local = {}

    def __get__(self, obj, cls=None):
        return self if obj is None else BoundLru(self, obj)

    def table(self):
        memo = E.memo if E.active else self.local
        return memo.setdefault(id(self), {})

    def evict(self):
        """the least recently used entry goes (only entries are counted, so the oldest use is found by its stamp)"""
        t = self.table()
        if self.maxsize is None:
            return
        while sum(len(b) for b in t.values()) >= max(self.maxsize, 1):
            b = min((b for b in t.values() if b), key=lambda b: min(e[3][0] for e in b))
            e = min(b, key=lambda e: e[3][0])
            i = [x is e for x in b].index(True)
            del b[i]
            if E.active:
                E.journal(lambda b=b, i=i, e=e: b.insert(i, e))

    def stamp(self):
        self.clock = getattr(self, "clock", 0) + 1
        return self.clock

    def key(self, v):
        """-> (hashable bucket key, hash to compare)"""
        if isinstance(v, tuple):
            ks = [self.key(x) for x in v]
            return ("()", tuple(k for k, _ in ks)), [h for _, h in ks]
        if core.own_hash(v):
            h = hash_(v)
            same = type(v).__eq__ is object.__eq__
            if isinstance(h, SHash):
                return (type(v), id(v) if same else None, h.const, len(h.terms)), h
            return (type(v), id(v) if same else None, h), h
        if type(v).__hash__ is object.__hash__:
            return (type(v), id(v)), None
        return v, None

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return all(self.same(x, y) for x, y in zip(a, b))
        return core.truth(core.eq(a, b))

    def same_hash(self, a, b):
        if isinstance(a, list):
            return all(self.same_hash(x, y) for x, y in zip(a, b))
        return not isinstance(a, SHash) or core.truth(a == b)

    def __call__(self, *args, **kw):
        args_, kw_ = tuple(args), dict(kw)
        flat = args_ + tuple(kw_.values())
        if deep_sym(flat):
            return core.call(self.fn, args, kw)
        key, hashes = self.key(args_ + tuple(x for k, v in kw_.items() for x in (k, v)))
        key = (key, len(args_))
        bucket = self.table().setdefault(key, [])
        for entry in bucket:
            if self.same_hash(entry[0], hashes) and self.same(entry[1], flat):
                entry[3][0] = self.stamp()
                return entry[2]
        value = core.call(self.fn, args, kw)
        if self.maxsize == 0:
            return value
        self.evict()
        entry = (hashes, flat, value, [self.stamp()])
        bucket.append(entry)
        if E.active:
            E.journal(lambda: bucket.__setitem__(slice(None), [x for x in bucket if x is not entry]))
        return value

    def cache_clear(self):
        t = self.table()
        old = [(v, list(v)) for v in t.values()]
        for v in t.values():
            del v[:]
        if E.active:
            E.journal(lambda: [v.__setitem__(slice(None), w) for v, w in old])


class BoundLru:
    def __init__(self, lru, obj):
        self.lru, self.__self__ = lru, obj
        self.__name__ = lru.__name__

    def __call__(self, *args, **kw):
        return self.lru(self.__self__, *args, **kw)

    def cache_clear(self):
        self.lru.cache_clear()


QUOTE_PLUS = z3.Function("py_quote_plus", core.STR, core.STR)


def quote_plus(text, *a, **k):
    import urllib.parse

    if isinstance(text, core.SStr) and not a and not k:
        return core.mkstr([core.Atom(QUOTE_PLUS(text.z3()))])
    if deep_sym(text):
        raise Unsupported("url quoting of symbolic text")
    return urllib.parse.quote_plus(text, *a, **k)


def sha256(v=b""):
    if isinstance(v, SJson):
        return SDigest(v)
    if deep_sym(v):
        raise Unsupported("digest of symbolic text")
    return hashlib.sha256(v)


def dumps(v, *a, **k):
    if E.active and (deep_sym(v) or isinstance(v, (EList, EDict))):
        return SJson(deepcopy_(v))
    return json.dumps(v, *a, **k)


def loads(v, *a, **k):
    if isinstance(v, SJson):
        return deepcopy_(v.v)
    return json.loads(v, *a, **k)


def mcopy(v):
    if isinstance(v, Sym) and not isinstance(v, (EList,)):
        return v
    return copy.copy(v)


def mdeepcopy(v, memo=None):
    if isinstance(v, (EList, EDict)):
        return deepcopy_(v)
    if isinstance(v, Sym):
        return v
    return copy.deepcopy(v)


class Match:
    def __init__(self, groups, span=None):
        self._g = groups

    def group(self, *i):
        if len(i) > 1:
            return tuple(self._g[j] for j in i)
        return self._g[i[0] if i else 0]

    __getitem__ = group

    def groups(self):
        return tuple(self._g[1:])


def _pat(p):
    if isinstance(p, re.Pattern):
        return p.pattern, p.flags
    return p, 0


def _may(p, chars):
    """part p may contain one of chars"""
    if isinstance(p, str):
        return any(c in p for c in chars)
    return p.charset is None or any(c in p.charset for c in chars)


def tokens(s):
    out = []
    for p in sparts(s):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def _brace_refs(s):
    """matches of \\$\\{(.*?)\\} on a rope"""
    toks = tokens(s)
    for t in toks:
        if not isinstance(t, str) and _may(t, "$"):
            raise Unsupported("reference pattern on text that may hold '$'")
    out, i, n = [], 0, len(toks)
    while i < n:
        if toks[i] == "$" and i + 1 < n:
            if not isinstance(toks[i + 1], str):
                if _may(toks[i + 1], "{"):
                    raise Unsupported("'$' followed by text that may hold '{'")
            elif toks[i + 1] == "{":
                j = i + 2
                ok = None
                while j < n:
                    t = toks[j]
                    if isinstance(t, str):
                        if t == "}":
                            ok = True
                            break
                        if t == "\n":
                            break
                    elif _may(t, "}\n"):
                        raise Unsupported("reference body may hold '}'")
                    j += 1
                if ok:
                    out.append(Match([mkstr(toks[i : j + 1]), mkstr(toks[i + 2 : j])]))
                    i = j + 1
                    continue
        i += 1
    return out


def finditer(p, s, flags=0):
    if not isinstance(s, SStr):
        return re.finditer(p, s, flags)
    pat, _ = _pat(p)
    if pat == r"\$\{(.*?)\}":
        return EList(_brace_refs(s))
    raise Unsupported(f"re.finditer({pat!r})")


def findall(p, s, flags=0):
    if not isinstance(s, SStr):
        return core.EList(re.findall(p, s, flags)) if E.active else re.findall(p, s, flags)
    pat, _ = _pat(p)
    if pat == r"\$\{(.*?)\}":
        return EList([m.group(1) for m in _brace_refs(s)])
    raise Unsupported(f"re.findall({pat!r})")


_FN = {}


def ufun(name, *sorts):
    f = _FN.get(name)
    if f is None:
        f = _FN[name] = z3.Function(name, *sorts)
    return f


def sub(p, r, s, count=0, flags=0):
    if not isinstance(s, SStr):
        if isinstance(r, SStr):
            raise Unsupported("re.sub with symbolic replacement")
        return re.sub(p, r, s, count, flags)
    pat, fl = _pat(p)
    if pat == "[ ]{2,}" and r == " ":
        if s._excludes("  "):
            return s
        r2 = _collapse(s)
        if r2 is not None:
            return r2
    if not isinstance(r, str) or any(isinstance(x, (JoinAtom,)) for x in s.parts):
        raise Unsupported("re.sub")
    return mkstr([Atom(ufun(f"re_sub<{pat}><{r}>", STR, STR)(s.z3()))])


def _collapse(s):
    """re.sub('[ ]{2,}', ' ', s): distributes over literal characters that are not blanks"""
    f = ufun("re_sub<[ ]{2,}>< >", STR, STR)
    groups, cur = [], []
    for t in tokens(s):
        if isinstance(t, str) and t != " ":
            if cur:
                groups.append(cur)
                cur = []
            groups.append(t)
        else:
            cur.append(t)
    if cur:
        groups.append(cur)
    out = []
    for g in groups:
        if isinstance(g, str):
            out.append(g)
            continue
        if all(isinstance(t, str) for t in g):
            out.append(" ")
            continue
        # a blank-free non-empty atom separates too
        if mkstr(g)._excludes("  ") if not isinstance(mkstr(g), str) else True:
            out.extend(g)
            continue
        if any(isinstance(t, JoinAtom) for t in g):
            return None
        if len(g) == 1 and "col" in g[0].props:
            out.append(g[0])
            continue
        cs = None
        if all(isinstance(t, str) or t.charset is not None for t in g):
            cs = frozenset().union(*[frozenset(t) if isinstance(t, str) else t.charset for t in g])
        pr = (g[0].props if len(g) == 1 else frozenset()) | {"col"}
        ne = any(isinstance(t, str) or t.nonempty for t in g)
        low = all(isinstance(t, str) or t.lower for t in g)
        out.append(Atom(f(mkstr(g).z3()), cs, low, ne, pr))
    return mkstr(out)


def match(p, s, flags=0):
    if not isinstance(s, SStr):
        return re.match(p, s, flags)
    pat, fl = _pat(p)
    if pat == r"([A-Za-z0-9\_]+)":
        first = s.parts[0]
        cs = core.IDENT_MIXED
        if all((isinstance(x, str) and set(x) <= cs) or (not isinstance(x, str) and x.charset is not None and x.charset <= cs) for x in s.parts):
            if any(isinstance(x, str) or x.nonempty for x in s.parts):
                return Match([s, s])
    if cannot_match(pat, fl | flags, s, False):
        return None
    raise Unsupported(f"re.match({pat!r})")


class _NFA:
    """Thompson automaton of a pattern; anchors, assertions and back-references are over-approximated (always pass)"""

    def __init__(self, pat, flags):
        import re._constants as K
        import re._parser as P

        self.K, self.flags = K, flags
        self.eps, self.tr = [], []
        self.start = self.new()
        self.end = self.seq(P.parse(pat, flags), self.start)

    def new(self):
        self.eps.append(set())
        self.tr.append([])
        return len(self.eps) - 1

    def seq(self, items, s):
        for op, av in items:
            s = self.item(op, av, s)
        return s

    def chars(self, s, rx):
        t = self.new()
        self.tr[s].append((rx, t))
        return t

    def item(self, op, av, s):
        K, fl = self.K, self.flags & (re.I | re.S | re.A)
        if op is K.LITERAL:
            return self.chars(s, re.compile(re.escape(chr(av)), fl))
        if op is K.NOT_LITERAL:
            return self.chars(s, re.compile("[^" + re.escape(chr(av)) + "]", fl))
        if op is K.ANY:
            return self.chars(s, re.compile(".", fl))
        if op is K.IN:
            cls = {K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S", K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D",
                   K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}
            body, neg = "", ""
            for o, a in av:
                if o is K.NEGATE:
                    neg = "^"
                elif o is K.LITERAL:
                    body += re.escape(chr(a))
                elif o is K.RANGE:
                    body += re.escape(chr(a[0])) + "-" + re.escape(chr(a[1]))
                else:
                    body += cls[a]
            return self.chars(s, re.compile("[" + neg + body + "]", fl))
        if op is K.BRANCH:
            t = self.new()
            for alt in av[1]:
                u = self.new()
                self.eps[s].add(u)
                self.eps[self.seq(alt, u)].add(t)
            return t
        if op is K.SUBPATTERN:
            return self.seq(av[3], s)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, getattr(K, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            for _ in range(min(lo, 50)):
                s = self.seq(sub, s)
            t = self.new()
            if hi is K.MAXREPEAT or hi > 50:
                self.eps[s].add(t)
                u = self.seq(sub, t)
                self.eps[u].add(t)
                return t
            for _ in range(hi - lo):
                self.eps[s].add(t)
                s = self.seq(sub, s)
            self.eps[s].add(t)
            return t
        if op in (K.AT, K.ASSERT, K.ASSERT_NOT):
            return s
        raise Unsupported(f"regular expression construct {op}")

    def close(self, ss):
        st, seen = list(ss), set(ss)
        while st:
            for t in self.eps[st.pop()]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def step(self, ss, ok):
        return self.close({t for s in ss for rx, t in self.tr[s] if ok(rx)})

    def may(self, parts, search):
        ss = self.close({self.start})
        if self.end in ss:
            return True
        for x in parts:
            if isinstance(x, str):
                for c in x:
                    ss = self.step(ss, lambda rx: rx.match(c)) | (self.close({self.start}) if search else set())
                    if self.end in ss:
                        return True
            else:
                cs = getattr(x, "charset", None)
                cache = {}

                def ok(rx):
                    if cs is None:
                        return True
                    r = cache.get(rx)
                    if r is None:
                        r = cache[rx] = any(rx.match(c) for c in cs)
                    return r

                while True:
                    n = ss | self.step(ss, ok)
                    if self.end in n:
                        return True
                    if n == ss:
                        break
                    ss = n
        return False


_NFAS = {}


def cannot_match(pat, fl, s, search=True):
    k = (pat, fl)
    if k not in _NFAS:
        _NFAS[k] = _NFA(pat, fl)
    return not _NFAS[k].may(s.parts, search)


def search(p, s, flags=0):
    if not isinstance(s, SStr):
        return re.search(p, s, flags)
    pat, fl = _pat(p)
    if cannot_match(pat, fl | flags, s):
        return None
    raise Unsupported(f"re.search({_pat(p)[0]!r})")


def to_numeric(v, *a, **k):
    """assumed contract of pandas: an integer is already numeric"""
    if isinstance(v, SInt):
        return v
    if isinstance(v, Sym):
        raise Unsupported("pandas.to_numeric on unknown text")
    import pandas

    return pandas.to_numeric(v, *a, **k)


# pypika's Criterion.all / any fold a list of criteria with & / |.  Over a list of unbounded length the fold is kept as
# one node with the rendering of the left-nested ComplexCriterion chain the fold builds (assumed contract of pypika:
# separator between the parts, brackets around the parts that are complex criteria of the other connective).
_SEQCRIT = []


def _seq_criterion():
    if not _SEQCRIT:
        import pypika.terms as pt

        class SeqCriterion(pt.ComplexCriterion):
            def __init__(self, comparator, items):
                self.comparator, self.items, self.alias = comparator, items, None

            def _subst(self, sb):
                return SeqCriterion(self.comparator, sb.v(self.items))

            def nodes_(self):
                return iter([self])

            def fields_(self):
                return ESet()

            def get_sql(self, subcriterion=False, **kw):
                parts = E.comp("list", self.items, None, lambda t: t.get_sql(subcriterion=self.needs_brackets(t), **kw))
                sql = core.join_(f" {self.comparator.value} ", parts)
                # a chain of one plain criterion is that criterion, never bracketed
                if subcriterion and core.truth(core.len_(self.items) > 1):
                    return mkstr(["("] + sparts(sql) + [")"])
                return sql

        _SEQCRIT.append(SeqCriterion)
    return _SEQCRIT[0]


def _fold_criteria(name):
    def model(terms=()):
        import pypika.terms as pt
        from pypika.enums import Boolean

        if isinstance(terms, core.GenSeq):
            terms = terms.force()
        if not core.is_symseq(terms):
            crit = pt.EmptyCriterion()
            for t in terms:
                crit = (crit & t) if name == "all" else (crit | t)
            return crit
        items = core.from_parts(core.ordered(terms))
        n = core.len_(items)
        if core.truth(n == 0):
            return pt.EmptyCriterion()
        nested = E.comp("list", items, None, lambda t: isinstance(t, pt.ComplexCriterion))
        if core.truth(core.any_(nested)) and core.truth(n == 1):
            return core.getitem(items, 0)
        return _seq_criterion()(Boolean.and_ if name == "all" else Boolean.or_, items)

    return model


def install():
    cm = E.call_models
    cm["pypika.terms.Criterion.all"] = _fold_criteria("all")
    cm["pypika.terms.Criterion.any"] = _fold_criteria("any")
    cm["pandas.core.tools.numeric.to_numeric"] = to_numeric
    cm["json.dumps"] = dumps
    cm["urllib.parse.quote_plus"] = quote_plus
    cm["_hashlib.openssl_sha256"] = sha256
    cm["json.loads"] = loads
    cm["copy.copy"] = mcopy
    cm["copy.deepcopy"] = mdeepcopy
    cm["re.finditer"] = finditer
    cm["re.findall"] = findall
    cm["re.sub"] = sub
    cm["re.match"] = match
    cm["re.search"] = search
