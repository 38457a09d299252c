"""Goals: a verification condition is  path condition => goal, checked with z3 (cvc5 as second back end)."""
import z3

from . import core
from .core import (
    BOOL,
    INT,
    MISSING,
    Comp,
    E,
    EDict,
    ESet,
    InputSeq,
    JoinAtom,
    JoinEq,
    OpaqueSeq,
    Ret,
    SBool,
    SeqEq,
    SStr,
    SymSeq,
    bexpr,
    contains,
    eq,
    from_parts,
    is_symseq,
    loop,
    mkbool,
    mkstr,
    parts_of,
    sparts,
    str_eq,
    truth,
)

fallback = None  # second back end: neg-goal formula -> True when it proves unsat
VERBOSE = False


def prove(cond, label, res):
    if isinstance(cond, SeqEq):
        return _parts(parts_of(cond.a), parts_of(cond.b), label, res)
    if isinstance(cond, JoinEq):
        return _str(cond.a, cond.b, label, res)
    if cond is True:
        res.append((label, "proved", "eval"))
        return
    if cond is False:
        neg = z3.BoolVal(True)
    else:
        if not isinstance(cond, SBool):
            cond = truth(cond)
        c = bexpr(cond)
        E._scan(c)
        neg = z3.Not(c)
    r = E._sat(neg)
    if r == z3.unsat:
        res.append((label, "proved", "z3"))
        return
    if E.axioms:
        r = E._sat(neg, *E.axioms)
        if r == z3.unsat:
            res.append((label, "proved", "z3"))
            return
    if r == z3.sat:
        res.append((label, "failed", (E.solver.model(), uninterpreted(neg))))
        return
    if fallback is not None and fallback(E, neg):
        res.append((label, "proved", "cvc5"))
        return
    # retry with a larger budget before giving up
    E.solver.set("timeout", 20000)
    r = E._sat(neg, *E.axioms)
    E.solver.set("timeout", E.timeout_ms)
    if r == z3.unsat:
        res.append((label, "proved", "z3"))
    elif r == z3.sat:
        res.append((label, "failed", (E.solver.model(), uninterpreted(neg))))
    else:
        res.append((label, "unknown", str(neg)[:300]))


def _recheck(a, b, label, res):
    """the generator's own normaliser says equal: let the solver confirm it on the plain terms"""
    ps = list(sparts(a)) + list(sparts(b))
    if all(isinstance(p, str) for p in ps) or any(isinstance(p, (JoinAtom,)) or not hasattr(p, "e") for p in ps if not isinstance(p, str)):
        res.append((label, "proved", "eval"))
        return
    za, zb = (z3.StringVal(x) if isinstance(x, str) else x.z3() for x in (a, b))
    r = E._sat(z3.Not(za == zb))
    if r == z3.sat:
        raise core.Unsupported("internal: normaliser and solver disagree")
    res.append((label, "proved", "z3" if r == z3.unsat else "eval"))


def uninterpreted(neg):
    """the counter-model may depend on an uninterpreted library function"""
    seen, stack = set(), [neg] + [c for f in E.frames for c in f.conds]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n.startswith(("py_", "re_", "join!", "repr!", "len!")):
                return True
            stack.extend(x.children())
    return False


def prove_eq(a, b, label, res):
    if a is b:
        res.append((label, "proved", "eval"))
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return prove(False, label + " (list/tuple)", res)
        return _parts(parts_of(a), parts_of(b), label, res)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        r = eq(a, b)
        if isinstance(r, JoinEq):
            return _str(a, b, label, res)
        if r is True:
            return _recheck(a, b, label, res)
        if VERBOSE:
            print(f"GOAL {label}:\n   got  {short(a)}\n   want {short(b)}")
        return prove(r, f"{label}: {short(a)} == {short(b)}" if r is False else label, res)
    if isinstance(a, dict) and isinstance(b, dict):
        ea, eb = (a if isinstance(a, EDict) else EDict(a)), (b if isinstance(b, EDict) else EDict(b))
        if is_symseq(ea) or is_symseq(eb):
            return _parts(ea.item_parts(), eb.item_parts(), label, res)
        ia = ea.item_parts()
        if len(ia) != len(eb):
            return prove(False, f"{label} (keys {[k for k, _ in ia]} vs {[k for k, _ in eb.item_parts()]})", res)
        for k, v in ia:
            w = eb._find(k)
            if w is MISSING:
                return prove(False, f"{label}[{k!r}] missing", res)
            prove_eq(v, w, f"{label}[{k!r}]", res)
        if not ia:
            res.append((label, "proved", "eval"))
        return
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        ea, eb = (a if isinstance(a, ESet) else ESet(a)), (b if isinstance(b, ESet) else ESet(b))
        if is_symseq(ea) or is_symseq(eb):
            for x, y, w in ((ea, eb, "subset"), (eb, ea, "superset")):
                bad = loop(
                    from_parts(x.parts()),
                    lambda v: None if truth(contains(v, from_parts(y.parts()))) else Ret(True),
                )
                prove(bad is None, f"{label} {w}", res)
            return
        return prove(ea == eb, label, res)
    r = eq(a, b)
    if not isinstance(r, (bool, SBool)):
        r = truth(r)
    prove(r, f"{label}: {short(a)} == {short(b)}" if r is False else label, res)


def short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def _str(a, b, label, res):
    r = str_eq(a, b)
    if not isinstance(r, JoinEq):
        return prove(r, label, res)
    pa, pb = list(sparts(r.a)), list(sparts(r.b))
    sa = [i for i, p in enumerate(pa) if isinstance(p, JoinAtom)]
    sb = [i for i, p in enumerate(pb) if isinstance(p, JoinAtom)]
    if len(sa) != len(sb):
        res.append((f"{label}: {short(a)} == {short(b)}", "failed", None))
        return
    ia = ib = 0
    for x, y in zip(sa, sb):
        prove(str_eq(mkstr(pa[ia:x]), mkstr(pb[ib:y])), label, res)
        ja, jb = pa[x], pb[y]
        if ja.sep != jb.sep:
            res.append((f"{label} (separator {ja.sep!r} vs {jb.sep!r})", "failed", None))
            return
        _parts(ja.parts, jb.parts, label, res)
        ia, ib = x + 1, y + 1
    prove(str_eq(mkstr(pa[ia:]), mkstr(pb[ib:])), label, res)


def _parts(pa, pb, label, res):
    pa, pb = list(pa), list(pb)
    if len(pa) != len(pb):
        pa = [p for p in pa if not _provably_empty(p)]
        pb = [p for p in pb if not _provably_empty(p)]
    if len(pa) != len(pb):
        if any(isinstance(p, SymSeq) for p in pa + pb):
            res.append((f"{label} (shape {short(pa)} vs {short(pb)})", "failed", None))
            return
        return prove(False, f"{label} (length {len(pa)} vs {len(pb)})", res)
    if not pa:
        res.append((label, "proved", "eval"))
        return
    for i, (x, y) in enumerate(zip(pa, pb)):
        sx, sy = isinstance(x, SymSeq), isinstance(y, SymSeq)
        if not sx and not sy:
            prove_eq(x, y, f"{label}[{i}]", res)
        elif sx and sy:
            _seq(x, y, f"{label}[{i}]", res)
        else:
            res.append((f"{label}[{i}] (segment against element)", "failed", None))


def _provably_empty(p):
    if isinstance(p, (InputSeq, Comp)):
        b = p.base()
        if E._sat(b.lo < b.hi) == z3.unsat:
            return True
        if isinstance(p, Comp) and all(not q for _, q in p.branches):
            return True
    return False


def _seq(x, y, label, res):
    if isinstance(x, OpaqueSeq) or isinstance(y, OpaqueSeq):
        if isinstance(x, OpaqueSeq) and isinstance(y, OpaqueSeq) and x.op == y.op:
            return _parts(x.parts, y.parts, label, res)
        res.append((label + " (order transformation)", "failed", None))
        return
    bx, by = x.base(), y.base()
    if not bx.same_base(by):
        res.append((f"{label} (different source {short(x)} vs {short(y)})", "failed", None))
        return
    for a, b in zip(bx.args, by.args):
        prove(mkbool(a == b), label + " source", res)
    prove(mkbool(bx.lo == by.lo), label + " from", res)
    prove(mkbool(bx.hi == by.hi), label + " to", res)
    E.counter += 1
    k = z3.Const(f"k!{E.counter}", INT)

    def one():
        E.add(z3.And(bx.lo <= k, k < bx.hi), is_cond=False)
        E.index_term(bx, k)
        E.idx_stack.append(k)
        try:
            sub = []
            _parts(x.instantiate(k), y.instantiate(k), label + "[forall k]", sub)
            return sub
        finally:
            E.idx_stack.pop()

    for _, sub in E.subexplore(one):
        res.extend(sub)
