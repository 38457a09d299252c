from itertools import combinations

from contracts.lib import TREES, conn, dim, join_tree, measure, mk_project, rendered, view_dict
from pyvc.api import contract

D = "metrics_layer.core.sql.query_design:MetricsLayerDesign."
J = "metrics_layer.core.model.join_graph:JoinGraph."
JN = "metrics_layer.core.model.join:Join."
B = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."


def parse_from(sql):
    """[(view, clause or None)] of FROM t_a a LEFT JOIN t_b b ON x=y ..."""
    text = sql.split(" FROM ")[1].split(" GROUP BY ")[0].split(" ORDER BY ")[0].rstrip(";")
    steps = text.split(" LEFT JOIN ")
    out = []
    for s in steps:
        table, _, clause = s.partition(" ON ")
        t, name = table.split(" ")
        out.append((t, name, clause or None))
    return out


def query(I, names, rels, fan, parents, used):
    p = mk_project(join_tree(names, parents, rels, fan))
    ms = [names[i] + ".s" for i in used]
    ds = [names[i] + ".d" for i in used]
    return I.outcome(lambda: conn(p).get_sql_query(metrics=ms[:1], dimensions=ds, single_query=True, query_type="SNOWFLAKE"))


def reaches(root, parents, rels, fan, used):
    """every used view can be reached from root along allowed joins"""
    n = len(parents) + 1
    seen, todo = [root], [root]
    while todo:
        x = todo.pop()
        for i in range(n - 1):
            a, b, r = parents[i], i + 1, rels[i]
            for u, w, away in ((a, b, r), (b, a, r[::-1])):
                if u == x and w not in seen and (away in ("m1", "11") or fan):
                    seen.append(w)
                    todo.append(w)
    return all([u in seen for u in used])


@contract("C06", functions=[D + "joins", D + "determine_join_order", D + "_clean_view_pairs", J + "build", J + "_identifier_to_join", J + "_derive_relationship", J + "_is_fanout"],
          kind="exhaustive", doc=(
    "for every join tree of up to four views, every relationship on each edge and fan-outs allowed or not: the query joins each "
    "view it needs exactly once, each on the declared key columns of an edge to a view joined before, never along an edge that "
    "fans out unless that is allowed, and it succeeds when some view reaches all the others along allowed joins"))
def join_tree_sql(I):
    parents = I.choice("tree", TREES)
    n = len(parents) + 1
    names = I.choice("names", [["a_v", "b_v", "c_v", "d_v"], ["d_v", "c_v", "b_v", "a_v"], ["b_v", "d_v", "a_v", "c_v"]])[:n]
    rels = [I.choice("rel" + str(i), ["m1", "1m", "11", "mm"]) for i in range(n - 1)]
    tree_query(I, names, rels, I.bool("fan-outs allowed"), parents, list(range(n)))


@contract("C06", functions=[D + "joins", D + "determine_join_order", D + "_greedy_build_join", D + "_add_missing_views", D + "_shortest_path_between_two",
                            D + "_clean_view_pairs", D + "_validate_join_path"],
          kind="exhaustive", doc="likewise when the query uses only some of the views: those between them are joined in")
def bridged(I):
    parents = I.choice("tree", [t for t in TREES if len(t) > 1])
    n = len(parents) + 1
    names = I.choice("names", [["a_v", "b_v", "c_v", "d_v"], ["d_v", "c_v", "b_v", "a_v"]])[:n]
    rels = [I.choice("rel" + str(i), ["m1", "1m", "11", "mm"]) for i in range(n - 1)]
    used = I.choice("used", [u for k in range(2, n) for u in combinations(range(n), k)])
    tree_query(I, names, rels, I.bool("fan-outs allowed"), parents, list(used))


def tree_query(I, names, rels, fan, parents, used):
    n = len(names)
    r = query(I, names, rels, fan, parents, used)
    possible = any([reaches(x, parents, rels, fan, used) for x in range(n)])
    if not r.ok:
        I.check("refused only when no view reaches the others", not possible)
        return
    steps = parse_from(r.value)
    got = [s[1] for s in steps]
    I.check("every view used is joined", all([names[i] in got for i in used]))
    I.check("no view twice", len(set(got)) == len(got))
    if len(used) == n:
        I.check_eq("no other view", sorted(got), sorted(names))
    I.check("table of the view", all([s[0] == "t_" + s[1] for s in steps]))
    joined = [steps[0][1]]
    for t, name, clause in steps[1:]:
        ok = False
        for i in range(n - 1):
            for u, w, away in ((parents[i], i + 1, rels[i]), (i + 1, parents[i], rels[i][::-1])):
                if names[w] == name and names[u] in joined and (away in ("m1", "11") or fan):
                    if clause == f"{names[u]}.e{i}={names[w]}.e{i}":
                        ok = True
        I.check("joined on a declared, allowed edge", ok)
        joined.append(name)


# ---------------------------------------------------------------- two views: what the ON clause says, for every key text
KEYS = [J + "build", J + "_identifier_to_join", J + "_identifier_join_clause", J + "_reference_map", J + "_verify_identifier_join",
        J + "get_join", JN + "replaced_sql_on", JN + "get_replaced_sql_on", B + "get_join_query_from", B + "get_pypika_join_type"]


def key(I, view, text, kinds=("field", "expression", "table", "implicit", "qualified")):
    """(identifier properties, SQL meant by them); `text` is the SQL the view's key field means"""
    kind = I.choice("key of " + view, kinds)
    return {
        "field": ({"sql": "${kf}"}, text),
        "expression": ({"sql": "coalesce(${kf},0) || ${kf}"}, "coalesce(" + text + ",0) || " + text),
        "table": ({"sql": "${TABLE}.raw"}, view + ".raw"),
        "implicit": ({}, text),
        "qualified": ({"sql": "${" + view + ".kf}"}, text),
    }[kind]


def field_sql(I, name):
    """the SQL of a key field: ${TABLE}.<column> inside arbitrary text"""
    a, c, b = [I.str(name + " " + x, exclude="${}%\n") for x in ("before", "column", "after")]
    return lambda table: a + "(" + table + "." + c + ")" + b


def two_views(I, ra, rb, extra_a=None, extra_b=None, **kinds):
    ta, tb = field_sql(I, "a"), field_sql(I, "b")
    (ka, sa), (kb, sb) = key(I, "a_v", rendered(ta("a_v")), **kinds), key(I, "b_v", rendered(tb("b_v")), **kinds)
    name = "kf"
    a = {"name": name, "type": ra, **ka, **(extra_a or {})}
    b = {"name": name, "type": rb, **kb, **(extra_b or {})}
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("d"), dim("kf", ta("${TABLE}")), measure("s")], identifiers=[a]),
        view_dict("b_v", [dim("id", primary_key=True), dim("d"), dim("kf", tb("${TABLE}"))], identifiers=[b]),
    ])
    return p, sa, sb


SEL = "SELECT a_v.d as a_v_d,b_v.d as b_v_d FROM "
TAIL = " GROUP BY a_v.d,b_v.d ORDER BY a_v_d ASC NULLS LAST;"


def ask(I, p, dims=("a_v.d", "b_v.d")):
    return I.outcome(lambda: conn(p).get_sql_query(metrics=[], dimensions=list(dims), single_query=True, query_type="SNOWFLAKE"))


@contract("C06", functions=KEYS, weight=2, doc=(
    "two views sharing an identifier are joined on exactly the two declared keys, whatever SQL the keys are (field, expression over "
    "fields, table column, implicit field), from the side whose rows the join does not multiply; a join that multiplies rows only "
    "where the joining view's identifier allows it, and only_join on either side cuts the link"))
def identifier_keys(I):
    types = {"many to one": ("foreign", "primary"), "one to many": ("primary", "foreign"), "one to one": ("primary", "primary"), "many to many": ("foreign", "foreign")}
    rel = I.choice("relationship", sorted(types))
    fan = I.choice("allowed_fanouts", ["none", "a", "b"])
    only = I.choice("only_join", ["none", "a admits", "a excludes", "b excludes"])
    ea, eb = {}, {}
    if fan == "a":
        ea["allowed_fanouts"] = ["b_v"]
    if fan == "b":
        eb["allowed_fanouts"] = ["a_v"]
    if only == "a admits":
        ea["only_join"] = ["z_v", "b_v"]
    if only == "a excludes":
        ea["only_join"] = ["z_v"]
    if only == "b excludes":
        eb["only_join"] = ["z_v"]
    p, sa, sb = two_views(I, *types[rel], ea, eb, **({} if only == "none" else {"kinds": ["field"]}))
    r = ask(I, p)
    ab = "t_a_v a_v LEFT JOIN t_b_v b_v ON " + sa + "=" + sb
    ba = "t_b_v b_v LEFT JOIN t_a_v a_v ON " + sb + "=" + sa
    if only in ("a excludes", "b excludes"):
        want = None
    elif rel in ("many to one", "one to one"):
        want = ab
    elif rel == "one to many":
        want = ba
    else:
        want = {"none": None, "a": ab, "b": ba}[fan]
    if want is None:
        I.check("refused", not r.ok and r.exc_type == "JoinError")
    elif not r.ok:
        I.check("answered", False)
    else:
        # either side can start a one-to-one join
        if rel == "one to one" and r.value.startswith(SEL + "t_b_v"):
            want = ba
        I.check_eq("sql", r.value, SEL + want + TAIL)


@contract("C06", functions=KEYS, weight=2, doc=(
    "a join declared with its own SQL uses exactly that SQL, with every ${view.field} replaced by the field's SQL, and the declared "
    "join type, from the declaring view to the referenced one, and the other way round only when that does not multiply rows"))
def declared_join(I):
    ta, tb = field_sql(I, "a"), field_sql(I, "b")
    rel = I.choice("relationship", ["many_to_one", "one_to_many", "one_to_one", "many_to_many"])
    jt = I.choice("join_type", [None, "left_outer", "inner", "full_outer"])
    on, want = I.choice("sql_on", [
        ("${a_v.kf}=${b_v.kf}", "{a}={b}"),
        ("${b_v.kf} > ${a_v.kf} and ${a_v.kf} is not null", "{b} > {a} and {a} is not null"),
        ("1=1", "1=1"),
    ])
    ident = {"name": "j", "type": "join", "reference": "b_v", "relationship": rel, "sql_on": on}
    if jt:
        ident["join_type"] = jt
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("d"), dim("kf", ta("${TABLE}"))], identifiers=[ident]),
        view_dict("b_v", [dim("id", primary_key=True), dim("d"), dim("kf", tb("${TABLE}"))]),
    ])
    r = ask(I, p)
    word = {None: "LEFT JOIN", "left_outer": "LEFT JOIN", "inner": "JOIN", "full_outer": "FULL OUTER JOIN"}[jt]
    clause = " ON " + want.format(a=rendered(ta("a_v")), b=rendered(tb("b_v")))
    ab, ba = f"t_a_v a_v {word} t_b_v b_v", f"t_b_v b_v {word} t_a_v a_v"
    if not r.ok:
        I.check("answered", False)
        return
    # one-to-one can start on either side; one-to-many is better walked from the many side
    frm = {"many_to_one": ab, "many_to_many": ab, "one_to_many": ba, "one_to_one": ab}[rel]
    if rel == "one_to_one" and r.value.startswith(SEL + "t_b_v"):
        frm = ba
    I.check_eq("sql", r.value, SEL + frm + clause + TAIL)


@contract("C06", functions=[J + "build", J + "_derive_relationship", JN + "replaced_sql_on"], doc=(
    "among several identifiers two views share, the join uses one that multiplies rows least, in whatever order they are declared"))
def best_identifier(I):
    kinds = ["11", "m1", "1m", "mm"]
    first, second = I.choice("first", kinds), I.choice("second", kinds)
    flip = I.bool("b declares them the other way round")
    ty = {"1": "primary", "m": "foreign"}
    # each identifier allows the fan-out or not for itself
    fans = [I.bool("k0 may fan out"), I.bool("k1 may fan out")]
    ia = [{"name": f"k{i}", "type": ty[r[0]], "sql": "${k" + str(i) + "}", **({"allowed_fanouts": ["b_v"]} if fans[i] else {})} for i, r in enumerate([first, second])]
    ib = [{"name": f"k{i}", "type": ty[r[1]], "sql": "${k" + str(i) + "}"} for i, r in enumerate([first, second])]
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("d"), dim("k0"), dim("k1")], identifiers=ia),
        view_dict("b_v", [dim("id", primary_key=True), dim("d"), dim("k0"), dim("k1")], identifiers=ib[::-1] if flip else ib),
    ])
    r = ask(I, p)
    # every way of joining the two, best first
    cost = {"11": 1, "m1": 2, "1m": 3, "mm": 4}
    ways = []
    for i, rel in enumerate([first, second]):
        if rel in ("11", "m1") or fans[i]:
            ways.append((cost[rel], f"t_a_v a_v LEFT JOIN t_b_v b_v ON a_v.k{i}=b_v.k{i}"))
        if rel[::-1] in ("11", "m1"):
            ways.append((cost[rel[::-1]], f"t_b_v b_v LEFT JOIN t_a_v a_v ON b_v.k{i}=a_v.k{i}"))
    if not ways:
        I.check("refused", not r.ok and r.exc_type == "JoinError")
        return
    best = min([c for c, _ in ways])
    I.check("a best join", r.ok and any([r.value == SEL + w + TAIL for c, w in ways if c == best]))


@contract("C06", functions=["metrics_layer.core.model.project:Project._handle_join_as_duplication", J + "build"], doc=(
    "an identifier with join_as links a copy of its view, under the copy's own name and alias, and no longer the view itself; the copy "
    "has the view's dimensions and, only when asked, its measures"))
def joined_as(I):
    t = field_sql(I, "a")
    metrics = I.choice("include_metrics", [None, True, False])
    ident = {"name": "kf", "type": "primary", "sql": "${kf}", "join_as": "c_v"}
    if metrics is not None:
        ident["include_metrics"] = metrics
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("d"), dim("kf")], identifiers=[{"name": "kf", "type": "foreign", "sql": "${kf}"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("d"), dim("kf", t("${TABLE}")), measure("s")], identifiers=[ident]),
    ])
    I.check_eq("the copy joins", ask(I, p, ("a_v.d", "c_v.d")).value,
               "SELECT a_v.d as a_v_d,c_v.d as c_v_d FROM t_a_v a_v LEFT JOIN t_b_v c_v ON a_v.kf=" + rendered(t("c_v"))
               + " GROUP BY a_v.d,c_v.d ORDER BY a_v_d ASC NULLS LAST;")
    o = ask(I, p)
    I.check("the view itself does not", not o.ok and o.exc_type == "JoinError")
    m = I.outcome(lambda: conn(p).get_sql_query(metrics=["c_v.s"], dimensions=[], query_type="SNOWFLAKE"))
    if metrics:
        I.check_eq("measure of the copy", m.value, "SELECT SUM(c_v.s) as c_v_s FROM t_b_v c_v ORDER BY c_v_s DESC NULLS LAST;")
    else:
        I.check("no measures on the copy", not m.ok)
