from contracts.lib import WAREHOUSES, conn, dim, measure, mk_project, model_dict, plain_value, q, rendered, view_dict
from pyvc.api import contract

M = "metrics_layer.core.sql.merged_query_resolve:MergedSQLQueryResolver."
G = "metrics_layer.core.sql.query_merged_results:MetricsLayerMergedResultsQuery."
FN = [M + "get_query", M + "derive_sub_queries", M + "_canon_date_mapping", M + "_join_hash_key", G + "get_query", G + "build_cte_from", G + "_build_join_criteria", G + "get_select_columns"]

IFNULL = {
    "SNOWFLAKE": "ifnull", "BIGQUERY": "ifnull", "REDSHIFT": "nvl", "POSTGRES": "coalesce", "DATABRICKS": "coalesce", "DRUID": "nvl",
    "DUCK_DB": "coalesce", "TRINO": "coalesce", "SQL_SERVER": "isnull", "AZURE_SYNAPSE": "isnull",
}
DEFAULTS = {"SNOWFLAKE", "REDSHIFT", "DUCK_DB"}
NO_SEMICOLON = {"DRUID", "TRINO"}


def column(I, name):
    a, b = I.str(name + " before", exclude="${}\n%"), I.str(name + " after", exclude="${}\n%")
    return lambda table: a + "(" + table + ".c" + b + ")"


def date(name, sql):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw", "date", "month"], "sql": sql}


class Part:
    """one view: its measure, date and mapped dimension, and what they mean"""

    def __init__(self, I, view, day, place, m, i, same=False):
        self.view, self.day, self.place, self.m = view, day, place, m
        cd, cp, cm = [column(I, view + " " + x) for x in ("date", "place", "measure")]
        self.fields = [dim("id", primary_key=True), dim(place, cp("${TABLE}")), date(day, cd("${TABLE}")), measure(m, "sum", cm("${TABLE}")), measure(m + "_top", "max", cm("${TABLE}"))]
        self.raw, self.col, self.arg = rendered(cd(view)), rendered(cp(view)), rendered(cm(view))
        self.cte = view + "_" + day + "__cte_subquery_" + str(i)

    def sum(self):
        return "SUM(" + self.arg + ")"

    def frame(self, f):
        return "DATE_TRUNC('" + {"date": "DAY", "month": "MONTH"}[f] + "', " + self.raw + ")" if f != "raw" else self.raw


def parts(I, n=2):
    return [Part(I, "a_v", "made", "region", "s", 0), Part(I, "b_v", "done", "zone", "t", 1), Part(I, "c_v", "sent", "area", "u", 2)][:n]


def project(ps, extra=()):
    views = [view_dict(p.view, p.fields + (list(extra) if i == 0 else []), default_date=p.day) for i, p in enumerate(ps)]
    return mk_project(views, models=[model_dict(mappings={"place": {"fields": [p.view + "." + p.place for p in ps], "group_by": []}})])


def sub(p, cols, ms, wh, where=""):
    """the query of one view's measures: cols is [(sql, alias)]"""
    sel = [s + " as " + a for s, a in cols] + [{"sum": p.sum(), "top": "MAX(" + p.arg + ")"}[m] + " as " + p.view + "_" + p.m + ("_top" if m == "top" else "") for m in ms]
    sql = "SELECT " + ",".join(sel) + " FROM t_" + p.view + " " + p.view + where
    if cols:
        sql += " GROUP BY " + ",".join([a if wh == "BIGQUERY" else s for s, a in cols])
    if wh in DEFAULTS:
        sql += " ORDER BY " + p.view + "_" + p.m + ("_top" if ms[0] == "top" else "") + " DESC NULLS LAST"
    return sql


def nested(f, xs):
    return xs[0] if len(xs) == 1 else f + "(" + xs[0] + ", " + nested(f, xs[1:]) + ")"


def merged(ps, cols, ms, wh, wheres=None, extra=(), having="", limit=None):
    """cols: per output dimension, one (sql, alias) per part; ms: measures per part"""
    with_ = []
    for i, p in enumerate(ps):
        with_.append(p.cte + " AS (" + sub(p, [c[i] for c in cols], ms[i], wh, (wheres or [""] * len(ps))[i]) + ")")
    sel = []
    for p, m in zip(ps, ms):
        for x in m:
            a = p.view + "_" + p.m + ("_top" if x == "top" else "")
            sel.append(p.cte + "." + a + " as " + a)
    for i, p in enumerate(ps):
        for c in cols:
            mine = p.cte + "." + c[i][1]
            others = [o.cte + "." + c[j][1] for j, o in enumerate(ps) if j != i]
            sel.append(nested(IFNULL[wh], [mine] + others) + " as " + c[i][1])
    sel += list(extra)
    sql = "WITH " + " ,".join(with_) + " SELECT " + ",".join(sel) + " FROM " + ps[0].cte
    for i, p in enumerate(ps[1:]):
        if not cols and wh == "REDSHIFT":
            sql += " CROSS JOIN " + p.cte
        else:
            on = " and ".join([ps[0].cte + "." + c[0][1] + "=" + p.cte + "." + c[i + 1][1] for c in cols]) if cols else "1=1"
            sql += " FULL OUTER JOIN " + p.cte + " ON " + on
    return sql + having + ("" if limit is None else " LIMIT " + str(limit)) + ("" if wh in NO_SEMICOLON else ";")


def dims(ps, names):
    """output dimensions -> the columns of each part"""
    out = []
    for n in names:
        if n == "place":
            out.append([(p.col, p.view + "_" + p.place) for p in ps])
        else:
            out.append([(p.frame(n), p.view + "_" + p.day + "_" + n) for p in ps])
    return out


def asked(ps, names, via):
    p = ps[1] if via == "second" else ps[0]
    return [n if via == "mapping" else p.view + "." + (p.place if n == "place" else p.day + "_" + n) for n in names]


@contract("C14", functions=FN, weight=3, doc=(
    "measures of views that cannot be joined are merged: each is computed by its own query over its own view, grouped by its own date (and its own mapped "
    "dimension), and the results are full-outer-joined on every dimension, each dimension shown with the value of whichever side has one"))
def two_sides(I):
    via = I.choice("through", ["first", "second", "mapping"])
    wh = I.choice("warehouse", WAREHOUSES if via != "mapping" else ["SNOWFLAKE"])
    day = "raw" if via != "mapping" else "month"
    names = I.choice("dimensions", [[], [day], ["place"], [day, "place"]])
    ps = parts(I)
    got = I.outcome(lambda: conn(project(ps)).get_sql_query(metrics=["s", "t"], dimensions=asked(ps, names, via), query_type=wh))
    I.check_eq("sql", got.value, merged(ps, dims(ps, names), [["sum"], ["sum"]], wh))


@contract("C14", functions=FN, weight=2, doc="likewise for three views, and for several measures of one of them")
def three_sides(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "REDSHIFT", "TRINO"])
    names = I.choice("dimensions", [[], ["raw"], ["raw", "place"]])
    ps = parts(I, 3)
    both = I.bool("two measures of the first")
    got = I.outcome(lambda: conn(project(ps)).get_sql_query(
        metrics=["s", "t", "u"] + (["s_top"] if both else []), dimensions=asked(ps, names, "first"), query_type=wh))
    I.check_eq("sql", got.value, merged(ps, dims(ps, names), [["sum", "top"] if both else ["sum"], ["sum"], ["sum"]], wh))


OPS = {"equal_to": "=", "greater_than": ">", "less_or_equal_than": "<=", "not_equal_to": "<>"}


@contract("C14", functions=FN + [M + "_resolve_where_mapped_filter", M + "_parse_where_filter"], weight=3, doc=(
    "a filter on a side's date or on a mapped dimension restricts every side, through that side's own column, inside its query"))
def filtered(I):
    ps = parts(I)
    on = I.choice("filter on", ["raw", "place", "both", "either", "nested"])
    via = I.choice("through", ["first", "second"])
    op = I.choice("operator", ["greater_than", "not_equal_to"])
    v, w = plain_value(I, "value"), plain_value(I, "other value")
    d, pl = asked(ps, ["raw", "place"], via)
    fd, fp = {"field": d, "expression": op, "value": v}, {"field": pl if not I.bool("by mapping name") else "place", "expression": "equal_to", "value": w}
    where = {"raw": [fd], "place": [fp], "both": [fd, fp], "either": [{"logical_operator": "OR", "conditions": [fd, fp]}],
             "nested": [{"logical_operator": "AND", "conditions": [{"logical_operator": "OR", "conditions": [fd, {"logical_operator": "AND", "conditions": [fp, fd]}]}, fp]}]}[on]
    got = I.outcome(lambda: conn(project(ps)).get_sql_query(metrics=["s", "t"], dimensions=asked(ps, ["raw"], "first"), where=where, query_type="SNOWFLAKE"))

    def text(p):
        a, b = p.raw + OPS[op] + q(v), p.col + "=" + q(w)
        return " WHERE " + {"raw": a, "place": b, "both": a + " AND " + b, "either": a + " OR " + b,
                           "nested": "(" + a + " OR (" + b + " AND " + a + ")) AND " + b}[on]

    I.check_eq("sql", got.value, merged(ps, dims(ps, ["raw"]), [["sum"], ["sum"]], "SNOWFLAKE", wheres=[text(p) for p in ps]))


def ratio(I):
    a, b, c = [I.str("ratio " + x, exclude="${}\n%") for x in ("before", "between", "after")]
    sql = lambda s, t: a + s + b + t + c
    return measure("r", "number", sql("${s}", "${b_v.t}"), is_merged=True), sql("a_v_s", "b_v_t").strip() + " as a_v_r"


@contract("C14", functions=FN + ["metrics_layer.core.model.field:Field.strict_replaced_query"], weight=2, doc=(
    "a number measure over several views is computed from the merged results of the measures it references, each from its own side"))
def merged_measure(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "DRUID"])
    names = I.choice("dimensions", [[], ["raw"], ["place"]])
    ps = parts(I)
    field, text = ratio(I)
    ask = I.choice("measures", [["r"], ["r", "s"], ["t", "r"], ["r", "s_top"]])
    got = I.outcome(lambda: conn(project(ps, [field])).get_sql_query(metrics=list(ask), dimensions=asked(ps, names, "first"), query_type=wh))
    I.check_eq("sql", got.value, merged(ps, dims(ps, names), [["sum", "top"] if "s_top" in ask else ["sum"], ["sum"]], wh, extra=[text]))


@contract("C14", functions=FN + ["metrics_layer.core.sql.query_base:MetricsLayerQueryBase.get_where_with_aliases"], weight=2, doc=(
    "a filter on measures applies to the merged rows (also one on a measure that is not selected), and so does the limit, never to the sides"))
def merged_having(I):
    ps = parts(I)
    field, text = ratio(I)
    a, b = {"s": "a_v_s", "t": "b_v_t", "r": "a_v_r"}, I.choice("having", [["s"], ["t"], ["r"], ["s", "r"], ["s", "t", "either"]])
    op = I.choice("operator", list(OPS))
    n = [I.int("threshold " + str(k), 2, None) for k in range(len(b))]
    conds = [{"field": f, "expression": op, "value": n[k]} for k, f in enumerate(b) if f != "either"]
    texts = [a[f] + OPS[op] + str(n[k]) for k, f in enumerate(b) if f != "either"]
    limit = I.int("limit", 1, None) if I.bool("limited") else None
    got = I.outcome(lambda: conn(project(ps, [field])).get_sql_query(
        metrics=["r"], dimensions=asked(ps, ["place"], "first"),
        having=[{"logical_operator": "OR", "conditions": conds}] if "either" in b else conds, limit=limit, query_type="SNOWFLAKE"))
    I.check_eq("sql", got.value, merged(
        ps, dims(ps, ["place"]), [["sum"], ["sum"]], "SNOWFLAKE", extra=[text],
        having=" WHERE " + (" OR " if "either" in b else " AND ").join(texts), limit=limit))


@contract("C14", functions=FN, doc=(
    "a dimension of one side with no mapping to the other, and a measure with no date, refuse the merged query instead of answering over the wrong rows"))
def refused(I):
    ps = parts(I)
    why = I.choice("why", ["dimension", "filter", "no date"])
    views = [view_dict(p.view, p.fields, **({} if why == "no date" and p.view == "b_v" else {"default_date": p.day})) for p in ps]
    project_ = mk_project(views, models=[model_dict(mappings={"place": {"fields": [p.view + "." + p.place for p in ps], "group_by": []}})])
    kw = {"dimension": {"dimensions": ["a_v.id"]}, "filter": {"where": [{"field": "a_v.id", "expression": "equal_to", "value": plain_value(I, "v")}]}, "no date": {}}[why]
    got = I.outcome(lambda: conn(project_).get_sql_query(metrics=["s", "t"], query_type=I.choice("warehouse", WAREHOUSES), **kw))
    I.check("refused", not got.ok and got.exc_type in ("QueryError", "JoinError"))


@contract("C14", functions=FN + [M + "_join_hash_contains_join_graph", M + "_resolve_where_mapped_filter"], weight=2, doc=(
    "likewise in a model of more than ten unrelated views, whichever of their views are merged"))
def many_views(I):
    names = ["orders", "a_orders"] + ["n%02d" % i for i in range(9)] + ["zz"]
    a, b, c = I.choice("views", [("orders", "a_orders", "zz"), ("zz", "a_orders", "orders"), ("a_orders", "zz", "orders"), ("n00", "n01", "n02")])
    how = I.choice("how", ["filter", "mapping"])
    views = [view_dict(v, [dim("id", primary_key=True), dim("place_" + v), date("made", "${TABLE}.made"), measure("m_" + v)], default_date="made") for v in names]
    p = mk_project(views, models=[model_dict(mappings={"place": {"fields": [v + ".place_" + v for v in (a, c, b)], "group_by": []}})])
    v = plain_value(I, "value")
    got = I.outcome(lambda: conn(p).get_sql_query(
        metrics=["m_" + a, "m_" + b], dimensions=[a + ".place_" + a] if how == "mapping" else [a + ".made_raw"], query_type="SNOWFLAKE",
        where=[{"field": a + ".made_raw", "expression": "greater_than", "value": v}] if how == "filter" else []))
    col = "place_{}" if how == "mapping" else "made_raw"
    sql = "place_{}" if how == "mapping" else "made"
    first, second = sorted([a, b])
    cte = {first: first + "_made__cte_subquery_0", second: second + "_made__cte_subquery_1"}

    def side(x):
        where = " WHERE " + x + ".made>" + q(v) if how == "filter" else ""
        s = x + "." + sql.format(x)
        return (cte[x] + " AS (SELECT " + s + " as " + x + "_" + col.format(x) + ",SUM(" + x + ".m_" + x + ") as " + x + "_m_" + x + " FROM t_" + x + " " + x + where
                + " GROUP BY " + s + " ORDER BY " + x + "_m_" + x + " DESC NULLS LAST)")

    def out(x, o):
        return "ifnull(" + cte[x] + "." + x + "_" + col.format(x) + ", " + cte[o] + "." + o + "_" + col.format(o) + ") as " + x + "_" + col.format(x)

    sql_ = "WITH " + side(a) + " ," + side(b) + " SELECT " + ",".join(cte[x] + "." + x + "_m_" + x + " as " + x + "_m_" + x for x in (first, second))
    sql_ += "," + out(first, second) + "," + out(second, first) + " FROM " + cte[first] + " FULL OUTER JOIN " + cte[second]
    sql_ += " ON " + cte[first] + "." + first + "_" + col.format(first) + "=" + cte[second] + "." + second + "_" + col.format(second) + ";"
    I.check_eq("sql", got.value, sql_)


@contract("C14", functions=FN, weight=2, doc=(
    "measures of one view with different dates, merged: each is grouped and filtered by its own date"))
def own_dates(I):
    d1, d2, place, cs, ct = [column(I, x) for x in ("made", "sold", "region", "first measure", "second measure")]
    field, text = measure("r", "number", "${s} / ${t}", is_merged=True), "a_v_s / a_v_t as a_v_r"
    view = view_dict("a_v", [
        dim("id", primary_key=True), dim("region", place("${TABLE}")), date("made", d1("${TABLE}")), date("sold", d2("${TABLE}")),
        measure("s", "sum", cs("${TABLE}")), measure("t", "max", ct("${TABLE}"), canon_date="sold"), field], default_date="made")
    names = I.choice("dimensions", [["made"], ["sold"], ["region", "made"], ["region"]])
    where = I.choice("filter", [None, "made", "sold", "region"])
    v = plain_value(I, "value")
    got = I.outcome(lambda: conn(mk_project([view])).get_sql_query(
        metrics=["r"], dimensions=["a_v." + n + ("_raw" if n != "region" else "") for n in names],
        where=[{"field": "a_v." + where + ("_raw" if where != "region" else ""), "expression": "equal_to", "value": v}] if where else [], query_type="SNOWFLAKE"))
    cte = {"made": "a_v_made__cte_subquery_0", "sold": "a_v_sold__cte_subquery_1"}
    sql = {"made": rendered(d1("a_v")), "sold": rendered(d2("a_v")), "region": rendered(place("a_v"))}

    def side(d, agg, m):
        cols = [(sql[n if n == "region" else d], "a_v_" + ("region" if n == "region" else d + "_raw")) for n in names]
        w = " WHERE " + sql[where if where == "region" else d] + "=" + q(v) if where else ""
        return (cte[d] + " AS (SELECT " + ",".join([c + " as " + a for c, a in cols]) + "," + agg + " as a_v_" + m + " FROM t_a_v a_v" + w
                + " GROUP BY " + ",".join([c for c, a in cols]) + " ORDER BY a_v_" + m + " DESC NULLS LAST)")

    x, y = cte["made"] + ".", cte["sold"] + "."
    sel, on = [x + "a_v_s as a_v_s", y + "a_v_t as a_v_t"], []
    late = []
    for n in names:
        if n == "region":
            sel.append("ifnull(" + x + "a_v_region, " + y + "a_v_region) as a_v_region")
            on.append(x + "a_v_region=" + y + "a_v_region")
        else:
            sel.append("ifnull(" + x + "a_v_made_raw, " + y + "a_v_sold_raw) as a_v_made_raw")
            late.append("ifnull(" + y + "a_v_sold_raw, " + x + "a_v_made_raw) as a_v_sold_raw")
            on.append(x + "a_v_made_raw=" + y + "a_v_sold_raw")
    I.check_eq("sql", got.value, "WITH " + side("made", "SUM(" + rendered(cs("a_v")) + ")", "s") + " ," + side("sold", "MAX(" + rendered(ct("a_v")) + ")", "t")
               + " SELECT " + ",".join(sel + late + [text]) + " FROM " + cte["made"] + " FULL OUTER JOIN " + cte["sold"] + " ON " + " and ".join(on) + ";")


@contract("C14", functions=FN, kind="exhaustive", doc=(
    "run on rows (by SQLite), the merged query of two or three views has one row per place that any side has, with every measure of that place: every set of sides that have it"))
def lined_up(I):
    import itertools
    import sqlite3

    n = I.choice("sides", [2, 3])
    have = I.choice("sides with the place", [s for k in range(1, n + 1) for s in itertools.combinations("abc"[:n], k)])
    views = [view_dict(x + "_v", [dim("id", primary_key=True), dim("place_" + x, "${TABLE}.place"), date("made", "${TABLE}.made"), measure("m" + x, "sum", "${TABLE}.x")], default_date="made") for x in "abc"[:n]]
    p = mk_project(views, models=[model_dict(mappings={"place": {"fields": [x + "_v.place_" + x for x in "abc"[:n]], "group_by": []}})])
    sql = conn(p).get_sql_query(metrics=["m" + x for x in "abc"[:n]], dimensions=["a_v.place_a"], query_type="POSTGRES")
    db = sqlite3.connect(":memory:")
    for i, x in enumerate("abc"[:n]):
        db.execute(f"create table t_{x}_v (id, place, made, x)")
        rows = [(1, "everywhere", "2024-01-01", 1), (2, "only " + x, "2024-01-01", 2)] + ([(3, "here", "2024-01-01", 10 + i)] if x in have else [])
        db.executemany(f"insert into t_{x}_v values (?,?,?,?)", rows)
    cur = db.execute(sql)
    names = [c[0] for c in cur.description]
    got = sorted((tuple(r[names.index(x + "_v_m" + x)] for x in "abc"[:n]) + (r[names.index("a_v_place_a")],) for r in cur.fetchall()), key=repr)
    want = [tuple(1 for _ in range(n)) + ("everywhere",), tuple(10 + i if x in have else None for i, x in enumerate("abc"[:n])) + ("here",)]
    want += [tuple(2 if x == y else None for y in "abc"[:n]) + ("only " + x,) for x in "abc"[:n]]
    I.check_eq("rows", got, sorted(want, key=repr))
