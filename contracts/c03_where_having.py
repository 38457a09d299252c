from metrics_layer.core.sql.query_design import MetricsLayerDesign
from metrics_layer.core.sql.query_generator import MetricsLayerQuery

from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, q, view_dict
from pyvc.api import contract

G = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."
F = "metrics_layer.core.sql.query_filter:MetricsLayerFilter."
R = "metrics_layer.core.sql.resolve:SQLQueryResolver."
S = "metrics_layer.core.sql.single_query_resolve:SingleSQLQueryResolver."
FN = [G + "parse_definition", G + "_parse_filter_object", G + "get_query", F + "__init__", F + "validate", F + "sql_query", F + "criterion"]


def project(**kw):
    return mk_project([view_dict("orders", [
        dim("id", primary_key=True), dim("cust"), dim("region"), dim("channel"), dim("paid", type="yesno"),
        measure("total"), measure("n", "count", "${id}"),
    ], **kw)])


def generator(p, where=(), having=(), metrics=("total",), dimensions=("region",)):
    """the public query generator over a design, below the resolver that only looks names up"""
    names = ["total", "n", "region", "cust", "channel", "paid", "id"]
    lookup = {n: p.get_field(n) for n in names}
    design = MetricsLayerDesign(no_group_by=False, query_type="SNOWFLAKE", field_lookup=lookup, model=p.get_model("m"), project=p)
    return MetricsLayerQuery({
        "metrics": list(metrics), "dimensions": list(dimensions), "where": where, "having": having, "order_by": [],
        "limit": None, "select_raw_sql": [], "return_pypika_query": None,
    }, design=design)


SELECT = "SELECT orders.region as orders_region,SUM(orders.total) as orders_total FROM t_orders orders"
GROUP = " GROUP BY orders.region"
ORDER = " ORDER BY orders_total DESC NULLS LAST;"

OPS = {
    "equal_to": lambda c, v: c + "=" + q(v),
    "not_equal_to": lambda c, v: c + "<>" + q(v),
    "greater_than": lambda c, v: c + ">" + q(v),
    "less_or_equal_than": lambda c, v: c + "<=" + q(v),
}


def one_where(x):
    """a filter on one of the dimensions, any operator and any value"""
    field, op, v = x.choice("field", ["region", "cust"]), x.choice("op", ["equal_to", "greater_than"]), x.str("v", exclude=".")
    return {"field": field, "expression": op, "value": v}


def text_where(f):
    return OPS[f["expression"]]("orders." + f["field"], f["value"])


def one_having(x):
    op, v = x.choice("op", ["less_or_equal_than", "not_equal_to"]), x.int("v", 2, 99)
    return {"field": x.choice("field", ["total", "n"]), "expression": op, "value": v}


NUM = {"equal_to": "=", "not_equal_to": "<>", "greater_than": ">", "less_or_equal_than": "<="}
MEAS = {"total": "SUM(orders.total)", "n": "COUNT(orders.id)"}


def text_having(f):
    return MEAS[f["field"]] + NUM[f["expression"]] + str(f["value"])


@contract("C03", functions=FN, bound=3, doc=(
    "a query's where filters, any number of them, all reach its WHERE clause, once, in order, AND-ed"))
def where_list(I):
    p = project()
    w = I.list("where", one_where)
    got = generator(p, where=w).get_query()
    texts = [text_where(f) for f in w]
    I.check_eq("sql", got, SELECT + (" WHERE " + " AND ".join(texts) if texts else "") + GROUP + ORDER)


@contract("C03", functions=FN, bound=3, doc="likewise for having filters, over the aggregates of the measures they name")
def having_list(I):
    p = project()
    h = I.list("having", one_having)
    got = generator(p, where=[], having=h).get_query()
    texts = [text_having(f) for f in h]
    I.check_eq("sql", got, SELECT + GROUP + (" HAVING " + " AND ".join(texts) if texts else "") + ORDER)


GROUP_FN = FN + [F + "group_sql_query", "metrics_layer.core.utils:flatten_filters"]


@contract("C03", functions=GROUP_FN, bound=3, doc=(
    "a filter group joins all its conditions, any number of them, with its logical operator (AND when it names none), "
    "and the group as a whole is AND-ed with the other filters"))
def group_list(I):
    p = project()
    op = I.choice("op", ["OR", "AND", None])
    # query_type is what the generator itself writes into each condition
    conds = I.list("conditions", lambda x: {**one_where(x), "query_type": "SNOWFLAKE"}, min=2)
    group = {"conditions": conds, "query_type": "SNOWFLAKE"}
    if op:
        group["logical_operator"] = op
    others = I.choice("others", ["none", "before", "after"])
    v = I.str("v", exclude=".")
    extra = {"field": "channel", "expression": "not_equal_to", "value": v}
    w = {"none": [group], "before": [extra, group], "after": [group, extra]}[others]
    got = generator(p, where=w).get_query()
    text = (" OR " if op == "OR" else " AND ").join([text_where(c) for c in conds])
    if op == "OR" and others != "none":
        text = "(" + text + ")"
    et = "orders.channel<>" + q(v)
    text = {"none": text, "before": et + " AND " + text, "after": text + " AND " + et}[others]
    I.check_eq("sql", got, SELECT + " WHERE " + text + GROUP + ORDER)


SHAPES = {
    "or(and,x)": {"logical_operator": "OR", "conditions": [{"logical_operator": "AND", "conditions": [0, 1]}, 2]},
    "and(or,x)": {"logical_operator": "AND", "conditions": [{"logical_operator": "OR", "conditions": [0, 1]}, 2]},
    "and(x,or)": {"logical_operator": "AND", "conditions": [2, {"logical_operator": "OR", "conditions": [0, 1]}]},
    "or(or,x)": {"logical_operator": "OR", "conditions": [{"logical_operator": "OR", "conditions": [0, 1]}, 2]},
    "default(or,or)": {"conditions": [{"logical_operator": "OR", "conditions": [0, 1]}, {"logical_operator": "OR", "conditions": [2, 3]}]},
    "or(and,and)": {"logical_operator": "OR", "conditions": [{"conditions": [0, 1]}, {"logical_operator": "AND", "conditions": [2, 3]}]},
    "or(and(or,x),y)": {"logical_operator": "OR", "conditions": [
        {"logical_operator": "AND", "conditions": [{"logical_operator": "OR", "conditions": [0, 1]}, 2]}, 3]},
    "or(x)": {"logical_operator": "OR", "conditions": [0]},
    "or(or(x))": {"logical_operator": "OR", "conditions": [{"logical_operator": "OR", "conditions": [0]}]},
}


def build(shape, leaves):
    if isinstance(shape, int):
        return dict(leaves[shape][0])
    return {**shape, "conditions": [build(c, leaves) for c in shape["conditions"]]}


def meaning(shape, leaves, outer=None):
    """the formula, bracketed where the connective differs from the surrounding one"""
    if isinstance(shape, int):
        return leaves[shape][1]
    op = " OR " if shape.get("logical_operator") == "OR" else " AND "
    many = len(shape["conditions"]) > 1
    text = op.join([meaning(c, leaves, op if many else outer) for c in shape["conditions"]])
    return "(" + text + ")" if many and outer and outer != op else text


@contract("C03", functions=GROUP_FN + [S + "parse_where", S + "parse_having"], weight=3, doc=(
    "groups nest: each group stays one operand of the group around it, for where filters on dimensions and having filters on "
    "measures, whatever the values"))
def nested_groups(I):
    p = project()
    shape = SHAPES[I.choice("shape", list(SHAPES))]
    kind = I.choice("kind", ["where", "having"])
    if kind == "where":
        a, b = plain_value(I, "a"), plain_value(I, "b")
        leaves = [
            ({"field": "region", "expression": "equal_to", "value": a}, "orders.region=" + q(a)),
            ({"field": "channel", "expression": "isin", "value": [a, b]}, f"orders.channel IN ({q(a)},{q(b)})"),
            ({"field": "cust", "expression": "is_null"}, "orders.cust IS NULL"),
            ({"field": "channel", "expression": "not_equal_to", "value": b}, "orders.channel<>" + q(b)),
        ]
    else:
        a, b = I.int("x", 2, 99), I.int("y", 2, 99)
        leaves = [
            ({"field": "total", "expression": "greater_than", "value": a}, "SUM(orders.total)>" + str(a)),
            ({"field": "n", "expression": "less_than", "value": b}, "COUNT(orders.id)<" + str(b)),
            ({"field": "n", "expression": "is_not_null"}, "NOT COUNT(orders.id) IS NULL"),
            ({"field": "total", "expression": "equal_to", "value": b}, "SUM(orders.total)=" + str(b)),
        ]
    also = I.bool("other filter as well")
    fs = [build(shape, leaves)] + ([dict(leaves[3][0])] if also else [])
    text = meaning(shape, leaves, " AND " if also else None) + (" AND " + leaves[3][1] if also else "")
    got = conn(p).get_sql_query(metrics=["total"], dimensions=["region"], query_type="SNOWFLAKE", **{kind: fs})
    mid = " WHERE " + text + GROUP if kind == "where" else GROUP + " HAVING " + text
    I.check_eq("sql", got, SELECT + mid + ORDER)


@contract("C03", functions=[F + "validate", F + "group_sql_query", S + "parse_where", S + "parse_having", S + "parse_identifiers_from_dicts"], doc=(
    "a filter that cannot be applied as asked is refused: an unknown logical operator, a group mixing dimensions and measures, "
    "a filter without a field, without a value its expression needs, or on a field that does not exist"))
def refused(I):
    p = project()
    kind = I.choice("kind", ["where", "having"])
    v = plain_value(I, "v")
    name = "region" if kind == "where" else "total"
    ok = {"field": name, "expression": "equal_to", "value": v}
    case = I.choice("case", ["operator", "mix", "mix deep", "no field", "no value", "unknown field", "unknown expression"])
    if case == "operator":
        op = I.str("op")
        I.assume(op not in ("AND", "OR"))
        bad = {"logical_operator": op, "conditions": [ok, dict(ok)]}
    elif case == "mix":
        bad = {"logical_operator": I.choice("op", ["AND", "OR"]), "conditions": [
            {"field": "region", "expression": "equal_to", "value": v}, {"field": "total", "expression": "equal_to", "value": v}]}
    elif case == "mix deep":
        bad = {"conditions": [{"logical_operator": "OR", "conditions": [
            {"field": "region", "expression": "equal_to", "value": v}, {"conditions": [{"field": "total", "expression": "is_null"}]}]}]}
    elif case == "no field":
        bad = {"expression": "equal_to", "value": v}
    elif case == "no value":
        bad = {"field": name, "expression": I.choice("expr", ["equal_to", "isin", "contains", "greater_than"]), "value": None}
    elif case == "unknown field":
        bad = {"field": "nope", "expression": "equal_to", "value": v}
    else:
        e = I.ident("expr")
        I.assume(e not in EXPRESSIONS)
        bad = {"field": name, "expression": e, "value": v}
    fs = [dict(ok), bad] if I.bool("after a good one") else [bad]
    r = I.outcome(lambda: conn(p).get_sql_query(metrics=["total"], dimensions=["region"], query_type="SNOWFLAKE", **{kind: fs}))
    I.check("refused", not r.ok)


EXPRESSIONS = (
    "less_than", "less_or_equal_than", "equal_to", "not_equal_to", "greater_or_equal_than", "greater_than", "like", "contains",
    "does_not_contain", "contains_case_insensitive", "does_not_contain_case_insensitive", "starts_with", "ends_with",
    "does_not_start_with", "does_not_end_with", "starts_with_case_insensitive", "ends_with_case_insensitive",
    "does_not_start_with_case_insensitive", "does_not_end_with_case_insensitive", "is_null", "is_not_null", "isin", "isnotin",
    "boolean_true", "boolean_false", "matches", "converted", "dropped_off",
)


@contract("C03", functions=[R + "_apply_always_filter", R + "_deduplicate_always_where_filters", R + "__init__"], weight=2, doc=(
    "a view's always_filter restricts every query that takes a metric or dimension from the view, once per filter however many "
    "fields come from it, next to the query's own filters, and no query that takes none"))
def always_filter(I):
    a, v = plain_value(I, "a"), plain_value(I, "v")
    many = I.bool("two filters")
    declared = [{"field": I.choice("name", ["region", "orders.region"]), "value": a}] + ([{"field": "channel", "value": "-" + v}] if many else [])
    orders = view_dict("orders", [dim("id", primary_key=True), dim("cust"), dim("region"), dim("channel"), measure("total"), measure("n", "count", "${id}")],
                       identifiers=[{"name": "cust", "type": "foreign", "sql": "${cust}"}], always_filter=declared)
    customers = view_dict("customers", [dim("cid", primary_key=True), dim("tier"), measure("people", "count", "${cid}")],
                          identifiers=[{"name": "cust", "type": "primary", "sql": "${cid}"}])
    p = mk_project([orders, customers])
    own = [{"field": "cust" if I.bool("own on orders") else "tier", "expression": "equal_to", "value": v}] if I.bool("own filter") else []
    use = I.choice("use", ["metric", "dimension", "both", "neither"])
    metrics = {"metric": ["total", "n"], "dimension": ["people"], "both": ["total"], "neither": ["people"]}[use]
    dims = {"metric": ["tier"], "dimension": ["region", "cust"], "both": ["channel"], "neither": ["tier"]}[use]
    where = own[0] if own and I.bool("own filter not in a list") else own
    got = conn(p).get_sql_query(metrics=metrics, dimensions=dims, where=where, query_type="SNOWFLAKE")
    texts = []
    if own:
        texts.append(("orders.cust=" if own[0]["field"] == "cust" else "customers.tier=") + q(v))
    if use != "neither":
        texts.append("orders.region=" + q(a))
        if many:
            texts.append("orders.channel<>" + q(v))
    people = "COUNT(customers.cid)"
    on_orders = use != "neither" or (own and own[0]["field"] == "cust")
    if on_orders:
        people = "NULLIF(COUNT(DISTINCT CASE WHEN  (customers.cid)  IS NOT NULL THEN  customers.cid  ELSE NULL END), 0)"
    joined = on_orders and (use != "both" or (own and own[0]["field"] == "tier"))
    frm = "t_customers customers" if not on_orders else "t_orders orders" + (
        " LEFT JOIN t_customers customers ON orders.cust=customers.cid" if joined else "")
    select, group, order = {
        "metric": ("customers.tier as customers_tier,SUM(orders.total) as orders_total,COUNT(orders.id) as orders_n", "customers.tier", "orders_total"),
        "dimension": (f"orders.region as orders_region,orders.cust as orders_cust,{people} as customers_people", "orders.region,orders.cust", "customers_people"),
        "both": ("orders.channel as orders_channel,SUM(orders.total) as orders_total", "orders.channel", "orders_total"),
        "neither": (f"customers.tier as customers_tier,{people} as customers_people", "customers.tier", "customers_people"),
    }[use]
    I.check_eq("sql", got, f"SELECT {select} FROM {frm}" + (" WHERE " + " AND ".join(texts) if texts else "")
               + f" GROUP BY {group} ORDER BY {order} DESC NULLS LAST;")


@contract("C03", functions=[F + "cte", F + "isin_sql_query", G + "get_query"], weight=2, doc=(
    "a filter with group_by keeps the rows whose group satisfies it: one CTE per such filter, its groups computed over the "
    "filter's own measure, each AND-ed as a whole with every other filter"))
def group_by_filters(I):
    p = project()
    x, y = I.int("x", 2, 99), I.int("y", 2, 99)
    g1 = {"field": "total", "expression": "greater_than", "value": x, "group_by": "orders.cust"}
    g2 = {"field": "n", "expression": "less_than", "value": y, "group_by": "orders.channel"}
    n = I.choice("n", [1, 2])
    groups = [g1, g2][:n]
    v = plain_value(I, "v")
    own = I.choice("own", ["none", "list", "or group", "literal"])
    wh, text = {
        "none": ([], []),
        "list": ([{"field": "region", "expression": "equal_to", "value": v}], ["orders.region=" + q(v)]),
        "or group": ([{"logical_operator": "OR", "conditions": [
            {"field": "region", "expression": "equal_to", "value": v}, {"field": "cust", "expression": "is_null"}]}],
            [f"(orders.region={q(v)} OR orders.cust IS NULL)"]),
        "literal": ("${orders.region} = 'a' or ${orders.cust} is null", ["(orders.region = 'a' or orders.cust is null)"]),
    }[own]
    hv = []
    if own != "literal" and I.bool("group filters among where"):
        wh = wh + groups
    else:
        hv = groups
    plain = I.bool("plain having")
    if plain:
        hv = hv + [{"field": "n", "expression": "is_not_null"}]
    got = conn(p).get_sql_query(metrics=["total"], dimensions=["region"], where=wh, having=hv, query_type="SNOWFLAKE")
    c1 = f"filter_subquery_0 AS (SELECT orders.cust as orders_cust FROM t_orders orders GROUP BY orders.cust HAVING SUM(orders.total)>{x} ORDER BY orders_cust ASC NULLS LAST)"
    c2 = f"filter_subquery_1 AS (SELECT orders.channel as orders_channel FROM t_orders orders GROUP BY orders.channel HAVING COUNT(orders.id)<{y} ORDER BY orders_channel ASC NULLS LAST)"
    text = text + ["orders.cust IN (SELECT DISTINCT orders_cust FROM filter_subquery_0)"]
    if n == 2:
        text = text + ["orders.channel IN (SELECT DISTINCT orders_channel FROM filter_subquery_1)"]
    I.check_eq("sql", got, "WITH " + " ,".join([c1, c2][:n]) + " " + SELECT + " WHERE " + " AND ".join(text) + GROUP
               + (" HAVING NOT COUNT(orders.id) IS NULL" if plain else "") + ORDER)


@contract("C03", functions=[F + "cte", F + "isin_sql_query", G + "get_query", S + "parse_field_names", S + "parse_identifiers_from_dicts"], weight=2, doc=(
    "the group of a filter with group_by may be a field of another view, under its own or its full name: that view is joined to the query, and its access filter holds there as in the groups; "
    "where the view cannot be joined the query is refused"))
def groups_of_other_view(I):
    x, v = I.int("x", 2, 99), plain_value(I, "v")
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("cust"), dim("plan"), measure("s")], identifiers=[{"name": "k", "type": "foreign", "sql": "${cust}"}]),
        view_dict("c_v", [dim("id", primary_key=True), dim("country"), measure("tot")], identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}],
                  access_filters=[{"field": "c_v.country", "user_attribute": "country"}]),
        view_dict("e_v", [dim("id", primary_key=True), dim("zone"), measure("u")]),
    ], models=[model_dict()])
    by = I.choice("group", ["c_v.country", "country", "c_v.Country", "e_v.zone"])
    m = I.choice("measure", ["s", "tot"])
    where = I.choice("where", ["where", "having"])
    dims = I.choice("dimensions", [[], ["plan"]])
    user = {"country": v} if I.bool("access filter") else None
    f = {"field": m if by != "e_v.zone" else "u", "group_by": by, "expression": "greater_than", "value": x}
    out = I.outcome(lambda: conn(p, user).get_sql_query(metrics=["s"], dimensions=dims, query_type="SNOWFLAKE", **{where: [f]}))
    if by == "e_v.zone":
        I.check("refused", not out.ok)
        return
    both = "t_a_v a_v LEFT JOIN t_c_v c_v ON a_v.cust=c_v.id"
    access = f"c_v.country={q(v)}" if user else ""
    inner = (f"SELECT c_v.country as c_v_country FROM {both if m == 's' else 't_c_v c_v'}{' WHERE ' + access if user else ''} GROUP BY c_v.country "
             f"HAVING SUM({'a_v.s' if m == 's' else 'c_v.tot'})>{x} ORDER BY c_v_country ASC NULLS LAST")
    # the access filter of the outer query is a text of its own next to the group filter
    outer = (f"({access}) AND " if user else "") + "c_v.country IN (SELECT DISTINCT c_v_country FROM filter_subquery_0)"
    I.check_eq("sql", out.value, f"WITH filter_subquery_0 AS ({inner}) SELECT {'a_v.plan as a_v_plan,' if dims else ''}SUM(a_v.s) as a_v_s FROM {both} WHERE {outer}"
               + (" GROUP BY a_v.plan" if dims else "") + " ORDER BY a_v_s DESC NULLS LAST;")


@contract("C03", functions=[R + "_clean_conditional_filter_syntax"], doc="a conditional filter stands for the filter it wraps, at the top level and inside groups; a single filter may be given without a list")
def wrapped(I):
    p = project()
    v = plain_value(I, "v")
    f = {"field": "region", "expression": "equal_to", "value": v}
    g = {"field": "cust", "expression": "is_null"}
    case = I.choice("case", ["top", "in group", "dict"])
    w = {"top": [{"conditional_filter_logic": f}, g], "in group": [{"logical_operator": "OR", "conditions": [g, {"conditional_filter_logic": f}]}], "dict": f}[case]
    text = {"top": f"orders.region={q(v)} AND orders.cust IS NULL", "in group": f"orders.cust IS NULL OR orders.region={q(v)}", "dict": "orders.region=" + q(v)}[case]
    got = conn(p).get_sql_query(metrics=["total"], dimensions=["region"], where=w, query_type="SNOWFLAKE")
    I.check_eq("sql", got, SELECT + " WHERE " + text + GROUP + ORDER)


@contract("C03", functions=FN + [F + "group_sql_query"], doc=(
    "a filter may compare a field with another field, given by its full name: it then is about that field's own SQL, a metric's being the aggregate the query selects for it, fanned out or not"))
def value_of_field(I):
    from contracts.c05_aggregates import spec_count, spec_sum

    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("cust"), dim("plan"), dim("x", type="number"), measure("s"), measure("n", "count", "${TABLE}.n")], identifiers=[{"name": "k", "type": "foreign", "sql": "${cust}"}]),
        view_dict("c_v", [dim("id", primary_key=True), dim("country"), measure("tot"), measure("num", "count", "${TABLE}.num")], identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}]),
    ], models=[model_dict()])
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "POSTGRES"])
    sqls = {"a_v.s": "SUM(a_v.s)", "a_v.n": "COUNT(a_v.n)", "c_v.tot": spec_sum(wh, "c_v.tot", "c_v.id"), "c_v.num": spec_count("c_v.num", "c_v.id")}
    f, v = I.choice("measures", [("a_v.s", "c_v.tot"), ("c_v.tot", "a_v.s"), ("a_v.n", "c_v.num"), ("c_v.num", "a_v.n")])
    g, w = I.choice("dimensions", [("a_v.plan", "c_v.country"), ("c_v.country", "a_v.plan")])
    t = plain_value(I, "value")
    how = I.choice("written", ["list", "group"])
    having = [{"field": f, "expression": "greater_than", "value": v}, {"field": "a_v.s", "expression": "is_not_null"}]
    where = [{"field": g, "expression": "equal_to", "value": w}, {"field": "a_v.plan", "expression": "not_equal_to", "value": t}]
    if how == "group":
        having, where = [{"logical_operator": "OR", "conditions": having}], [{"logical_operator": "OR", "conditions": where}]
    j = " AND " if how == "list" else " OR "
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["a_v.s", "c_v.tot"], dimensions=[], where=where, having=having, query_type=wh))
    I.check_eq("sql", got.value, f"SELECT {sqls['a_v.s']} as a_v_s,{sqls['c_v.tot']} as c_v_tot FROM t_a_v a_v LEFT JOIN t_c_v c_v ON a_v.cust=c_v.id WHERE {g}={w}{j}a_v.plan<>{q(t)}"
               f" HAVING {sqls[f]}>{sqls[v]}{j}NOT {sqls['a_v.s']} IS NULL" + (" ORDER BY a_v_s DESC NULLS LAST;" if wh == "SNOWFLAKE" else ";"))
