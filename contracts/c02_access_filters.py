from pyvc.api import contract

from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, q, view_dict

D = "metrics_layer.core.sql.query_design:MetricsLayerDesign."
G = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."
FN = [D + "get_access_filter", D + "required_views", G + "parse_definition", G + "get_query"]


def orders(filters, **kw):
    return view_dict("orders", [
        dim("id", primary_key=True), dim("cust"), dim("region"), dim("channel"), measure("total"),
    ], identifiers=[{"name": "cust", "type": "foreign", "sql": "${cust}"}], access_filters=filters, **kw)


def customers(filters, **kw):
    return view_dict("customers", [dim("cid", primary_key=True), dim("country"), dim("tier"), measure("n", "count", "${cid}")],
                     identifiers=[{"name": "cust", "type": "primary", "sql": "${cid}"}], access_filters=filters, **kw)


REGION = {"field": "orders.region", "user_attribute": "r"}
CHANNEL = {"field": "orders.channel", "user_attribute": "c"}
COUNTRY = {"field": "customers.country", "user_attribute": "k"}


def where(parts):
    parts = [x for x in parts if x]
    return " WHERE " + " AND ".join(parts) if parts else ""


@contract("C02", functions=FN, weight=3, doc=(
    "every query that reads a view is restricted by each of the view's access filters the user has a value for, AND-ed "
    "with whatever the query filters itself; without a user, or without a value for the attribute, nothing is added"))
def one_view(I):
    p = mk_project([orders(I.choice("declared", [[REGION], [REGION, CHANNEL]]))])
    who = I.choice("user", ["none", "other", "region", "both"])
    r, c = plain_value(I, "r"), plain_value(I, "c")
    user = {"none": None, "other": {"x": r}, "region": {"r": r}, "both": {"c": c, "r": r}}[who]
    restrict = []
    if who in ("region", "both"):
        restrict.append("orders.region=" + q(r))
    if who == "both" and len(p._views[0]["access_filters"]) == 2:
        restrict.append("orders.channel=" + q(c))
    if restrict:
        restrict = [" and ".join(restrict)]
    v = plain_value(I, "v")
    own, text = I.choice("where", ["none", "list", "group"]), []
    wh = []
    if own == "list":
        wh = [{"field": "channel", "expression": "not_equal_to", "value": v}]
        text = ["orders.channel<>" + q(v)]
    elif own == "group":
        wh = [{"logical_operator": "OR", "conditions": [{"field": "channel", "expression": "equal_to", "value": v},
                                                          {"field": "id", "expression": "is_null"}]}]
        text = [f"orders.channel={q(v)} OR orders.id IS NULL"]
        if restrict:
            text = ["(" + text[0] + ")"]
    got = conn(p, user).get_sql_query(metrics=["total"], dimensions=["region"], where=wh, query_type="SNOWFLAKE")
    I.check_eq("sql", got, "SELECT orders.region as orders_region,SUM(orders.total) as orders_total FROM t_orders orders"
               + where(restrict + text) + " GROUP BY orders.region ORDER BY orders_total DESC NULLS LAST;")


@contract("C02", functions=FN, doc=(
    "each of several filters restricts, whatever the others do: two attributes may restrict the same column, and one attribute two columns"))
def same_column(I):
    declared = [("orders.region", "r"), ("orders.region", "h"), ("orders.channel", "h"), ("orders.region", "c")]
    some = [d for i, d in enumerate(declared) if I.bool("declared" + str(i))]
    p = mk_project([orders([{"field": f, "user_attribute": a} for f, a in some])])
    user = {a: plain_value(I, a) for a in ("r", "h", "c") if I.bool("has " + a)}
    restrict = " and ".join([f + "=" + q(user[a]) for f, a in some if a in user])
    got = conn(p, user).get_sql_query(metrics=["total"], dimensions=[], query_type="SNOWFLAKE")
    I.check_eq("sql", got, "SELECT SUM(orders.total) as orders_total FROM t_orders orders" + where([restrict]) + " ORDER BY orders_total DESC NULLS LAST;")


@contract("C02", functions=FN, doc=(
    "a filter given as SQL text cannot widen the access filter, whatever connectives the text has at its top level"))
def literal_where(I):
    p = mk_project([orders([REGION])])
    r = plain_value(I, "r")
    text, want = I.choice("where", [
        ("${orders.channel} = 'a'", "orders.channel = 'a'"),
        ("${orders.channel} = 'a' or ${orders.channel} = 'b'", "orders.channel = 'a' or orders.channel = 'b'"),
        ("${orders.channel} = 'a' OR 1=1", "orders.channel = 'a' OR 1=1"),
        ("1=1 or not ${orders.channel} = 'a' and ${orders.id} is null", "1=1 or not orders.channel = 'a' and orders.id is null"),
    ])
    got = conn(p, {"r": r}).get_sql_query(metrics=["total"], dimensions=["region"], where=text, query_type="SNOWFLAKE")
    I.check_eq("sql", got, "SELECT orders.region as orders_region,SUM(orders.total) as orders_total FROM t_orders orders"
               f" WHERE orders.region={q(r)} AND ({want}) GROUP BY orders.region ORDER BY orders_total DESC NULLS LAST;")


@contract("C02", functions=FN, weight=2, doc=(
    "the access filters of every view the requested fields belong to apply, wherever the field appears (metric, dimension, "
    "where, having, order by), also when the restricting column lives in a view the query would not join otherwise"))
def joined_views(I):
    placed = I.choice("declared", ["orders", "orders on customers", "customers", "both"])
    p = mk_project([
        orders({"orders": [REGION], "orders on customers": [COUNTRY], "customers": [], "both": [REGION]}[placed]),
        customers([COUNTRY] if placed in ("customers", "both") else []),
    ])
    use = I.choice("use", ["metric", "dimension", "where", "having", "order_by"])
    r, k = plain_value(I, "r"), plain_value(I, "k")
    kw = {"metrics": ["total"], "dimensions": [], "where": [], "having": [], "order_by": []}
    own, having, order = [], "", " ORDER BY orders_total DESC NULLS LAST"
    select, group = "SUM(orders.total) as orders_total", ""
    if use == "dimension":
        kw["dimensions"] = ["customers.tier"]
        select, group = "customers.tier as customers_tier," + select, " GROUP BY customers.tier"
    elif use == "where":
        kw["where"] = [{"field": "customers.tier", "expression": "equal_to", "value": "x"}]
        own = ["customers.tier='x'"]
    elif use == "having":
        kw["having"] = [{"field": "customers.n", "expression": "greater_than", "value": 3}]
        having = " HAVING NULLIF(COUNT(DISTINCT CASE WHEN  (customers.cid)  IS NOT NULL THEN  customers.cid  ELSE NULL END), 0)>3"
    elif use == "order_by":
        kw["order_by"] = [{"field": "customers.n"}]
        order = " ORDER BY customers_n ASC NULLS LAST"
    touches = use != "metric"
    restrict = []
    if placed in ("orders", "both"):
        restrict.append("orders.region=" + q(r))
    if placed == "orders on customers" or (touches and placed in ("customers", "both")):
        restrict.append("customers.country=" + q(k))
    joined = touches or placed == "orders on customers"
    got = conn(p, {"r": r, "k": k}).get_sql_query(query_type="SNOWFLAKE", **kw)
    frm = "t_orders orders" + (" LEFT JOIN t_customers customers ON orders.cust=customers.cid" if joined else "")

    def sql(res):
        return f"SELECT {select} FROM {frm}" + where([" and ".join(res)] + own) + group + having + order + ";"

    # the order in which two views' filters are AND-ed is not fixed
    if len(restrict) == 2 and "WHERE customers" in got:
        restrict = restrict[::-1]
    I.check_eq("sql", got, sql(restrict))


@contract("C02", functions=FN, doc="a comma-separated user attribute restricts to membership of exactly its values; a leading '-' excludes")
def many_values(I):
    p = mk_project([orders([REGION])])
    kind = I.choice("kind", ["in", "not", "not in"])
    a, b = plain_value(I, "a"), plain_value(I, "b")
    attr = {"in": a + ", " + b, "not": "-" + a, "not in": "-" + a + ", -" + b}[kind]
    want = {"in": f" IN ({q(a)},{q(b)})", "not": "<>" + q(a), "not in": f" NOT IN ({q(a)},{q(b)})"}[kind]
    got = conn(p, {"r": attr}).get_sql_query(metrics=["total"], dimensions=[], query_type="SNOWFLAKE")
    I.check_eq("sql", got, "SELECT SUM(orders.total) as orders_total FROM t_orders orders"
               f" WHERE orders.region{want} ORDER BY orders_total DESC NULLS LAST;")


@contract("C02", functions=FN + [
    "metrics_layer.core.sql.query_funnel:FunnelQuery._subquery", "metrics_layer.core.sql.query_cumulative_metric:CumulativeMetricsQuery._subquery",
    "metrics_layer.core.sql.merged_query_resolve:MergedSQLQueryResolver.get_query", "metrics_layer.core.sql.query_filter:MetricsLayerFilter.cte"], weight=3, doc=(
    "the queries inside a query are restricted just the same: the rows a cumulative metric accumulates and those of the metrics beside it, the events of a funnel, each "
    "side of merged results, the groups of a condition on groups, and the latest dates of a non-additive measure"))
def queries_inside(I):
    from contracts.c14_merged import dims as merged_dims, merged, parts as two_sides
    from contracts.c16_cumulative import CUM, N, Shop
    from contracts.c17_funnel import Log, is_

    kind = I.choice("query", ["cumulative", "funnel", "merged", "groups", "non additive"])
    v = plain_value(I, "user value")
    user = I.choice("user", [{"where": v}, {}])
    view = {"access_filters": [{"field": "a_v.region", "user_attribute": "where"}]}
    only = lambda sql: " WHERE " + sql + "=" + q(v) if user else ""
    if kind == "cumulative":
        x = Shop(I, "SNOWFLAKE", "month", view=view)
        got = I.outcome(lambda: conn(x.project, user).get_sql_query(metrics=["cum", "n"], dimensions=["made_month"], query_type="SNOWFLAKE"))
        rows = only(x.region)
        parts = [x.running("cum", ["month"], rows=rows), x.plain(["month"], [("COUNT(" + x.arg + ")", "a_v_n")], rows)]
        want = x.outer(parts, ["month"], ["base", "aggregated_a_v_cum"], [CUM, N])
    elif kind == "funnel":
        x = Log(I, "SNOWFLAKE", view=view)
        got = I.outcome(lambda: conn(x.project, user).get_sql_query(
            metrics=["a_v.n"], dimensions=[], query_type="SNOWFLAKE", funnel={"steps": [[is_("kind", "x")], [is_("kind", "y")]], "within": {"value": 2, "unit": "hours"}}))
        want = x.query(["n"], [], ["base.a_v_kind='x'", "base.a_v_kind='y'"], 2, "hour", ["kind"], where=only(x.sql["region"]))
    elif kind == "merged":
        ps = two_sides(I)
        sides = I.choice("restricted", [[0], [1], [0, 1]])
        views = [view_dict(x.view, x.fields, default_date=x.day, **({"access_filters": [{"field": x.view + "." + x.place, "user_attribute": "where"}]} if i in sides else {})) for i, x in enumerate(ps)]
        p = mk_project(views, models=[model_dict(mappings={"place": {"fields": [x.view + "." + x.place for x in ps], "group_by": []}})])
        got = I.outcome(lambda: conn(p, user).get_sql_query(metrics=["s", "t"], dimensions=["a_v.made_month"], query_type="SNOWFLAKE"))
        want = merged(ps, merged_dims(ps, ["month"]), [["sum"], ["sum"]], "SNOWFLAKE", wheres=[only(x.col) if i in sides else "" for i, x in enumerate(ps)])
    else:
        fields = [dim("id", primary_key=True), dim("region"), dim("kind"), dim("cust"), {"name": "made", "field_type": "dimension_group", "type": "time", "timeframes": ["raw"], "sql": "${TABLE}.made"},
                  measure("s"), measure("n", "count"), measure("last", non_additive_dimension={"name": "made_raw", "window_choice": "max"})]
        p = mk_project([view_dict("a_v", fields, **view)])
        w = [{"group_by": "cust", "field": "n", "expression": "greater_than", "value": 3}] if kind == "groups" else []
        got = I.outcome(lambda: conn(p, user).get_sql_query(metrics=["s" if w else "last"], dimensions=["kind"], where=w, query_type="POSTGRES"))
        rows = only("a_v.region")
        if w:
            outer = " WHERE (a_v.region=" + q(v) + ") AND " if user else " WHERE "
            want = (
                "WITH filter_subquery_0 AS (SELECT a_v.cust as a_v_cust FROM t_a_v a_v" + rows + " GROUP BY a_v.cust HAVING COUNT(a_v.n)>3) SELECT a_v.kind as a_v_kind,SUM(a_v.s) as a_v_s"
                " FROM t_a_v a_v" + outer + "a_v.cust IN (SELECT DISTINCT a_v_cust FROM filter_subquery_0) GROUP BY a_v.kind;")
        else:
            want = (
                "WITH cte_last_made_raw AS (SELECT a_v.kind as a_v_kind,MAX(a_v.made) as a_v_max_made_raw FROM t_a_v a_v" + rows + " GROUP BY a_v.kind) SELECT a_v.kind as a_v_kind,"
                "SUM(case when a_v.made=cte_last_made_raw.a_v_max_made_raw then a_v.last else 0 end) as a_v_last FROM t_a_v a_v LEFT JOIN cte_last_made_raw ON a_v.kind=cte_last_made_raw.a_v_kind"
                + rows + " GROUP BY a_v.kind;")
    I.check_eq("sql", got.value, want)


@contract("C02", functions=FN, doc=(
    "of a query that uses many fields, each view is restricted wherever among the fields its own come, and in whichever of metrics, dimensions, filters and ordering"))
def many_fields(I):
    names = ["a_v", "b_v", "c_v"]
    r = plain_value(I, "r")
    last = I.choice("restricted", names)
    views = [view_dict(n, [dim("id", primary_key=True)] + [dim("d" + str(i)) for i in range(6)] + [measure("s" + n[0])] + ([dim("k")] if n != "a_v" else [dim("kb"), dim("kc")]),
                       identifiers=[{"name": "b", "type": "foreign", "sql": "${kb}"}, {"name": "c", "type": "foreign", "sql": "${kc}"}] if n == "a_v" else [{"name": n[0], "type": "primary", "sql": "${k}"}],
                       **({"access_filters": [{"field": n + ".d0", "user_attribute": "r"}]} if n == last else {})) for n in names]
    p = mk_project(views)
    order = I.choice("order", [names, names[::-1], ["b_v", "a_v", "c_v"]])
    dims = [n + ".d" + str(i) for n in order for i in range(3)]
    wh = [{"field": n + ".d" + str(i), "expression": "is_not_null"} for n in order for i in (3, 4)]
    got = conn(p, {"r": r}).get_sql_query(metrics=["a_v.sa"], dimensions=dims, where=wh, query_type="SNOWFLAKE")
    joins = [" LEFT JOIN t_" + n + " " + n + " ON a_v.k" + n[0] + "=" + n + ".k" for n in names[1:]]
    frm = "t_a_v a_v" + "".join(joins if joins[0] + joins[1] in got else joins[::-1])
    I.check_eq("sql", got, "SELECT " + ",".join([d + " as " + d.replace(".", "_") for d in dims]) + ",SUM(a_v.sa) as a_v_sa FROM " + frm
               + where([last + ".d0=" + q(r)] + ["NOT " + w["field"] + " IS NULL" for w in wh]) + " GROUP BY " + ",".join(dims) + " ORDER BY a_v_sa DESC NULLS LAST;")
