from contracts.lib import WAREHOUSES, conn, dim, measure, mk_project, q, view_dict
from pyvc.api import contract

G = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."
S = "metrics_layer.core.sql.single_query_resolve:SingleSQLQueryResolver."
DI = "metrics_layer.core.sql.query_dialect:QueryBuilderWithOrderByNullsOption."
FN = [G + "get_query", G + "parse_definition", G + "_parse_order_by_object", DI + "orderby", DI + "_orderby_sql", S + "get_query"]

NO_NULLS = {"DRUID", "SQL_SERVER", "AZURE_SYNAPSE"}
TOP = {"SQL_SERVER", "AZURE_SYNAPSE"}
DEFAULTS = {"SNOWFLAKE", "REDSHIFT", "DUCK_DB"}
NO_SEMICOLON = {"DRUID", "TRINO"}


def project(**kw):
    return mk_project([view_dict("orders", [
        dim("id", primary_key=True), dim("region"), dim("Description"), dim("cascade"),
        measure("total"), measure("last_desc", "max"), measure("asc_n", "count", "${id}"),
    ], **kw)])


SQL = {
    "region": "orders.region", "description": "orders.Description", "cascade": "orders.cascade",
    "total": "SUM(orders.total)", "last_desc": "MAX(orders.last_desc)", "asc_n": "COUNT(orders.id)",
}


def statement(wh, dims, ms, order=(), limit=None, where=""):
    """what the request means: order is [(field, 'asc' or 'desc')]"""
    cols = dims + ms
    top = f"TOP ({limit}) " if limit is not None and wh in TOP else ""
    sql = "SELECT " + top + ",".join([f"{SQL[c]} as orders_{c}" for c in cols]) + " FROM t_orders orders" + where
    if dims:
        sql += " GROUP BY " + ",".join([f"orders_{c}" if wh == "BIGQUERY" else SQL[c] for c in dims])
    if not order and wh in DEFAULTS:
        order = [((ms + dims)[0], "desc" if ms else "asc")]
    if order:
        nulls = "" if wh in NO_NULLS else " NULLS LAST"
        sql += " ORDER BY " + ",".join([f"orders_{c} {d.upper()}{nulls}" for c, d in order])
    if limit is not None and wh not in TOP:
        sql += " LIMIT " + str(limit)
    return sql + ("" if wh in NO_SEMICOLON else ";")


@contract("C24", functions=FN, weight=3, doc=(
    "a query ends as asked on every warehouse: ordered by each requested field once, in the requested order and direction (ascending "
    "when none is given), by the first measure descending or else the first dimension ascending when no order is asked and the "
    "warehouse has a default, limited to the requested number of rows, and terminated by a semicolon where the warehouse takes one"))
def order_and_limit(I):
    wh = I.choice("warehouse", WAREHOUSES)
    dims, ms = I.choice("columns", [(["region", "description"], ["total", "asc_n"]), (["region"], []), ([], ["last_desc"])])
    many = I.choice("fields", ["none", "first", "all", "reversed"] if len(dims + ms) > 1 else ["none", "all"])
    way = I.choice("sort", ["default", "asc", "desc", "DESC"]) if many != "none" else "default"
    cols = {"none": [], "first": (dims + ms)[:1], "all": ms + dims, "reversed": dims[::-1] + ms[::-1]}[many]
    ob, order = [], []
    for c in cols:
        o = {"field": c if way != "desc" else "orders." + c}
        # the second of several fields is ordered the other way
        s = way if len(order) != 1 else {"default": "desc", "asc": "desc", "desc": "default", "DESC": "asc"}[way]
        if s != "default":
            o["sort"] = s
        ob.append(o)
        order.append((c, "desc" if s.lower() == "desc" else "asc"))
    limit = I.int("limit", 0, None) if many in ("none", "all") and I.bool("limited") else None
    got = conn(project()).get_sql_query(metrics=list(ms), dimensions=list(dims), order_by=ob, limit=limit, query_type=wh)
    I.check_eq("sql", got, statement(wh, dims, ms, order, limit))


@contract("C24", functions=FN, weight=2, doc=(
    "fields of the same name in two joined views are ordered by independently: each in its own place and its own direction"))
def same_name(I):
    wh = I.choice("warehouse", WAREHOUSES)
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("kind"), dim("fk"), measure("total")], identifiers=[{"name": "k", "type": "foreign", "sql": "${fk}"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("kind"), measure("n", "max")], identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}]),
    ])
    fields = I.choice("order_by", [["a_v.kind", "b_v.kind"], ["b_v.kind", "a_v.kind"], ["b_v.kind", "a_v.total", "a_v.kind"]])
    ways = [I.choice("way" + str(i), ["asc", "desc"]) for i in range(len(fields))]
    got = conn(p).get_sql_query(metrics=["a_v.total"], dimensions=["a_v.kind", "b_v.kind"],
                                order_by=[{"field": f, "sort": w} for f, w in zip(fields, ways)], query_type=wh)
    nulls = "" if wh in NO_NULLS else " NULLS LAST"
    by = ",".join([f.replace(".", "_") + " " + w.upper() + nulls for f, w in zip(fields, ways)])
    keys = "a_v_kind,b_v_kind" if wh == "BIGQUERY" else "a_v.kind,b_v.kind"
    I.check_eq("sql", got, "SELECT a_v.kind as a_v_kind,b_v.kind as b_v_kind,SUM(a_v.total) as a_v_total FROM t_a_v a_v LEFT JOIN t_b_v b_v ON a_v.fk=b_v.id"
               + f" GROUP BY {keys} ORDER BY {by}" + ("" if wh in NO_SEMICOLON else ";"))


TEXTS = {
    "total": [("total", "asc")],
    "total desc": [("total", "desc")],
    "total DESC NULLS LAST": [("total", "desc")],
    " total  asc ": [("total", "asc")],
    "orders.total Desc": [("total", "desc")],
    "description": [("description", "asc")],
    "description desc": [("description", "desc")],
    "description asc": [("description", "asc")],
    "cascade": [("cascade", "asc")],
    "cascade desc, total": [("cascade", "desc"), ("total", "asc")],
    "cascade, last_desc": [("cascade", "asc"), ("last_desc", "asc")],
    "last_desc asc,asc_n desc": [("last_desc", "asc"), ("asc_n", "desc")],
    "asc_n": [("asc_n", "asc")],
    "last_desc desc nulls last, orders.description, asc_n asc": [("last_desc", "desc"), ("description", "asc"), ("asc_n", "asc")],
}


@contract("C24", functions=FN + [S + "parse_field_names"], kind="exhaustive", doc=(
    "an order given as text means its comma-separated fields, each with its trailing direction, whatever the fields are called"))
def order_text(I):
    wh = I.choice("warehouse", WAREHOUSES)
    text = I.choice("order_by", list(TEXTS))
    dims, ms = ["region", "description", "cascade"], ["total", "last_desc", "asc_n"]
    got = conn(project()).get_sql_query(metrics=list(ms), dimensions=list(dims), order_by=text, query_type=wh)
    I.check_eq("sql", got, statement(wh, dims, ms, TEXTS[text]))


@contract("C24", functions=FN, doc=(
    "the limit and order belong to the outermost statement only, and one semicolon ends it, also when a filter brings its own sub-query"))
def with_subquery(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "POSTGRES", "TRINO", "DRUID", "BIGQUERY"])
    n, v = I.int("limit", 0, None), I.int("v", 2, None)
    flt = {"field": "total", "expression": "greater_than", "value": v, "group_by": "region"}
    got = conn(project()).get_sql_query(metrics=["total"], dimensions=["region"], where=[], having=[flt],
                                        order_by=[{"field": "region"}], limit=n, query_type=wh)
    inner = ("SELECT orders.region as orders_region FROM t_orders orders GROUP BY " + ("orders_region" if wh == "BIGQUERY" else "orders.region")
             + " HAVING SUM(orders.total)>" + str(v) + (" ORDER BY orders_region ASC NULLS LAST" if wh in DEFAULTS else ""))
    want = statement(wh, ["region"], ["total"], [("region", "asc")], n, " WHERE orders.region IN (SELECT DISTINCT orders_region FROM filter_subquery_0)")
    I.check_eq("sql", got, "WITH filter_subquery_0 AS (" + inner + ") " + want)


@contract("C24", functions=[S + "parse_input", S + "get_field_with_error_handling"], doc="ordering by a field that does not exist is refused, never ignored")
def unknown_order(I):
    n = I.ident("name")
    I.assume(n.lower() not in tuple(SQL) and n.lower() not in ("id", "t_orders", "orders", "count"))
    o = I.outcome(lambda: conn(project()).get_sql_query(metrics=["total"], dimensions=[], order_by=[{"field": n}], query_type="SNOWFLAKE"))
    I.check("refused", not o.ok)
