from contracts.lib import WAREHOUSES, conn, dim, measure, mk_project, plain_value, q, rendered, view_dict
from pyvc.api import contract

G = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."
S = "metrics_layer.core.sql.single_query_resolve:SingleSQLQueryResolver."
FN = [S + "parse_input", G + "get_query", G + "parse_definition", G + "_get_no_group_by_select_columns", G + "_sql_from_field_no_group_by", G + "_deduplicate_select"]
NO_SEMICOLON = {"DRUID", "TRINO"}


def column(I, name):
    a, b = I.str(name + " before", exclude="${}\n%"), I.str(name + " after", exclude="${}\n%")
    return lambda table: a + "(" + table + ".c" + b + ")"


def project(s, n):
    return mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("k"), dim("d"), measure("s", "sum", s("${TABLE}")), {"name": "cnt", "field_type": "measure", "type": "count"},
                          measure("hi", "max", n("${TABLE}")), measure("ratio", "number", "${s} / ${cnt}"), measure("deep", "number", "${ratio} + ${hi}"),
                          measure("only", "sum", "${TABLE}.o", filters=[{"field": "d", "value": "x"}])],
                  identifiers=[{"name": "k", "type": "foreign", "sql": "${k}"}]),
        view_dict("b_v", [dim("bid", primary_key=True), dim("k"), dim("e"), measure("t")], identifiers=[{"name": "k", "type": "primary", "sql": "${k}"}]),
    ])


@contract("C23", functions=FN, weight=2, doc=(
    "a query whose dimensions include the primary key of its first measure's view returns that view's rows: no grouping, and every measure "
    "as its own row-level expression, number measures as the expressions of the measures they are built from, each column once; the "
    "filters and the limit still apply"))
def rows(I):
    wh = I.choice("warehouse", WAREHOUSES)
    s, n = column(I, "s"), column(I, "n")
    p = project(s, n)
    S_, N_ = rendered(s("a_v")) + " as a_v_s", rendered(n("a_v")) + " as a_v_hi"
    C_ = "a_v.id as a_v_cnt"
    dims = I.choice("dimensions", [["a_v.id"], ["d", "id"]])
    ms, cols = I.choice("metrics", [
        (["s"], [S_]), (["cnt", "hi"], [C_, N_]), (["ratio"], [C_, S_]), (["deep"], [C_, N_, S_]), (["s", "deep"], [S_, C_, N_]),
        (["only"], ["case when a_v.d='x' then a_v.o end as a_v_only"]),
    ])
    v = plain_value(I, "v")
    filtered = len(dims) == 2 or I.bool("filtered")
    limit = I.int("limit", 1, None) if filtered else None
    where = [{"field": "d", "expression": "not_equal_to", "value": v}] if filtered else []
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=list(ms), dimensions=list(dims), where=where, limit=limit, query_type=wh))
    d = [{"id": "a_v.id as a_v_id", "a_v.id": "a_v.id as a_v_id", "d": "a_v.d as a_v_d"}[x] for x in dims]
    top = "TOP (" + str(limit) + ") " if limit is not None and wh in ("SQL_SERVER", "AZURE_SYNAPSE") else ""
    sql = "SELECT " + top + ",".join(d + cols) + " FROM t_a_v a_v"
    if filtered:
        sql += " WHERE a_v.d<>" + q(v)
    if limit is not None and not top:
        sql += " LIMIT " + str(limit)
    I.check_eq("sql", got.value, sql + ("" if wh in NO_SEMICOLON else ";"))


@contract("C23", functions=FN, doc=(
    "such a query cannot be ordered or filtered on aggregates: both are refused; grouping stays whenever the key is another view's, is only "
    "filtered on, no measure is asked for, or grouping is forced"))
def otherwise(I):
    p = project(lambda t: t + ".s", lambda t: t + ".n")
    v = I.int("v", 2, None)
    case = I.choice("case", ["having", "order", "order text", "other key", "other view first", "filter only", "no metric", "forced"])
    kw = dict(metrics=["s"], dimensions=["id"], query_type="SNOWFLAKE")
    if case == "having":
        kw["having"] = [{"field": "s", "expression": "greater_than", "value": v}]
    if case == "order":
        kw["order_by"] = [{"field": "s"}]
    if case == "order text":
        kw["order_by"] = "s desc"
    J = " LEFT JOIN t_b_v b_v ON a_v.k=b_v.k"
    SUMT = "COALESCE(CAST((SUM(DISTINCT (CAST(FLOOR(COALESCE(b_v.t, 0) * (1000000 * 1.0)) AS DECIMAL(38,0))) + (TO_NUMBER(MD5(b_v.bid), 'XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX') % 1.0e27)::NUMERIC(38, 0)) - SUM(DISTINCT (TO_NUMBER(MD5(b_v.bid), 'XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX') % 1.0e27)::NUMERIC(38, 0))) AS DOUBLE PRECISION) / CAST((1000000*1.0) AS DOUBLE PRECISION), 0)"
    want = {
        "other key": "SELECT b_v.bid as b_v_bid,SUM(a_v.s) as a_v_s FROM t_a_v a_v" + J + " GROUP BY b_v.bid ORDER BY a_v_s DESC NULLS LAST;",
        "other view first": "SELECT a_v.id as a_v_id," + SUMT + " as b_v_t FROM t_a_v a_v" + J + " GROUP BY a_v.id ORDER BY b_v_t DESC NULLS LAST;",
        "filter only": "SELECT SUM(a_v.s) as a_v_s FROM t_a_v a_v WHERE a_v.id=" + str(v) + " ORDER BY a_v_s DESC NULLS LAST;",
        "no metric": "SELECT a_v.id as a_v_id FROM t_a_v a_v GROUP BY a_v.id ORDER BY a_v_id ASC NULLS LAST;",
        "forced": "SELECT a_v.id as a_v_id,SUM(a_v.s) as a_v_s FROM t_a_v a_v GROUP BY a_v.id ORDER BY a_v_s DESC NULLS LAST;",
    }.get(case)
    if case == "other key":
        kw["dimensions"] = ["b_v.bid"]
    if case == "other view first":
        kw["metrics"] = ["t"]
    if case == "filter only":
        kw["dimensions"], kw["where"] = [], [{"field": "id", "expression": "equal_to", "value": v}]
    if case == "no metric":
        kw["metrics"] = []
    if case == "forced":
        kw["force_group_by"] = True
    got = I.outcome(lambda: conn(p).get_sql_query(**kw))
    if want is None:
        I.check("refused", not got.ok and got.exc_type == "ArgumentError")
    else:
        I.check_eq("sql", got.value, want)
