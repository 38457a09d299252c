from contracts.c05_aggregates import spec_count, spec_sum
from contracts.c11_durations import UNITS, spec_duration
from contracts.c10_time import spec_time
from contracts.lib import SYMMETRIC, WAREHOUSES, conn, dim, measure, mk_project, plain_value, q, rendered, view_dict
from pyvc.api import contract

K = "metrics_layer.core.sql.query_funnel:FunnelQuery."
FN = [K + x for x in (
    "get_query", "get_select_and_group_by", "_get_base_select", "_get_step_select", "get_step_1_cte", "get_step_n_cte", "get_funnel_base",
    "_get_event_condition_fields", "_get_fields_from_condition", "get_event_date", "_cte", "where_for_event", "_within_where", "_subquery",
    "_enrich_query_design", "join_graphs_for_query")]
NO_SEMICOLON = {"DRUID", "TRINO"}


def column(I, name):
    a, b = I.str(name + " before", exclude="${}\n%"), I.str(name + " after", exclude="${}\n%")
    return lambda table: a + "(" + table + ".c" + b + ")"


def date(name, sql):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw", "date", "week"], "sql": sql}


class Log:
    """a view of events, each of a kind, of a customer, at a time; and what its columns mean"""

    def __init__(self, I, wh, user=None, view=None):
        self.wh = wh
        c = {n: column(I, n) for n in ("id", "kind", "region", "cust", "made", "arg")}
        fields = [
            dim("id", c["id"]("${TABLE}"), primary_key=True), dim("kind", c["kind"]("${TABLE}")), dim("region", c["region"]("${TABLE}")),
            dim("cust", c["cust"]("${TABLE}"), tags=["customer"]), date("made", c["made"]("${TABLE}")), date("paid", "${TABLE}.paid"),
            measure("s", "sum", c["arg"]("${TABLE}")), measure("top", "max", c["arg"]("${TABLE}")), measure("n", "count", c["arg"]("${TABLE}")),
        ]
        self.project = mk_project([view_dict("a_v", fields, default_date="made", **(view or {}))])
        self.sql = {n: rendered(f("a_v")) for n, f in c.items()}
        self.alias = {"id": "a_v_id", "kind": "a_v_kind", "region": "a_v_region", "cust": "a_v_cust", "made_raw": "a_v_made_raw", "made_week": "a_v_made_week", "paid_raw": "a_v_paid_raw"}
        self.sql["made_raw"], self.sql["paid_raw"] = self.sql["made"], "a_v.paid"
        self.sql["made_week"] = spec_time(wh, "week", self.sql["made"], "monday", 0, "TIMESTAMP")

    def total(self, m):
        """a metric over the events of a step, each event once"""
        c = "a_v_" + m
        if m == "top":
            return "MAX(" + c + ")"
        if self.wh not in SYMMETRIC:
            return {"s": "SUM", "n": "COUNT"}[m] + "(" + c + ")"
        return {"s": lambda: spec_sum(self.wh, c, "a_v_id"), "n": lambda: spec_count(c, "a_v_id")}[m]()

    def query(self, metrics, dims, steps, value, unit, used, day="made_raw", where="", outer="", asked=None):
        """steps: the conditions; used: the dimensions the conditions use; asked: the metrics of the result when there are more than those selected"""
        ms = asked or metrics
        cols = sorted(set(["a_v.id", "a_v.cust", "a_v." + day] + ["a_v." + d for d in list(dims) + list(used)]))
        one = [self.sql[c[4:]] + " as " + self.alias[c[4:]] for c in cols] + [self.sql["arg"] + " as a_v_" + m for m in sorted(ms)]
        ctes = ["base AS (SELECT " + ",".join(one) + " FROM t_a_v a_v" + where + ")"]
        at = "a_v_" + day
        union = []
        for i, cond in enumerate(steps):
            k = str(i + 1)
            if i == 0:
                ctes.append("step_1 AS (SELECT *," + at + " as step_1_time FROM base WHERE " + cond + ")")
            else:
                p = "step_" + str(i)
                ctes.append(
                    "step_" + k + " AS (SELECT base.*," + p + ".step_1_time as step_1_time FROM base JOIN " + p + " ON base.a_v_cust=" + p + ".a_v_cust and "
                    + p + "." + at + "<base." + at + " WHERE " + cond + " AND " + spec_duration(self.wh, unit, p + ".step_1_time", "base." + at) + " <= " + str(value) + ")")
            sel = ["'Step " + k + "' as step", k + " as step_order"] + [self.total(m) + " as a_v_" + m for m in ms] + [self.alias[d] + " as " + self.alias[d] for d in dims]
            group = " GROUP BY " + ",".join([self.alias[d] for d in dims]) if dims else ""
            union.append("(SELECT " + ",".join(sel) + " FROM step_" + k + group + ")" if len(steps) > 1 else "SELECT " + ",".join(sel) + " FROM step_" + k + group)
        ctes.append("result_cte AS (" + " UNION ALL ".join(union) + ")")
        return "WITH " + " ,".join(ctes) + " SELECT * FROM result_cte" + outer + ("" if self.wh in NO_SEMICOLON else ";")


def is_(field, value):
    return {"field": "a_v." + field, "expression": "equal_to", "value": value}


@contract("C17", functions=FN, weight=2, doc=(
    "the first step of a funnel is the events matching its condition; each later step, the events matching its own that come after an event of the same customer "
    "in the step before, within the allowed time of that chain's first event; per step each metric counts every event once"))
def steps(I):
    wh = I.choice("warehouse", WAREHOUSES)
    n = I.choice("number of steps", [1, 2, 3, 4, 5] if wh in ("SNOWFLAKE", "POSTGRES") else [1, 2, 3])
    metrics = I.choice("metrics", [["s"], ["n", "top"]])
    x = Log(I, wh)
    kinds = [plain_value(I, "kind " + str(i)) if i < 2 else "k" + str(i) for i in range(n)]
    value = I.int("within", 0)
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["a_v." + m for m in metrics], dimensions=[], query_type=wh,
        funnel={"view_name": "a_v", "steps": [[is_("kind", k)] for k in kinds], "within": {"value": value, "unit": "days"}}))
    I.check_eq("sql", got.value, x.query(metrics, [], ["base.a_v_kind=" + q(k) for k in kinds], value, "day", ["kind"]))


@contract("C17", functions=FN, doc="the allowed time is counted in the named unit, singular or plural, as every warehouse does it")
def within(I):
    wh = I.choice("warehouse", WAREHOUSES)
    unit = I.choice("unit", UNITS)
    s = I.choice("written", ["", "s"])
    x = Log(I, wh)
    value = I.int("within", 0)
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["a_v.n"], dimensions=[], query_type=wh, funnel={"steps": [[is_("kind", "x")], [is_("kind", "y")]], "within": {"value": value, "unit": unit + s}}))
    I.check_eq("sql", got.value, x.query(["n"], [], ["base.a_v_kind='x'", "base.a_v_kind='y'"], value, unit, ["kind"]))


@contract("C17", functions=FN, weight=2, doc=(
    "a funnel is counted per value of the query's dimensions; the query's filters and the user's access filter restrict the events it is made of, the conditions of "
    "a step that step only, and its limit the result"))
def grouped_and_filtered(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    dims = I.choice("dimensions", [["region"], ["kind", "made_week"], ["id"]])
    where = I.bool("filter")
    access = I.bool("access filter")
    limit = I.choice("limit", [None, 9, 0]) if where else None
    x = Log(I, wh, view={"access_filters": [{"field": "a_v.region", "user_attribute": "where"}]} if access else {})
    a, b, u, w = [plain_value(I, n) for n in ("first", "second", "user value", "filter value")]
    got = I.outcome(lambda: conn(x.project, {"where": u}).get_sql_query(
        metrics=["a_v.n", "a_v.s"], dimensions=["a_v." + d for d in dims], query_type=wh, limit=limit, where=[is_("kind", w)] if where else [],
        funnel={"view_name": "a_v", "steps": [[is_("kind", a), is_("region", b)], [{"field": "a_v.region", "expression": "is_null"}]], "within": {"value": 2, "unit": "hours"}}))
    rows = ([x.sql["region"] + "=" + q(u)] if access else []) + ([x.sql["kind"] + "=" + q(w)] if where else [])
    I.check_eq("sql", got.value, x.query(
        ["n", "s"], dims, ["base.a_v_kind=" + q(a) + " AND base.a_v_region=" + q(b), "base.a_v_region IS NULL"], 2, "hour", ["kind", "region"],
        where=" WHERE " + " AND ".join(rows) if rows else "", outer="" if limit is None else " LIMIT " + str(limit)))


@contract("C17", functions=FN, doc=(
    "metric filters of a funnel query keep the steps whose metric qualifies; a metric only filtered on is computed too, and no metric is there twice"))
def metric_filters(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    metrics = I.choice("metrics", [["n"], ["s", "n"]])
    having = I.choice("metric filters", [["n"], ["s"], ["s", "top"], ["top", "n", "s"], ["top", "top"]])
    by = I.choice("written", ["", "a_v."])
    x = Log(I, wh)
    k = I.int("bound")
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["a_v." + m for m in metrics], dimensions=[], query_type=wh, having=[{"field": by + h, "expression": "greater_than", "value": k} for h in having],
        funnel={"view_name": "a_v", "steps": [[is_("kind", "x")], [is_("kind", "y")]], "within": {"value": 1, "unit": "days"}}))
    more = [h for i, h in enumerate(having) if h not in metrics and h not in having[:i]]
    I.check_eq("sql", got.value, x.query(
        metrics, [], ["base.a_v_kind='x'", "base.a_v_kind='y'"], 1, "day", ["kind"], asked=metrics + more,
        outer=" WHERE " + " AND ".join(["a_v_" + h + ">" + str(k) for h in having])))


@contract("C17", functions=FN, doc="a step may have any number of conditions on any fields of the events, and every event column a condition of any step uses is there for it")
def many_conditions(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    first = I.choice("first step", [["kind"], ["kind", "region", "cust"], ["region", "made_week", "id", "kind"]])
    second = I.choice("second step", [["region"], ["id", "made_week", "cust"], ["kind", "kind", "region"]])
    x = Log(I, wh)
    v = plain_value(I, "value")

    def written(fields):
        return [{"field": "a_v." + f, "expression": "is_null"} if f == "made_week" else is_(f, v if f == "kind" else f) for f in fields]

    def meant(fields):
        return " AND ".join(["base.a_v_made_week IS NULL" if f == "made_week" else "base.a_v_" + f + "=" + q(v if f == "kind" else f) for f in fields])

    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["a_v.n"], dimensions=[], query_type=wh, funnel={"view_name": "a_v", "steps": [written(first), written(second)], "within": {"value": 3, "unit": "days"}}))
    I.check_eq("sql", got.value, x.query(["n"], [], [meant(first), meant(second)], 3, "day", sorted(set(first + second))))


@contract("C17", functions=FN, doc="a funnel without its window, without steps, without a customer or whose event time is not determined is refused")
def refused(I):
    what = I.choice("missing", ["within", "steps", "customer", "event time"])
    fields = [dim("id", primary_key=True), dim("kind"), dim("cust", tags=["customer"] if what != "customer" else []), date("made", "${TABLE}.made"), date("paid", "${TABLE}.paid"), measure("s"), measure("n", "count")]
    p = mk_project([view_dict("a_v", fields, default_date="made")])
    f = {"steps": [[is_("kind", "x")], [is_("kind", "y")]], "within": {"value": I.int("within", 0), "unit": "days"}}
    if what in f:
        del f[what]
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["s", "n"] if what == "event time" else ["s"], dimensions=[], query_type="SNOWFLAKE", funnel=f))
    I.check("refused", not got.ok and got.exc_type == "QueryError")
