from contracts.c10_time import spec_time, timezone_sql
from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, q, rendered, view_dict
from pyvc.api import contract

K = "metrics_layer.core.sql.query_cumulative_metric:CumulativeMetricsQuery."
FN = [K + x for x in (
    "get_query", "separate_metrics", "date_spine", "date_spine_by_time_frame", "cumulative_subquery", "non_cumulative_subquery", "_subquery",
    "aggregate_cumulative_subquery", "_is_default_date", "default_date_dimension_group", "_get_default_date", "_derive_join", "_get_select_columns")]

SPINE = {
    "SNOWFLAKE": "select dateadd(day, seq4(), '2000-01-01') as date from table(generator(rowcount => 365*40))",
    "BIGQUERY": "select date from unnest(generate_date_array('2000-01-01', '2040-01-01')) as date",
    "POSTGRES": "select date from generate_series('2000-01-01'::date, '2040-01-01'::date, '1 day') as date",
}
SPINE["REDSHIFT"] = SPINE["SNOWFLAKE"]
TODAY = {"SNOWFLAKE": "current_date()", "REDSHIFT": "current_date()", "BIGQUERY": "current_date()", "POSTGRES": "current_date"}
FRAMES = ["date", "week", "month", "quarter", "year"]
DEFAULTS = {"SNOWFLAKE", "REDSHIFT"}


def column(I, name):
    a, b = I.str(name + " before", exclude="${}\n%"), I.str(name + " after", exclude="${}\n%")
    return lambda table: a + "(" + table + ".c" + b + ")"


def date(name, sql):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw"] + FRAMES, "sql": sql}


class Shop:
    """a view with a default date, a region and a measure accumulated over time, and what its columns mean"""

    def __init__(self, I, wh, frame, extra=(), tz=None, view=None, model=None, measure_kw=None, cum=None, others=()):
        self.wh, self.tz = wh, tz
        made, reg, s = column(I, "date"), column(I, "region"), column(I, "measure")
        fields = [
            dim("id", primary_key=True), dim("region", reg("${TABLE}")), date("made", made("${TABLE}")),
            measure("s", "sum", s("${TABLE}"), **(measure_kw or {})), measure("top", "max", s("${TABLE}")), measure("n", "count", s("${TABLE}")),
            {"name": "cum", "field_type": "measure", "type": "cumulative", "measure": "s", **(cum or {})},
            {"name": "cumtop", "field_type": "measure", "type": "cumulative", "measure": "top"},
        ] + list(extra)
        self.project = mk_project([view_dict("a_v", fields, default_date="made", **(view or {}))] + list(others), models=[model_dict(**(model or {}))])
        if tz:
            self.project.set_timezone(tz)
        self.region, self.arg, self.raw = rendered(reg("a_v")), rendered(s("a_v")), rendered(made("a_v"))
        self.frame, self.text = frame, s("a_v")
        self.cols = {"region": (self.region, "a_v_region"), frame: (self.day(frame), "a_v_made_" + frame)}

    def day(self, f, sql=None):
        """the date truncated to a frame"""
        return spec_time(self.wh, f, sql or (timezone_sql(self.wh, self.raw, self.tz, "TIMESTAMP") if self.tz else self.raw), "monday", 0, "TIMESTAMP")

    def spine_day(self, f, sql):
        """a calendar date truncated to a frame"""
        return spec_time(self.wh, f, sql, "monday", 0, "TIMESTAMP")

    def running(self, name, by, m="s", agg="SUM", arg=None, rows="", having="", extra=(), and_="", on=""):
        """the two subqueries of a cumulative metric: the rows, and their aggregate up to each date of the spine"""
        cols = [self.cols[d] for d in by]
        if self.frame not in by:
            cols = cols + [self.cols[self.frame]]
        cols = cols + [c for c in extra]
        one = "SELECT " + ",".join([s + " as " + a for s, a in cols] + [(arg or self.arg) + " as a_v_" + m]) + " FROM t_a_v a_v" + rows
        day = "a_v_made_" + self.frame
        sel = [agg + "(a_v_" + m + ") as a_v_" + m] + [("date_spine.date" if d == self.frame else self.cols[d][1]) + " as " + self.cols[d][1] for d in by]
        spine = "date_spine" if self.frame == "date" else "(SELECT DISTINCT " + self.spine_day(self.frame, "date") + " as date FROM date_spine) date_spine"
        group = [self.cols[d][1] for d in by if d != self.frame] + (["date_spine.date"] if self.frame in by else [])
        two = (
            "SELECT " + ",".join(sel) + " FROM " + spine + " JOIN subquery_a_v_" + name + " ON subquery_a_v_" + name + "." + day + "<=date_spine.date" + and_
            + " WHERE date_spine.date<=" + TODAY[self.wh] + (" GROUP BY " + ",".join(group) if group else "") + having
        )
        return "subquery_a_v_" + name + " AS (" + one + ") ,aggregated_a_v_" + name + " AS (" + two + ")"

    def plain(self, by, ms, where=""):
        """the query of the other metrics: ms are (sql, alias)"""
        cols = [self.cols[d] for d in by]
        sql = "SELECT " + ",".join([s + " as " + a for s, a in cols + list(ms)]) + " FROM t_a_v a_v" + where
        if cols:
            sql += " GROUP BY " + ",".join([a if self.wh == "BIGQUERY" else s for s, a in cols])
        if self.wh in DEFAULTS:
            sql += " ORDER BY " + ms[0][1] + " DESC NULLS LAST"
        return "base AS (" + sql + ")"

    def outer(self, parts, by, names, metrics, where="", limit=""):
        """names: the tables joined, the first being the base; metrics: (sql, alias)"""
        base = names[0]
        sel = [base + "." + self.cols[d][1] + " as " + self.cols[d][1] for d in by] + [s + " as " + a for s, a in metrics]
        sql = "WITH " + " ,".join(["date_spine AS (" + SPINE[self.wh] + ")"] + parts) + " SELECT " + ",".join(sel) + " FROM " + base
        for n in names[1:]:
            on = " and ".join([base + "." + self.cols[d][1] + "=" + n + "." + self.cols[d][1] for d in by]) if by else "1=1"
            sql += " LEFT JOIN " + n + " ON " + on
        return sql + where + limit + ";"


def fields_of(by):
    return [d if d == "region" else "made_" + d for d in by]


CUM = ("aggregated_a_v_cum.a_v_s", "a_v_cum")
TOP = ("aggregated_a_v_cumtop.a_v_top", "a_v_cumtop")
N = ("base.a_v_n", "a_v_n")


@contract("C16", functions=FN, weight=3, doc=(
    "a cumulative metric is, for every date of the calendar up to today and each value of the other dimensions, its measure over all rows dated no later; "
    "the dates and the rows are truncated to the query's timeframe, in every warehouse that supports it"))
def running(I):
    wh = I.choice("warehouse", sorted(SPINE))
    frame = I.choice("timeframe", FRAMES)
    by = I.choice("dimensions", [[frame], [frame, "region"], ["region", frame]])
    x = Shop(I, wh, frame)
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["cum"], dimensions=fields_of(by), query_type=wh))
    I.check_eq("sql", got.value, x.outer([x.running("cum", by)], by, ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN, weight=2, doc=(
    "with a query timezone the rows are dated in that timezone; the calendar's dates are not converted"))
def in_a_timezone(I):
    wh = I.choice("warehouse", sorted(SPINE))
    frame = I.choice("timeframe", ["date", "week", "month"])
    on = I.choice("filter on the date", [None, frame])
    x = Shop(I, wh, frame, tz="America/New_York")
    w = [{"field": "a_v.made_" + frame, "expression": "greater_than", "value": "2020-01-01"}] if on else []
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["cum"], dimensions=["made_" + frame], where=w, query_type=wh))
    having = " HAVING " + x.spine_day(frame, "date_spine.date") + ">" + "'2020-01-01'" if on else ""
    I.check_eq("sql", got.value, x.outer([x.running("cum", [frame], having=having)], [frame], ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN, weight=2, doc=(
    "a filter on the date restricts the periods shown, not the rows accumulated; every other filter restricts the rows; the other metrics of the query obey both"))
def filtered(I):
    wh = I.choice("warehouse", sorted(SPINE))
    frame = I.choice("timeframe", ["date", "month"])
    by = I.choice("dimensions", [[frame], [frame, "region"]])
    order = I.choice("filters", [["region"], ["day"], ["region", "day"], ["day", "region"]])
    plain = I.bool("with another metric")
    x = Shop(I, wh, frame)
    v = plain_value(I, "value")
    ws = {"region": {"field": "region", "expression": "equal_to", "value": v}, "day": {"field": "a_v.made_" + frame, "expression": "greater_than", "value": "2020-01-01"}}
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["cum"] + (["n"] if plain else []), dimensions=fields_of(by), where=[ws[o] for o in order], query_type=wh))
    sqls = {"region": x.region + "=" + q(v), "day": x.day(frame) + ">" + "'2020-01-01'"}
    having = " HAVING " + x.spine_day(frame, "date_spine.date") + ">" + "'2020-01-01'" if "day" in order else ""
    parts = [x.running("cum", by, rows=" WHERE " + sqls["region"] if "region" in order else "", having=having)]
    names = ["aggregated_a_v_cum"]
    if plain:
        parts.append(x.plain(by, [("COUNT(" + x.arg + ")", "a_v_n")], " WHERE " + " AND ".join([sqls[o] for o in order])))
        names = ["base"] + names
    I.check_eq("sql", got.value, x.outer(parts, by, names, [CUM] + ([N] if plain else [])))


@contract("C16", functions=FN, weight=2, doc=(
    "several cumulative metrics and ordinary metrics of one query are computed apart, each by its own subquery, and joined on every dimension of the query, keeping "
    "every group of the first; metric filters and the limit apply to the joined result"))
def together(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    ms = I.choice("metrics", [["cum", "n"], ["n", "cum"], ["cum", "cumtop"], ["cumtop", "n", "cum"]])
    by = I.choice("dimensions", [["week"], ["region", "week"]])
    having = I.choice("metric filters", [[], ["cum"], ["n"], ["n", "cumtop"]])
    limit = I.choice("limit", [None, 7, 0])
    x = Shop(I, wh, "week")
    k = I.int("bound")
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=ms, dimensions=fields_of(by), having=[{"field": h, "expression": "greater_than", "value": k} for h in having], limit=limit, query_type=wh))
    used = ms + [h for h in having if h not in ms]
    runs = {"cum": lambda: x.running("cum", by), "cumtop": lambda: x.running("cumtop", by, "top", "MAX")}
    cums = [m for m in used if m in runs]
    parts, names = [runs[m]() for m in cums], ["aggregated_a_v_" + m for m in cums]
    if "n" in used:
        parts.append(x.plain(by, [("COUNT(" + x.arg + ")", "a_v_n")]))
        names = ["base"] + names
    cols = {"cum": CUM, "cumtop": TOP, "n": N}
    where = " WHERE " + " AND ".join(["a_v_" + h + ">" + str(k) for h in having]) if having else ""
    I.check_eq("sql", got.value, x.outer(parts, by, names, [cols[m] for m in ms], where, "" if limit is None else " LIMIT " + str(limit)))


@contract("C16", functions=FN + ["metrics_layer.core.model.field:Field.sql_query"], doc=(
    "a metric defined from cumulative metrics is its own expression over their values for the same group"))
def derived(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    a, b, c = I.str("before", exclude="${}\n%"), I.str("between", exclude="${}\n%"), I.str("after", exclude="${}\n%")
    by = ["week", "region"]
    x = Shop(I, wh, "week", extra=[measure("ratio", "number", a + "(${cum}" + b + "${cumtop})" + c)])
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["ratio"], dimensions=fields_of(by), query_type=wh))
    sql = (a + "((aggregated_a_v_cum.a_v_s)" + b + "(aggregated_a_v_cumtop.a_v_top))" + c)
    parts = [x.running("cum", by), x.running("cumtop", by, "top", "MAX")]
    I.check_eq("sql", got.value, x.outer(parts, by, ["aggregated_a_v_cum", "aggregated_a_v_cumtop"], [(sql, "a_v_ratio")]))


MIXED_JOIN = " FROM base LEFT JOIN aggregated_a_v_cum ON base.a_v_made_week=aggregated_a_v_cum.a_v_made_week and base.a_v_region=aggregated_a_v_cum.a_v_region;"


def mix(I, two, wh, t):
    by = ["week", "region"]
    x = Shop(I, wh, "week", extra=[measure("ratio", "number", t[0] + "(${cum}" + t[1] + "${n}" + (t[2] + "${top}" if two else "") + ")")])
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["ratio"], dimensions=fields_of(by), query_type=wh))
    parts = [x.running("cum", by), x.plain(by, [("COUNT(" + x.arg + ")", "a_v_n")] + ([("MAX(" + x.arg + ")", "a_v_top")] if two else []))]
    head = "WITH " + " ,".join(["date_spine AS (" + SPINE[wh] + ")"] + parts) + " SELECT base.a_v_made_week as a_v_made_week,base.a_v_region as a_v_region,"
    return got, head


@contract("C16", functions=FN, doc=(
    "a metric may be defined from cumulative and ordinary metrics together: every one of them is computed, each apart, for the same groups"))
def mixed(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    got, head = mix(I, I.choice("ordinary metrics", [1, 2]) == 2, wh, [I.str("text " + str(i), exclude="${}\n%") for i in range(3)])
    I.check("computed", got.ok and got.value.startswith(head))
    I.check("joined", got.ok and got.value.endswith(MIXED_JOIN))


class Fixed:
    """stands for I where the texts do not matter"""

    def __init__(self, I):
        self.outcome = I.outcome

    def str(self, name, **kw):
        return name.replace(" ", "_")


@contract("C16", kind="exhaustive", functions=FN + ["metrics_layer.core.model.field:Field.sql_query"], doc=(
    "for one and two ordinary metrics: the metric's expression is over the values of the metrics it is defined from, for the same group"))
def mixed_value(I):
    two = I.choice("ordinary metrics", [1, 2]) == 2
    got, head = mix(Fixed(I), two, "SNOWFLAKE", ["a", "/", "+"])
    I.check_eq("sql", got.value, head + "a((aggregated_a_v_cum.a_v_s)/(base.a_v_n)" + ("+(base.a_v_top)" if two else "") + ") as a_v_ratio" + MIXED_JOIN)


@contract("C16", functions=FN, doc="a measure's own filters and the user's access filter restrict the rows accumulated")
def restricted_rows(I):
    wh = I.choice("warehouse", sorted(SPINE))
    f, u = plain_value(I, "filter value"), plain_value(I, "user value")
    access = I.bool("access filter")
    own = I.bool("measure filter")
    x = Shop(
        I, wh, "month", measure_kw={"filters": [{"field": "region", "value": f}]} if own else {},
        view={"access_filters": [{"field": "a_v.region", "user_attribute": "where"}]} if access else {})
    got = I.outcome(lambda: conn(x.project, {"where": u}).get_sql_query(metrics=["cum"], dimensions=["made_month"], query_type=wh))
    run = x.running(
        "cum", ["month"], arg=rendered("case when " + x.region + "=" + q(f) + " then " + x.text + " end") if own else None,
        rows=" WHERE " + x.region + "=" + q(u) if access else "")
    I.check_eq("sql", got.value, x.outer([run], ["month"], ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN + [K + "_replace_cumulative_where", K + "_cumulative_where_fields"], doc=(
    "a cumulative condition also decides which rows count on each date: it is evaluated on each pair of a row and a date, with the row's dates in the query's "
    "timeframe unless told otherwise"))
def condition(I):
    wh = I.choice("warehouse", sorted(SPINE))
    frame = I.choice("timeframe", ["date", "month"])
    keep = I.choice("update_where_timeframe", [None, True, False])
    done = column(I, "end date")
    x = Shop(
        I, wh, frame, extra=[date("done", done("${TABLE}"))],
        cum={"cumulative_where": "${done_raw} < ${cumulative_date}", **({} if keep is None else {"update_where_timeframe": keep})})
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["cum"], dimensions=["made_" + frame], query_type=wh))
    raw = rendered(done("a_v"))
    f = frame if keep is not False else "raw"
    run = x.running("cum", [frame], extra=[(x.day(f, raw), "a_v_done_" + f)], and_=" AND subquery_a_v_cum.a_v_done_" + f + " < date_spine.date")
    I.check_eq("sql", got.value, x.outer([run], [frame], ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN + [K + "_replace_cumulative_where", K + "_cumulative_where_fields"], doc=(
    "a cumulative condition may use several columns, and every one of them is among the rows it decides on"))
def conditions(I):
    wh = I.choice("warehouse", sorted(SPINE))
    columns = I.choice("columns", [["one"], ["one", "two"], ["two", "one", "three"]])
    cs = {n: column(I, n) for n in columns}
    x = Shop(I, wh, "month", extra=[dim(n, cs[n]("${TABLE}")) for n in columns], cum={"cumulative_where": " and ".join(["${" + n + "} < ${cumulative_date}" for n in columns])})
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["cum"], dimensions=["made_month"], query_type=wh))
    run = x.running(
        "cum", ["month"], extra=[(rendered(cs[n]("a_v")), "a_v_" + n) for n in columns],
        and_=" AND " + " and ".join(["subquery_a_v_cum.a_v_" + n + " < date_spine.date" for n in columns]))
    I.check_eq("sql", got.value, x.outer([run], ["month"], ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN, doc=(
    "only the accumulated measure's own date runs along the calendar: the date of another view, also one of the same name, is a column of the rows like any other, "
    "to group by and to filter the rows accumulated"))
def other_date(I):
    wh = I.choice("warehouse", sorted(SPINE))
    frame = I.choice("timeframe", ["date", "month"])
    name = I.choice("other date", ["made", "paid"])
    use = I.choice("used", ["dimension", "filter", "both"])
    b = column(I, "other date")
    x = Shop(I, wh, frame, view={"identifiers": [{"name": "k", "type": "foreign", "sql": "${TABLE}.fk"}]}, others=[
        view_dict("b_v", [dim("id", primary_key=True), date(name, b("${TABLE}"))], identifiers=[{"name": "k", "type": "primary", "sql": "${TABLE}.key"}])])
    other = x.day(frame, rendered(b("b_v")))
    x.cols["other"] = (other, "b_v_" + name + "_" + frame)
    filt, dims = use != "dimension", [frame] + (["other"] if use != "filter" else [])
    day = "b_v." + name + "_" + frame
    got = I.outcome(lambda: conn(x.project).get_sql_query(
        metrics=["cum"], dimensions=["a_v.made_" + frame] + ([day] if use != "filter" else []),
        where=[{"field": day, "expression": "greater_than", "value": "2020-01-01"}] if filt else [], query_type=wh))
    rows = " LEFT JOIN t_b_v b_v ON a_v.fk=b_v.key" + (" WHERE " + other + ">'2020-01-01'" if filt else "")
    I.check_eq("sql", got.value, x.outer([x.running("cum", dims, rows=rows)], dims, ["aggregated_a_v_cum"], [CUM]))


@contract("C16", functions=FN, doc="a warehouse without a calendar is refused")
def refused(I):
    wh = I.choice("warehouse", ["DRUID", "SQL_SERVER", "DUCK_DB", "DATABRICKS", "AZURE_SYNAPSE", "TRINO"])
    frame = I.choice("timeframe", FRAMES)
    x = Shop(I, "SNOWFLAKE", frame)
    got = I.outcome(lambda: conn(x.project).get_sql_query(metrics=["cum"], dimensions=["made_" + frame], query_type=wh))
    I.check("refused", not got.ok and got.exc_type == "NotImplementedError")
