"""C25: a non-additive measure aggregates the rows of the last (or first) date of the query's rows, per group, and nothing else."""
from contracts.c05_aggregates import spec_sum
from contracts.c10_time import spec_time
from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, q, rendered, view_dict
from pyvc.api import contract

G = "metrics_layer.core.sql.query_generator:MetricsLayerQuery."
F = "metrics_layer.core.model.field:Field."
FN = [G + "parse_definition", G + "get_query", G + "_non_additive_cte", F + "non_additive_dimension", F + "non_additive_alias", F + "non_additive_cte_alias", F + "sql",
      "metrics_layer.core.model.filter:Filter.translate_looker_filters_to_sql"]
FRAMES = ["raw", "date", "week", "month"]
SORTED = {"SNOWFLAKE", "REDSHIFT", "DUCK_DB"}
AGG = {"sum": "SUM(%s)", "average": "AVG(%s)", "min": "MIN(%s)", "max": "MAX(%s)", "median": "MEDIAN(%s)", "count": "COUNT(%s)", "count_distinct": "COUNT(DISTINCT(%s))"}


def column(I, name):
    a, b = I.str(name + " before", exclude="${}\n%"), I.str(name + " after", exclude="${}\n%")
    return lambda table: a + "(" + table + ".c" + b + ")"


def date(name, sql=None):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": FRAMES, "sql": sql or "${TABLE}." + name}


def last(name, frame="day_raw", choice="max", type="sum", sql=None, filters=None, **kw):
    return measure(name, type, sql, non_additive_dimension={"name": frame, "window_choice": choice, **kw}, **({"filters": filters} if filters else {}))


def W(field, expression, value):
    return {"field": field, "expression": expression, "value": value}


def chosen(wh, name, on, choice, day, cols, from_, nulls=False, ctes=""):
    """the CTE with the chosen date of each group and the join to it; `on` is the column of the date, `cols` the (sql, alias) of the groups"""
    cte = f"cte_{name}_" + on.split(".", 1)[1]
    alias = on.split(".")[0] + "_" + choice + "_" + on.split(".", 1)[1]
    select = ",".join([f"{s} as {a}" for s, a in cols] + [f"{choice.upper()}({rendered(day)}) as {alias}"])
    groups = " GROUP BY " + ",".join(a if wh == "BIGQUERY" else s for s, a in cols) if cols else ""
    order = f" ORDER BY {alias} DESC NULLS LAST" if wh in SORTED else ""
    with_ = f"{cte} AS ({ctes}SELECT {select} FROM {from_}{groups}{order})"
    if not cols:
        on_ = "1=1"
    elif nulls:
        on_ = " and ".join(f"equal_null({s}, {cte}.{a})" if wh == "SNOWFLAKE" else f"({s}={cte}.{a} OR ({s} IS NULL AND {cte}.{a} IS NULL))" for s, a in cols)
    else:
        on_ = " and ".join(f"{s}={cte}.{a}" for s, a in cols)
    return with_, f" LEFT JOIN {cte} ON {on_}", f"{day}={cte}.{alias}", cte


def sql(wh, ctes, cols, metrics, from_, joins, where="", having=""):
    """the query over the rows joined to the chosen dates"""
    select = ",".join([f"{s} as {a}" for s, a in cols] + [f"{s} as {a}" for s, a in metrics])
    groups = " GROUP BY " + ",".join(a if wh == "BIGQUERY" else s for s, a in cols) if cols else ""
    order = f" ORDER BY {metrics[0][1]} DESC NULLS LAST" if wh in SORTED else ""
    return "WITH " + " ,".join(ctes) + f" SELECT {select} FROM {from_}{''.join(joins)}{where}{groups}{having}{order}" + ("" if wh in ("DRUID", "TRINO") else ";")


def only(type, condition, value):
    return AGG[type] % f"case when {condition} then {value} else 0 end" if type == "sum" else AGG[type] % f"case when {condition} then {value} end"


class Shop:
    """balances of accounts on days, of customers with an opening date of their own"""

    def __init__(self, I, *fields, c_fields=(), **c_view):
        day, plan, acct, x, open_, country = (column(I, n) for n in ("day", "plan", "account", "measure", "opening", "country"))
        self.x = x("a_v")
        self.project = mk_project([
            view_dict("a_v", [dim("id", primary_key=True), dim("acct", acct("${TABLE}")), dim("plan", plan("${TABLE}")), dim("cust"), date("day", day("${TABLE}")), measure("s"),
                              *(({**f, "sql": x("${TABLE}")} if "non_additive_dimension" in f else f) for f in fields)],
                      default_date="day", identifiers=[{"name": "k", "type": "foreign", "sql": "${cust}"}]),
            view_dict("c_v", [dim("id", primary_key=True), dim("country", country("${TABLE}")), date("day", open_("${TABLE}")), measure("tot"), *c_fields],
                      identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}], **c_view),
        ], models=[model_dict()])
        self.raw = {"a_v": rendered(day("a_v")), "c_v": rendered(open_("c_v"))}
        self.cols = {"plan": (rendered(plan("a_v")), "a_v_plan"), "acct": (rendered(acct("a_v")), "a_v_acct"), "c_v.country": (rendered(country("c_v")), "c_v_country")}

    def day(self, wh, frame, view="a_v"):
        return spec_time(wh, frame, self.raw[view], "monday", 0, "TIMESTAMP")

    def col(self, wh, d):
        """(sql, alias) of a dimension of the query"""
        if "day_" in d:
            view, name = d.split(".")
            return self.day(wh, name[4:], view), view + "_" + name
        return self.cols[d if d in self.cols else d.split(".")[-1]]


A = "t_a_v a_v"
AC = "t_a_v a_v LEFT JOIN t_c_v c_v ON a_v.cust=c_v.id"


def asked(I, wh, type_, choice, frame, by, dims, nulls):
    s = Shop(I, last("end", "day_" + frame, choice, type_, window_groupings=by, nulls_are_equal=nulls))
    got = conn(s.project).get_sql_query(metrics=["end"], dimensions=dims, query_type=wh)
    cols = [s.col(wh, d.lower()) for d in dims]
    window = []
    for g in [s.cols[b.split(".")[-1]] for b in by] + cols:
        if g[1] not in [w[1] for w in window]:
            window.append(g)
    with_, join, when, cte = chosen(wh, "end", "a_v.day_" + frame, choice, s.day(wh, frame), window, A, nulls)
    when += "".join(f" and {s.cols[b.split('.')[-1]][0]}={cte}.{s.cols[b.split('.')[-1]][1]}" for b in by)
    I.check_eq("sql", got, sql(wh, [with_], cols, [(rendered(only(type_, when, s.x)), "a_v_end")], A, [join]))


@contract("C25", functions=FN, weight=3, doc=(
    "a non-additive measure counts the rows whose date is the last (first) date of their group; a group is the query's own dimensions and the measure's window groupings, "
    "each once, however they are written, and empty values are a group of their own when the measure says so"))
def groups(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "POSTGRES", "SQL_SERVER"])
    by = I.choice("window", [[], ["acct"], ["plan", "a_v.acct"]])
    dims = I.choice("dimensions", [[], ["plan"], ["acct", "a_v.day_month"], ["a_v.PLAN", "acct"]])
    asked(I, wh, "sum", "max", "raw", by, dims, I.bool("nulls are equal"))


@contract("C25", functions=FN, weight=3, doc=(
    "whatever the measure aggregates and however coarse its date, on every warehouse; a row of another date adds nothing to it, and a zero only to a sum"))
def kinds(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "REDSHIFT", "POSTGRES", "DUCK_DB", "TRINO", "SQL_SERVER", "DATABRICKS"])
    kind = I.choice("kind", [("sum", "max", "raw"), ("average", "max", "date"), ("min", "min", "raw"), ("max", "min", "month"), ("count", "max", "week"), ("count_distinct", "min", "date"), ("sum", "min", "week")])
    asked(I, wh, *kind, ["acct"], ["plan"], False)


@contract("C25", functions=FN, weight=2, doc=(
    "a measure that is not aware of the query's dimensions takes the last date of all rows, or of its window groupings, and of each period when its own date is in the query - "
    "the date of another view, of the same name, is no period of it"))
def unaware(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY", "POSTGRES"])
    by = I.choice("window", [[], ["acct"]])
    dims = I.choice("dimensions", [[], ["plan"], ["a_v.day_month", "plan"], ["c_v.day_month"], ["c_v.day_month", "a_v.day_week"], ["acct", "a_v.day_date", "c_v.country"]])
    s = Shop(I, last("end", window_groupings=by, window_aware_of_query_dimensions=False))
    got = conn(s.project).get_sql_query(metrics=["end"], dimensions=dims, query_type=wh)
    cols = [s.col(wh, d) for d in dims]
    window = [s.cols[b] for b in by] + [s.col(wh, d) for d in dims if d.startswith("a_v.day_")]
    with_, join, when, cte = chosen(wh, "end", "a_v.day_raw", "max", s.day(wh, "raw"), window, A)
    when += "".join(f" and {s.cols[b][0]}={cte}.{s.cols[b][1]}" for b in by)
    from_ = AC if any(d.startswith("c_v") for d in dims) else A
    I.check_eq("sql", got, sql(wh, [with_], cols, [(rendered(only("sum", when, s.x)), "a_v_end")], from_, [join]))


@contract("C25", functions=FN, weight=3, doc=(
    "the last date is looked for among the query's own rows: every condition of the query - in a list, a group, a text, on a group's total, or an access filter of a view it touches - "
    "holds for both, and every view it needs is joined in both"))
def same_rows(I):
    how = I.choice("condition", ["own", "other view", "group", "text", "text of other view", "access", "access and text", "total", "total of other view", "none"])
    wh = I.choice("warehouse", ["SNOWFLAKE", "POSTGRES"])
    v, w = plain_value(I, "value"), plain_value(I, "other value")
    dims = I.choice("dimensions", [[], ["plan"]])
    s = Shop(I, last("end"), access_filters=[{"field": "c_v.country", "user_attribute": "country"}])
    plan, country = s.cols["plan"][0], s.cols["c_v.country"][0]
    where, from_, text, user, ctes = [], A, "", None, ""
    if how in ("own", "total"):
        where, text = [W("plan", "equal_to", v)], f"{plan}={q(v)}"
    elif how == "other view":
        where, from_, text = [W("a_v.plan", "not_equal_to", v), W("country", "equal_to", w)], AC, f"{plan}<>{q(v)} AND {country}={q(w)}"
    elif how == "group":
        where, from_ = [{"logical_operator": "OR", "conditions": [W("plan", "equal_to", v), W("c_v.country", "is_null", None)]}, W("plan", "not_equal_to", w)], AC
        text = f"({plan}={q(v)} OR {country} IS NULL) AND {plan}<>{q(w)}"
    elif how == "text":
        where, text = "${a_v.plan} is not null", plan + " is not null"
    elif how == "text of other view":
        where, from_, text = "${c_v.country} = 'x' or ${a_v.plan} is null", AC, rendered(f"{country} = 'x' or {plan} is null")
    elif how == "access":
        user, dims, from_, text = {"country": v}, dims + ["c_v.country"], AC, f"{country}={q(v)}"
    elif how == "access and text":
        user, where, from_ = {"country": v}, "${c_v.country} = 'x' or ${a_v.plan} is null", AC
        text = f"{country}={q(v)} AND " + rendered(f"({country} = 'x' or {plan} is null)")
    if how.startswith("total"):
        g, sql_, alias, of = ("acct", *s.cols["acct"], A) if how == "total" else ("c_v.country", *s.cols["c_v.country"], AC)
        where = where + [{"field": "s", "group_by": g, "expression": "greater_than", "value": 3}]
        order = f" ORDER BY {alias} ASC NULLS LAST" if wh in SORTED else ""
        ctes = f"filter_subquery_0 AS (SELECT {sql_} as {alias} FROM {of} GROUP BY {sql_} HAVING SUM(a_v.s)>3{order})"
        text += (" AND " if text else "") + f"{sql_} IN (SELECT DISTINCT {alias} FROM filter_subquery_0)"
        from_ = of
    got = conn(s.project, user).get_sql_query(metrics=["end"], dimensions=dims, where=where, query_type=wh)
    where_sql = " WHERE " + text if text else ""
    cols = [s.col(wh, d) for d in dims]
    with_, join, when, _ = chosen(wh, "end", "a_v.day_raw", "max", s.day(wh, "raw"), cols, from_ + where_sql, ctes=f"WITH {ctes} " if ctes else "")
    I.check_eq("sql", got, sql(wh, ([ctes] if ctes else []) + [with_], cols, [(rendered(only("sum", when, s.x)), "a_v_end")], from_, [join], where_sql))


@contract("C25", functions=FN, weight=2, doc=(
    "the date of a measure, and its window groupings, may be those of a view it is joined to, and the measure one that a query reaches over a join that repeats its rows"))
def other_view(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "POSTGRES", "SQL_SERVER"])
    which = I.choice("measure", ["date of other view", "window of other view", "repeated rows"])
    dims = I.choice("dimensions", [[], ["plan"]])
    s = Shop(I, last("end", *(["c_v.day_date"] if which == "date of other view" else []), window_groupings=["c_v.country"] if which == "window of other view" else []), c_fields=[last("grown", "day_date", "min")])
    cols = [s.col(wh, d) for d in dims]
    if which == "repeated rows":
        got = conn(s.project).get_sql_query(metrics=["s", "grown"], dimensions=dims, query_type=wh)
        day = s.day(wh, "date", "c_v")
        with_, join, when, _ = chosen(wh, "grown", "c_v.day_date", "min", day, cols, AC if dims else "t_c_v c_v")
        arg = rendered(f"case when {when} then c_v.grown else 0 end")
        agg = spec_sum(wh, arg, "c_v.id") if wh in ("SNOWFLAKE", "POSTGRES") else f"SUM({arg})"
        want = sql(wh, [with_], cols, [("SUM(a_v.s)", "a_v_s"), (agg, "c_v_grown")], AC, [join])
    elif which == "date of other view":
        got = conn(s.project).get_sql_query(metrics=["end"], dimensions=dims, query_type=wh)
        with_, join, when, _ = chosen(wh, "end", "c_v.day_date", "max", s.day(wh, "date", "c_v"), cols, AC if dims else "t_c_v c_v")
        want = sql(wh, [with_], cols, [(rendered(only("sum", when, s.x)), "a_v_end")], AC, [join])
    else:
        got = conn(s.project).get_sql_query(metrics=["end"], dimensions=dims, query_type=wh)
        country = s.cols["c_v.country"]
        with_, join, when, cte = chosen(wh, "end", "a_v.day_raw", "max", s.day(wh, "raw"), [country] + cols, AC)
        want = sql(wh, [with_], cols, [(rendered(only("sum", when + f" and {country[0]}={cte}.{country[1]}", s.x)), "a_v_end")], AC, [join])
    I.check_eq("sql", got, want)


@contract("C25", functions=FN + [G + "get_sql"], weight=2, doc=(
    "the measure may be one of several, part of a measure calculated from others, filtered itself, or only a condition on the result - in a list or a text: each is counted on its own last date"))
def together(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "POSTGRES"])
    how = I.choice("use", ["two", "difference", "with plain", "ratio of difference", "filtered", "condition", "text condition", "both"])
    dims = I.choice("dimensions", [[], ["plan"]])
    v = plain_value(I, "value")
    s = Shop(I, last("end"), last("start", "day_date", "min", window_groupings=["acct"]), measure("change", "number", "${end} - ${start}"), measure("part", "number", "${change} / ${s}"),
             last("pro", filters=[{"field": "plan", "value": "pro"}]))
    cols = [s.col(wh, d) for d in dims]
    end = chosen(wh, "end", "a_v.day_raw", "max", s.day(wh, "raw"), cols, A)
    window = [s.cols["acct"]] + cols
    start = chosen(wh, "start", "a_v.day_date", "min", s.day(wh, "date"), window, A)
    pro = chosen(wh, "pro", "a_v.day_raw", "max", s.day(wh, "raw"), cols, A)
    e = rendered(only("sum", end[2], s.x))
    b = rendered(only("sum", start[2] + f" and {s.cols['acct'][0]}={start[3]}.a_v_acct", s.x))
    two = ([end[0], start[0]], [end[1], start[1]])
    kw, having, metrics = {}, "", None
    if how == "two":
        asked_, used, metrics = ["end", "start"], two, [(e, "a_v_end"), (b, "a_v_start")]
    elif how == "difference":
        asked_, used, metrics = ["change"], two, [(f"({e}) - ({b})", "a_v_change")]
    elif how == "with plain":
        asked_, used, metrics = ["s", "end"], ([end[0]], [end[1]]), [("SUM(a_v.s)", "a_v_s"), (e, "a_v_end")]
    elif how == "ratio of difference":
        asked_, used, metrics = ["part", "end"], two, [(f"(({e}) - ({b})) / (SUM(a_v.s))", "a_v_part"), (e, "a_v_end")]
    elif how == "filtered":
        asked_, used, metrics = ["pro"], ([pro[0]], [pro[1]]), [(rendered(only("sum", f"{s.cols['plan'][0]}='pro' and {pro[2]}", s.x)), "a_v_pro")]
    elif how == "condition":
        asked_, used, metrics, kw, having = ["s"], ([end[0]], [end[1]]), [("SUM(a_v.s)", "a_v_s")], {"having": [W("end", "greater_than", 5)]}, f" HAVING {e}>5"
    elif how == "text condition":
        asked_, used, metrics, kw, having = ["s"], ([end[0]], [end[1]]), [("SUM(a_v.s)", "a_v_s")], {"having": "${a_v.end} > 5"}, f" HAVING ({e}) > 5"
    else:
        asked_, used, metrics, kw, having = ["end"], ([end[0]], [end[1]]), [(e, "a_v_end")], {"having": [W("end", "less_than", 7)]}, f" HAVING {e}<7"
    got = conn(s.project).get_sql_query(metrics=asked_, dimensions=dims, query_type=wh, **kw)
    I.check_eq("sql", got, sql(wh, used[0], cols, metrics, A, used[1], having=having))


@contract("C25", functions=FN + ["metrics_layer.core.model.project:Project.add_field"], weight=2, doc=(
    "a query with a non-additive measure leaves the project as it was: a measure of the user's own named like the chosen date counts what it says, in that query and afterwards, "
    "and so does every other query"))
def no_trace(I):
    wh = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    own = I.choice("own field", ["max_day_raw", "MAX_DAY_RAW", "other"])
    then = I.choice("then", ["end", "own", "s", "both"])
    s = Shop(I, last("end"), measure(own, "average", "${TABLE}.o"))
    s.project.get_view("a_v").fields()
    before = [dict(f) for f in s.project._views[0]["fields"]]
    day = chosen(wh, "end", "a_v.day_raw", "max", s.day(wh, "raw"), [], A)
    e, o = (rendered(only("sum", day[2], s.x)), "a_v_end"), ("AVG(a_v.o)", "a_v_" + own.lower())
    got = conn(s.project).get_sql_query(metrics=["end"], query_type=wh)
    I.check_eq("first", got, sql(wh, [day[0]], [], [e], A, [day[1]]))
    I.check("the project is as it was", s.project._views[0]["fields"] == before)
    got = conn(s.project).get_sql_query(metrics={"end": ["end"], "own": [own], "s": ["s"], "both": [own, "end"]}[then], query_type=wh)
    if then in ("end", "both"):
        want = sql(wh, [day[0]], [], [o, e] if then == "both" else [e], A, [day[1]])
    else:
        m = o if then == "own" else ("SUM(a_v.s)", "a_v_s")
        order = f" ORDER BY {m[1]} DESC NULLS LAST" if wh in SORTED else ""
        want = f"SELECT {m[0]} as {m[1]} FROM {A}{order};"
    I.check_eq("then", got, want)


@contract("C25", functions=FN, weight=1, doc="two measures of one name, of two views, each count on the last date of their own rows")
def same_name(I):
    wh = I.choice("warehouse", ["BIGQUERY", "POSTGRES"])
    metrics = I.choice("metrics", [["a_v.end", "c_v.end"], ["c_v.end", "a_v.end"], ["c_v.end"], ["a_v.end"]])
    s = Shop(I, last("end"), c_fields=[last("end", type="max", choice="min")])
    got = conn(s.project).get_sql_query(metrics=metrics, query_type=wh)
    parts = {}
    from_ = {"a_v": A, "c_v": "t_c_v c_v"}
    for v, choice, type_, x in (("a_v", "max", "sum", s.x), ("c_v", "min", "max", "c_v.end")):
        with_, join, when, _ = chosen(wh, v + "_end", v + ".day_raw", choice, s.day(wh, "raw", v), [], from_[v])
        parts[v] = (with_, join, (rendered(only(type_, when, x)), v + "_end"))
    # the two subqueries are independent of each other, in the order of their dates' names
    used = [parts[v] for v in ("a_v", "c_v") if v + ".end" in metrics]
    I.check_eq("sql", got, sql(wh, [u[0] for u in used], [], [parts[m[:3]][2] for m in metrics], from_["c_v"] if metrics == ["c_v.end"] else A if metrics == ["a_v.end"] else AC, [u[1] for u in used]))
