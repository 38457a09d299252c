"""C04: the filter value grammar and the SQL operator each filter expression renders to."""
from pyvc.api import contract

from contracts.lib import mk_project, view_dict

from metrics_layer.core.exceptions import QueryError
from metrics_layer.core.model.filter import Filter, MetricsLayerFilterExpressionType as T

M = "metrics_layer.core.model.filter:"
FN = [M + "Filter.sql_query", M + "MetricsLayerFilterExpressionType"]


def q(s):
    """SQL string literal"""
    return "'" + s.replace("'", "''") + "'"


def spec_condition(kind, col, value):
    """kind is the wire name of the expression"""
    simple = {"less_than": "<", "less_or_equal_than": "<=", "equal_to": "=", "not_equal_to": "<>",
              "greater_or_equal_than": ">=", "greater_than": ">", "like": " LIKE "}
    if kind in simple:
        return col + simple[kind] + q(value)
    if kind == "is_null":
        return col + " IS NULL"
    if kind == "is_not_null":
        return "NOT " + col + " IS NULL"
    if kind == "boolean_true":
        return col
    if kind == "boolean_false":
        return "NOT " + col
    neg = kind.startswith("does_not_")
    k = kind[9:] if neg else kind
    ci = k.endswith("_case_insensitive")
    k = k[:-17] if ci else k
    pat = {"contains": "%" + value + "%", "contain": "%" + value + "%", "starts_with": value + "%", "start_with": value + "%",
           "ends_with": "%" + value, "end_with": "%" + value}[k]
    op = " NOT LIKE " if neg else " LIKE "
    return ("LOWER(" + col + ")" + op + "LOWER(" + q(pat) + ")") if ci else (col + op + q(pat))


KINDS = [
    "less_than", "less_or_equal_than", "equal_to", "not_equal_to", "greater_or_equal_than", "greater_than", "like",
    "contains", "does_not_contain", "contains_case_insensitive", "does_not_contain_case_insensitive",
    "starts_with", "ends_with", "does_not_start_with", "does_not_end_with",
    "starts_with_case_insensitive", "ends_with_case_insensitive",
    "does_not_start_with_case_insensitive", "does_not_end_with_case_insensitive",
    "is_null", "is_not_null", "boolean_true", "boolean_false",
]


@contract("C04", functions=FN, doc=(
    "every filter expression renders its SQL operator on the compared column, with the value as one escaped SQL "
    "literal, for every column expression and every string value"))
def operators(I):
    kind = I.choice("expression", KINDS)
    col = I.str("col")
    value = I.str("value")
    ftype = I.choice("field_type", ["string", "number", "time", "unknown"])
    got = str(Filter.sql_query(col, T.parse(kind), value, ftype))
    I.check_eq("condition", got, spec_condition(kind, col, value))


@contract("C04", functions=FN, doc="isin / isnotin list every value, once, in order, each as an escaped literal, for lists of any length")
def membership(I):
    col = I.str("col")
    values = I.list("values", lambda v: v.str("x"), min=1)
    neg = I.choice("negated", [False, True])
    got = str(Filter.sql_query(col, T.parse("isnotin" if neg else "isin"), values, "string"))
    I.check_eq("condition", got, col + (" NOT" if neg else "") + " IN (" + ",".join(q(v) for v in values) + ")")


@contract("C04", functions=FN, doc="for a number field the members of an isin / isnotin list are compared as numbers")
def numeric_membership(I):
    col = I.str("col")
    neg = I.choice("negated", [False, True])
    values = I.choice("values", [["1"], ["1", "2.5"], ["-3", "0", "10"], [0], [7, 0, "0", 2]])
    got = str(Filter.sql_query(col, T.parse("isnotin" if neg else "isin"), list(values), "number"))
    I.check_eq("condition", got, col + (" NOT" if neg else "") + " IN (" + ",".join(str(v) for v in values) + ")")


@contract("C04", functions=FN, assumes=["pandas.to_numeric returns an integer argument unchanged"], doc=(
    "integer members of an isin / isnotin list on a number field are all listed, in order, for lists of any length"))
def integer_membership(I):
    col = I.str("col")
    neg = I.choice("negated", [False, True])
    values = I.list("values", lambda v: v.int("n"), min=1)
    got = str(Filter.sql_query(col, T.parse("isnotin" if neg else "isin"), values, "number"))
    I.check_eq("condition", got, col + (" NOT" if neg else "") + " IN (" + ",".join(str(v) for v in values) + ")")


@contract("C04", functions=FN, doc="an unknown expression is an error, in any spelling that is not one of the documented names")
def unknown_expression(I):
    name = I.str("name")
    known = KINDS + ["isin", "isnotin"]
    if any(name == k for k in known) or name == "matches" or name == "unknown":
        I.assume(False)
    I.check("parsed as unknown", T.parse(name) == T.Unknown)
    o = I.outcome(lambda: Filter.sql_query("c", T.parse(name), "v", "string"))
    I.check("rejected", not o.ok and o.exc_type == "QueryError")


@contract("C04", functions=FN, doc="every documented expression name parses to itself")
def parse_names(I):
    known = KINDS + ["isin", "isnotin", "matches"]
    k = I.choice("name", known)
    I.check("parse", T.parse(k).value == k)


FD = [M + "Filter._filter_dict", M + "Filter.parse_date_condition"]


def no_dates(I):
    I.stub(Filter, "parse_date_condition", staticmethod(lambda date_condition, tz: None))


def one(field, value):
    r = Filter._filter_dict(field, value)
    return (r.get("field"), r["expression"].value, r["value"]) if isinstance(r, dict) and r else r


@contract("C04", functions=FD, doc=(
    "string filter values: a plain value is equality, a leading '-' negates, '%' at the start/end/both means "
    "ends-with/starts-with/contains (case-insensitive), for every text"),
    assumes=["the value is not a relative date expression (parse_date_condition is under contract in C12)"])
def string_values(I):
    no_dates(I)
    t = I.str("text", nonempty=True, exclude="%-=<>! ,")
    I.assume(t != "NULL" and t != "TRUE" and t != "FALSE")
    I.assume(t != "after" and t != "before" and t != "on")
    kind = I.choice("kind", ["plain", "not", "contains", "not contains", "ends", "not ends", "starts", "not starts"])
    mark = {"plain": t, "contains": "%" + t + "%", "ends": "%" + t, "starts": t + "%"}
    v = "-" + mark[kind[4:] or "plain"] if kind.startswith("not") else mark[kind]
    exp = {
        "plain": "equal_to", "not": "not_equal_to",
        "contains": "contains_case_insensitive", "not contains": "does_not_contain_case_insensitive",
        "ends": "ends_with_case_insensitive", "not ends": "does_not_end_with_case_insensitive",
        "starts": "starts_with_case_insensitive", "not starts": "does_not_start_with_case_insensitive",
    }[kind]
    if kind == "not":
        I.assume(t != "NULL")
    I.check_eq("filter", one("v.f", v), ("v.f", exp, t))


@contract("C04", functions=FD, doc="NULL/-NULL, TRUE/FALSE (text or boolean), None and the empty string have their fixed meaning; '' means no filter")
def fixed_values(I):
    no_dates(I)
    v, want = I.choice("value", [
        ("NULL", ("f", "is_null", None)), (None, ("f", "is_null", None)), ("-NULL", ("f", "is_not_null", None)),
        (True, ("f", "equal_to", True)), ("TRUE", ("f", "equal_to", True)),
        (False, ("f", "equal_to", False)), ("FALSE", ("f", "equal_to", False)), ("", {}),
    ])
    got = one("f", v)
    I.check("filter", got == want and (not isinstance(want, tuple) or got[2] is want[2]))


@contract("C04", functions=FD, doc=(
    "a ', '-separated value is membership of all its parts, negated when every part starts with '-', and an error "
    "when only some do, for lists of any length"))
def list_values(I):
    no_dates(I)
    items = I.list("items", lambda x: {"neg": x.bool("neg"), "t": x.str("t", nonempty=True, exclude="-, ")}, min=2, max=2)
    v = ", ".join(("-" if x["neg"] else "") + x["t"] for x in items)
    first = v.split(" ")[0]
    o = I.outcome(lambda: one("f", v))
    negs = [x["neg"] for x in items]
    if all(negs) or not any(negs):
        I.check("accepted", o.ok)
        I.check_eq("filter", o.value, ("f", "isnotin" if all(negs) else "isin", [x["t"] for x in items]))
    else:
        I.check("mixed is rejected", not o.ok and o.exc_type == "QueryError")


@contract("C04", functions=FD, doc="comparison prefixes select the operator and compare with the number that follows")
def numeric_values(I):
    no_dates(I)
    sym, exp = I.choice("symbol", [("<=", "less_or_equal_than"), (">=", "greater_or_equal_than"), ("<>", "not_equal_to"),
                                   ("!=", "not_equal_to"), ("=", "equal_to"), (">", "greater_than"), ("<", "less_than")])
    num, val = I.choice("number", [("0", 0), ("12", 12), ("-3", -3), ("1.5", 1.5), ("100000", 100000)])
    sp = I.choice("blank", ["", " "])
    I.check_eq("filter", one("f", sym + sp + num), ("f", exp, val))


@contract("C04", functions=FD, doc="after / before / on / not on compare with the start of the given day")
def absolute_dates(I):
    no_dates(I)
    w, exp = I.choice("word", [("after", "greater_or_equal_than"), ("before", "less_or_equal_than"), ("on", "equal_to"), ("not on", "not_equal_to")])
    y, m, d = I.choice("y", ["2019", "2024"]), I.choice("m", ["01", "12"]), I.choice("d", ["01", "29", "31"])
    I.assume((y, m, d) != ("2019", "02", "29"))
    I.check_eq("filter", one("f", f"{w} {y}-{m}-{d}"), ("f", exp, f"{y}-{m}-{d}T00:00:00"))


CASE = FD + [M + "Filter.translate_looker_filters_to_sql"]


@contract("C04", functions=CASE, doc=(
    "a filtered measure aggregates its expression only where every one of its filters holds (all conditions, AND-ed), "
    "for any number of filters; rows outside give NULL, or 0 for a non-additive sum"))
def measure_filters(I):
    no_dates(I)
    sql = I.str("sql")
    fs = I.list("filters", lambda x: {"field": "v." + x.ident("f"), "value": x.str("v", nonempty=True, exclude="%-=<>! ,")}, min=1)
    I.assume(all(f["value"] not in ("NULL", "TRUE", "FALSE", "after", "before", "on") for f in fs))
    p = mk_project([view_dict("v", [])])
    else_0 = I.choice("else_0", [False, True])
    got = Filter.translate_looker_filters_to_sql(sql, fs, p.get_view("v"), else_0=else_0)
    conds = " and ".join("${" + f["field"] + "}=" + q(f["value"]) for f in fs)
    I.check_eq("case", got, f"case when {conds} then {sql} else 0 end" if else_0 else f"case when {conds} then {sql} end")


@contract("C04", functions=["metrics_layer.core.sql.query_filter:MetricsLayerFilter.validate", "metrics_layer.core.sql.query_filter:MetricsLayerFilter.__init__", "metrics_layer.core.sql.query_filter:MetricsLayerFilter.criterion"], weight=2, doc=(
    "a condition that needs no value (null or not, true or not) is the same whether a value is left out or empty, on every warehouse and on every type of field, alone and in groups"))
def no_value(I):
    from contracts.lib import WAREHOUSES, conn, dim, measure, rendered

    wh = I.choice("warehouse", WAREHOUSES)
    a, b = I.str("before", exclude="${}\n%"), I.str("after", exclude="${}\n%")
    kind = I.choice("field", ["string", "yesno", "number", "date", "measure"])
    expression = I.choice("expression", ["is_null", "is_not_null"] + (["boolean_true", "boolean_false"] if kind == "yesno" else []))
    text = a + "(${TABLE}.x" + b + ")"
    made = {"name": "x", "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw"], "sql": text}
    x = {"measure": measure("x", "max", text), "date": made}[kind] if kind in ("measure", "date") else dim("x", text, type=kind)
    p = mk_project([view_dict("a_v", [dim("id", primary_key=True), x, measure("s", "min")])])
    f = {"field": "a_v.x" + ("_raw" if kind == "date" else ""), "expression": expression, **I.choice("value", [{}, {"value": None}])}
    if I.bool("in a group"):
        f = {"logical_operator": "AND", "conditions": [f]}
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["s"], dimensions=[], query_type=wh, **{"having" if kind == "measure" else "where": [f]}))
    col = a + "(a_v.x" + b + ")"
    col = rendered("(" + col + ")") if kind == "yesno" else ("MAX(" + rendered(col) + ")" if kind == "measure" else rendered(col))
    cond = {"is_null": col + " IS NULL", "is_not_null": "NOT " + col + " IS NULL", "boolean_true": col, "boolean_false": "NOT " + col}[expression]
    I.check_eq("sql", got.value, "SELECT MIN(a_v.s) as a_v_s FROM t_a_v a_v " + ("HAVING " if kind == "measure" else "WHERE ") + cond
               + (" ORDER BY a_v_s DESC NULLS LAST" if wh in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB") else "") + ("" if wh in ("DRUID", "TRINO") else ";"))
