from contracts.lib import conn, dim, measure, mk_project, plain_value, rendered, view_dict
from pyvc.api import contract

F = "metrics_layer.core.model.field:Field."
FN = [F + "replace_fields", F + "_replace_sql_query", F + "get_replaced_sql_query", F + "get_field_with_view_info", F + "raw_sql_query",
      F + "required_views", F + "_get_required_views_from_sql", F + "sql", "metrics_layer.core.model.base:SQLReplacement.fields_to_replace"]
KEYA = [{"name": "k", "type": "foreign", "sql": "${k}"}]
KEYB = [{"name": "k", "type": "primary", "sql": "${k}"}]
JOIN = " LEFT JOIN t_b_v b_v ON a_v.k=b_v.k"


def piece(I, name):
    return I.str(name, exclude="${}\n%")


def column(I, name):
    """the SQL of a referenced field: its own table's column inside arbitrary text"""
    a, b = piece(I, name + " before"), piece(I, name + " after")
    return lambda table: a + "(" + table + ".c)" + b


def project(I, fields=(), b_fields=()):
    """a_v has kf, made (a time group), chain (built on kf); b_v has kf; fields are a_v's own"""
    ta, tb, tm = column(I, "a"), column(I, "b"), column(I, "made")
    base = [dim("id", primary_key=True), dim("k"), dim("kf", ta("${TABLE}")), dim("chain", "${kf} + ${TABLE}.z + ${kf}"),
            {"name": "made", "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw", "month"], "sql": tm("${TABLE}")},
            {"name": "lag", "field_type": "dimension_group", "type": "duration", "intervals": ["day"], "sql_start": "${made_raw}", "sql_end": "${b_v.kf}"}]
    p = mk_project([
        view_dict("a_v", base + list(fields), identifiers=KEYA),
        view_dict("b_v", [dim("id", primary_key=True), dim("k"), dim("kf", tb("${TABLE}"))] + list(b_fields), identifiers=KEYB),
    ])
    a, b, m = rendered(ta("a_v")), rendered(tb("b_v")), rendered(tm("a_v"))
    means = {
        "kf": a, "a_v.kf": a, "KF": a, "b_v.kf": b, "b_v.KF": b, "TABLE": "a_v",
        "chain": rendered(a + " + a_v.z + " + a),
        "made_raw": m, "made_month": "DATE_TRUNC('MONTH', " + m + ")",
        "days_lag": "DATEDIFF('DAY', " + m + ", " + b + ")",
    }
    return p, means


def text(I, refs):
    """SQL with the references in arbitrary text -> (declared, what it means)"""
    parts = [piece(I, "text" + str(i)) for i in range(len(refs) + 1)]

    def fill(f):
        out = parts[0]
        for r, t in zip(refs, parts[1:]):
            out = out + "[" + f(r) + "]" + t
        return out

    return fill(lambda r: "${" + r + "}"), lambda means, left="", right="": rendered(left + fill(lambda r: means[r]) + right)


REFS = [["kf"], ["a_v.kf"], ["KF", "kf"], ["b_v.kf"], ["chain", "kf", "kf"], ["made_month", "made_raw"], ["TABLE", "b_v.KF", "TABLE"], ["days_lag"]]


def frm(refs):
    return " FROM t_a_v a_v" + (JOIN if any([r in ("b_v.kf", "b_v.KF", "days_lag") for r in refs]) else "")


@contract("C08", functions=FN, weight=2, doc=(
    "wherever a dimension or measure's SQL references fields (own or qualified, of this or another view, time and duration groups, chained), each reference means "
    "the referenced field's own SQL and the surrounding text is kept; the referenced views are joined in"))
def consumers(I):
    refs = I.choice("references", REFS)
    sql, means = text(I, refs)
    kind = I.choice("consumer", ["dimension", "yesno", "sum", "max", "count_distinct", "time"])
    if kind == "time":
        f = {"name": "x", "field_type": "dimension_group", "type": "time", "datatype": "date", "timeframes": ["raw", "year"], "sql": sql}
    elif kind in ("dimension", "yesno"):
        f = dim("x", sql, type="string" if kind == "dimension" else "yesno")
    else:
        f = measure("x", kind, sql)
    p, m = project(I, [f])
    s = means(m, "(", ")") if kind == "yesno" else means(m)
    if kind in ("dimension", "yesno", "time"):
        name, col = {"dimension": ("x", s), "yesno": ("x", s), "time": ("x_year", "DATE_TRUNC('YEAR', " + s + ")")}[kind]
        got = I.outcome(lambda: conn(p).get_sql_query(metrics=[], dimensions=["a_v." + name], query_type="SNOWFLAKE"))
        want = "SELECT " + col + " as a_v_" + name + frm(refs) + " GROUP BY " + col + " ORDER BY a_v_" + name + " ASC NULLS LAST;"
    else:
        col = {"sum": "SUM(" + s + ")", "max": "MAX(" + s + ")", "count_distinct": "COUNT(DISTINCT(" + s + "))"}[kind]
        got = I.outcome(lambda: conn(p).get_sql_query(metrics=["a_v.x"], dimensions=[], query_type="SNOWFLAKE"))
        want = "SELECT " + col + " as a_v_x" + frm(refs) + " ORDER BY a_v_x DESC NULLS LAST;"
    I.check_eq("sql", got.value, want)


@contract("C08", functions=FN + [F + "_number_aggregate_sql", F + "get_referenced_sql_query", F + "referenced_fields"], doc=(
    "a number measure means its own text with each referenced measure replaced by that measure's aggregate as one operand, through any "
    "nesting of number measures, and joins in the views of every measure it reaches"))
def numbers(I):
    t = [I.str("text" + str(i), exclude="${}\n%") for i in range(5)]
    c, f = column(I, "c"), column(I, "f")
    name = I.choice("inner", ["inner", "a_v.inner", "Inner"])
    other = I.choice("far", ["b_v.far", "b_v.FAR"])
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("k"), measure("s", "sum", c("${TABLE}")),
                          measure("inner", "number", t[0] + "${s}" + t[1] + "${" + other + "}" + t[2]),
                          measure("outer", "number", t[3] + "${" + name + "} / ${s}" + t[4])],
                  identifiers=[{"name": "k", "type": "primary", "sql": "${k}"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("k"), measure("far", "max", f("${TABLE}"))],
                  identifiers=[{"name": "k", "type": "primary", "sql": "${k}"}]),
    ])
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["outer"], dimensions=[], query_type="POSTGRES"))
    s = "(SUM(" + rendered(c("a_v")) + "))"
    inner = t[0] + s + t[1] + "(MAX(" + rendered(f("b_v")) + "))" + t[2]
    frm = I.choice("base", [" FROM t_a_v a_v LEFT JOIN t_b_v b_v ON a_v.k=b_v.k"])
    I.check_eq("sql", got.value, "SELECT " + t[3] + "(" + inner + ") / " + s + t[4] + " as a_v_outer" + frm + ";")


@contract("C08", functions=FN, doc="a filter on a measure whose column, and whose filtered field, reference other fields uses what they mean")
def filtered_measure(I):
    refs = I.choice("references", [["kf"], ["b_v.kf"], ["chain", "KF"]])
    sql, means = text(I, refs)
    tail = I.str("tail", exclude="${}\n%")
    v = plain_value(I, "v")
    p, m = project(I, [dim("g", "${kf}" + tail), measure("x", "sum", sql, filters=[{"field": "g", "value": v}])])
    g = rendered(m["kf"] + tail)
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["a_v.x"], dimensions=[], query_type="SNOWFLAKE"))
    case = means(m, "case when " + g + "='" + v + "' then ", " end")
    I.check_eq("sql", got.value, "SELECT SUM(" + case + ") as a_v_x" + frm(refs) + " ORDER BY a_v_x DESC NULLS LAST;")


@contract("C08", functions=FN, doc="a query through a reference to something that does not exist is refused")
def unknown(I):
    n = I.ident("name")
    I.assume(n.lower() not in ("id", "k", "kf", "chain", "x", "made_raw", "made_month", "days_lag", "count", "table"))
    ref = I.choice("as", [n, "a_v." + n, "b_v." + n])
    kind = I.choice("consumer", ["dimension", "sum", "number"])
    f = dim("x", "${" + ref + "}") if kind == "dimension" else measure("x", kind, "${" + ref + "}")
    p, m = project(I, [f])
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=[] if kind == "dimension" else ["a_v.x"], dimensions=["a_v.x"] if kind == "dimension" else [], query_type="SNOWFLAKE"))
    I.check("refused", not got.ok)


@contract("C08", functions=FN, doc=(
    "references are followed through other views, wherever the query uses the field (selected, filtered or aggregated): every view on "
    "the way is joined in, and the outermost text is kept around what they mean"))
def through_views(I):
    t, u, z = [(piece(I, n + "0"), piece(I, n + "1")) for n in ("x", "y", "z")]
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("k"), dim("d"), dim("x", t[0] + "(${b_v.y})" + t[1]), measure("n", "max", "${x}"), measure("m", "number", "${n} + 1")],
                  identifiers=[{"name": "k", "type": "foreign", "sql": "${k}"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("k"), dim("k2"), dim("y", u[0] + "(${c_v.z})" + u[1])],
                  identifiers=[{"name": "k", "type": "primary", "sql": "${k}"}, {"name": "k2", "type": "foreign", "sql": "${k2}"}]),
        view_dict("c_v", [dim("id", primary_key=True), dim("k2"), dim("z", z[0] + "(${TABLE}.w)" + z[1])],
                  identifiers=[{"name": "k2", "type": "primary", "sql": "${k2}"}]),
    ])
    x = rendered(t[0] + "(" + rendered(u[0] + "(" + rendered(z[0] + "(c_v.w)" + z[1]) + ")" + u[1]) + ")" + t[1])
    use = I.choice("use", ["selected", "where", "having", "measure", "number"])
    v = plain_value(I, "v")
    ask, where, having = {"selected": "x", "measure": "n", "number": "m"}.get(use, "d"), [], []
    if use == "where":
        where = [{"field": "a_v.x", "expression": "equal_to", "value": v}]
    if use == "having":
        having = [{"field": "a_v.m", "expression": "greater_than", "value": v}]
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=[ask] if use in ("measure", "number") else [], dimensions=[ask] if ask in "xd" else [],
                                                  where=where, having=having, query_type="SNOWFLAKE"))
    col = {"x": x, "d": "a_v.d", "n": "MAX(" + x + ")", "m": "(MAX(" + x + ")) + 1"}[ask]
    sql = "SELECT " + col + " as a_v_" + ask + " FROM t_a_v a_v LEFT JOIN t_b_v b_v ON a_v.k=b_v.k LEFT JOIN t_c_v c_v ON b_v.k2=c_v.k2"
    if use == "where":
        sql += " WHERE " + x + "='" + v + "'"
    if ask in "xd":
        sql += " GROUP BY " + col
    if use == "having":
        sql += " HAVING (MAX(" + x + ")) + 1>'" + v + "'"
    I.check_eq("sql", got.value, sql + " ORDER BY a_v_" + ask + (" ASC" if ask in "xd" else " DESC") + " NULLS LAST;")
