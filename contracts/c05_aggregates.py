from itertools import combinations

from pyvc.api import contract

from contracts.lib import SYMMETRIC, TREES, WAREHOUSES, conn, join_tree, mk_project, rendered, unique_in, view_dict

from metrics_layer.core.exceptions import QueryError

F = "metrics_layer.core.model.field:Field."


def spec_sum(wh, sql, pk):
    if wh == "BIGQUERY":
        adj = f"(CAST(FLOOR(COALESCE({sql}, 0) * (1000000 * 1.0)) AS FLOAT64))"
        h = f"CAST(FARM_FINGERPRINT(CAST({pk} AS STRING)) AS BIGNUMERIC)"
        ty = "FLOAT64"
    else:
        adj = f"(CAST(FLOOR(COALESCE({sql}, 0) * (1000000 * 1.0)) AS DECIMAL(38,0)))"
        ty = "DOUBLE PRECISION"
        if wh == "SNOWFLAKE":
            h = f"(TO_NUMBER(MD5({pk}), 'XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX') % 1.0e27)::NUMERIC(38, 0)"
        elif wh == "REDSHIFT":
            h = f"(FARMFINGERPRINT64({pk}))::NUMERIC(38, 0)"
        else:
            h = f"(HASHTEXTEXTENDED({pk}, 0))::NUMERIC(38, 0)"
    return f"COALESCE(CAST((SUM(DISTINCT {adj} + {h}) - SUM(DISTINCT {h})) AS {ty}) / CAST((1000000*1.0) AS {ty}), 0)"


def spec_count(sql, pk):
    return f"NULLIF(COUNT(DISTINCT CASE WHEN  ({sql})  IS NOT NULL THEN  {pk}  ELSE NULL END), 0)"


def setup(I, mtype, has_pk, extra=None):
    col = I.str("col", exclude="${}")
    pkcol = I.str("pkcol", exclude="${}")
    m = {"name": "total", "field_type": "measure", "type": mtype, "sql": "${TABLE}." + col, **(extra or {})}
    fields = [m]
    if has_pk:
        fields.append({"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}." + pkcol, "primary_key": True})
    p = mk_project([view_dict("v", fields), view_dict("w", [
        {"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}.wid", "primary_key": True}])])
    v = p.get_view("v")
    f = [x for x in v.fields() if x.name == "total"][0]
    return p, v, f, col, pkcol


@contract("C05", functions=[F + "sql_query", F + "aggregate_sql_query"], doc=(
    "sum/count/average of a measure are plain aggregates exactly when the query's functional key is the "
    "measure's own primary key (or unset, or the warehouse lacks symmetric aggregates), and deduplicate on the "
    "view's primary key otherwise"))
def plain_and_symmetric(I):
    wh = I.choice("warehouse", WAREHOUSES)
    mtype = I.choice("type", ["sum", "count", "average", "max", "min", "count_distinct"])
    p, v, f, col, pkcol = setup(I, mtype, True)
    which = I.choice("functional_pk", ["none", "own", "other", "not_derivable"])
    fpk = None
    if which == "own":
        fpk = v.primary_key
    elif which == "other":
        fpk = p.get_view("w").primary_key
    elif which == "not_derivable":
        fpk = "__DOES_NOT_EXIST__"
    got = f.sql_query(wh, functional_pk=fpk)
    sql, pk = rendered(f"v.{col}"), rendered(f"v.{pkcol}")
    dedupe = wh in SYMMETRIC and which in ("other", "not_derivable")
    plain = {"sum": "SUM", "count": "COUNT", "average": "AVG", "max": "MAX", "min": "MIN"}
    if mtype == "count_distinct":
        want = f"COUNT(DISTINCT({sql}))"
    elif not dedupe or mtype in ("max", "min"):
        want = f"{plain[mtype]}({sql})"
    elif mtype == "sum":
        want = spec_sum(wh, sql, pk)
    elif mtype == "count":
        want = spec_count(sql, pk)
    else:
        want = f"({spec_sum(wh, sql, pk)} / {spec_count(sql, pk)})"
    I.check_eq("aggregate", got, want)


@contract("C05", functions=[F + "sql_query"], doc=(
    "sum_distinct/average_distinct deduplicate on the declared distinct key whatever the functional key, and are "
    "rejected where the warehouse has no symmetric aggregates"))
def distinct_types(I):
    wh = I.choice("warehouse", WAREHOUSES)
    mtype = I.choice("type", ["sum_distinct", "average_distinct"])
    key = I.str("key", exclude="${}")
    p, v, f, col, pkcol = setup(I, mtype, True, {"sql_distinct_key": "${TABLE}." + key})
    which = I.choice("functional_pk", ["none", "own", "not_derivable"])
    fpk = {"none": None, "own": v.primary_key, "not_derivable": "__DOES_NOT_EXIST__"}[which]
    o = I.outcome(lambda: f.sql_query(wh, functional_pk=fpk))
    if wh not in SYMMETRIC:
        I.check("rejected", not o.ok and o.exc_type == "QueryError")
        return
    sql, k = rendered(f"v.{col}"), rendered(f"v.{key}")
    s = spec_sum(wh, sql, k)
    I.check("accepted", o.ok)
    I.check_eq("aggregate", o.value, s if mtype == "sum_distinct" else f"({s} / {spec_count(sql, k)})")


@contract("C05", functions=[F + "sql_query"], doc=(
    "median is emitted only where the warehouse has it; an unknown aggregate type is rejected; min, max, median and "
    "count_distinct do not depend on the functional key"))
def order_statistics(I):
    wh = I.choice("warehouse", WAREHOUSES)
    mtype = I.choice("type", ["median", "max", "min", "count_distinct", "percentile"])
    p, v, f, col, pkcol = setup(I, mtype, I.choice("has_pk", [True, False]))
    fpk = I.choice("functional_pk", [None, "__DOES_NOT_EXIST__"])
    o = I.outcome(lambda: f.sql_query(wh, functional_pk=fpk))
    unsupported = wh in {"DRUID", "POSTGRES", "BIGQUERY", "SQL_SERVER", "AZURE_SYNAPSE", "TRINO"}
    if mtype == "percentile" or (mtype == "median" and unsupported):
        I.check("rejected", not o.ok and o.exc_type == "QueryError")
        return
    fn = {"median": "MEDIAN(", "max": "MAX(", "min": "MIN(", "count_distinct": "COUNT(DISTINCT("}[mtype]
    I.check("accepted", o.ok)
    I.check_eq("aggregate", o.value, fn + rendered(f"v.{col}") + (")" if mtype != "count_distinct" else "))"))


@contract("C05", functions=[F + "sql_query"], doc=(
    "a measure that would need a symmetric aggregate in a view without a primary key is an error, never a plain "
    "(fanned-out) aggregate"))
def missing_primary_key(I):
    wh = I.choice("warehouse", WAREHOUSES)
    mtype = I.choice("type", ["sum", "count", "average"])
    p, v, f, col, pkcol = setup(I, mtype, False)
    fpk = I.choice("functional_pk", [None, "__DOES_NOT_EXIST__", "other"])
    if fpk == "other":
        fpk = p.get_view("w").primary_key
    o = I.outcome(lambda: f.sql_query(wh, functional_pk=fpk))
    if fpk is not None and wh in SYMMETRIC:
        I.check("rejected", not o.ok and o.exc_type == "QueryError")
        return
    fn = {"sum": "SUM", "count": "COUNT", "average": "AVG"}[mtype]
    I.check("accepted", o.ok)
    I.check_eq("aggregate", o.value, f"{fn}({rendered(f'v.{col}')})")


@contract("C05", functions=[F + "sql_query"], doc=(
    "a count without sql counts the view's primary key (rows when there is none) and deduplicates on it under fan-out"))
def default_count(I):
    wh = I.choice("warehouse", WAREHOUSES)
    has_pk = I.choice("has_pk", [True, False])
    pkcol = I.str("pkcol", exclude="${}")
    fields = [{"name": "total", "field_type": "measure", "type": "count"}]
    if has_pk:
        fields.append({"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}." + pkcol, "primary_key": True})
    p = mk_project([view_dict("v", fields)])
    v = p.get_view("v")
    f = [x for x in v.fields() if x.name == "total"][0]
    fan = I.choice("fan_out", [True, False]) if has_pk else False
    got = f.sql_query(wh, functional_pk="__DOES_NOT_EXIST__" if fan else (v.primary_key if has_pk else None))
    pk = rendered(f"v.{pkcol}") if has_pk else "*"
    I.check_eq("count", got, spec_count(pk, pk) if fan and wh in SYMMETRIC else f"COUNT({pk})")


@contract("C05", functions=[F + "sql_query"], doc=(
    "a number measure substitutes every reference by the referenced measure's own (fan-out safe) aggregate, in "
    "parentheses, under the same functional key"))
def number_measures(I):
    wh = I.choice("warehouse", WAREHOUSES)
    c1, c2, c3 = I.str("c1", exclude="${}"), I.str("c2", exclude="${}"), I.str("c3", exclude="${}")
    pkcol, wkcol = I.str("pk", exclude="${}"), I.str("wk", exclude="${}")
    op = I.str("op", exclude="${}%")
    fields = [
        {"name": "a", "field_type": "measure", "type": "sum", "sql": "${TABLE}." + c1},
        {"name": "b", "field_type": "measure", "type": "count", "sql": "${TABLE}." + c2},
        {"name": "ratio", "field_type": "measure", "type": "number", "sql": "x" + op + "${a}" + op + "${v.b}" + op + "${w.c}"},
        {"name": "id", "field_type": "dimension", "type": "string", "sql": "${TABLE}." + pkcol, "primary_key": True},
    ]
    other = [
        {"name": "c", "field_type": "measure", "type": "sum", "sql": "${TABLE}." + c3},
        {"name": "wid", "field_type": "dimension", "type": "string", "sql": "${TABLE}." + wkcol, "primary_key": True},
    ]
    p = mk_project([view_dict("v", fields), view_dict("w", other)])
    v, w = p.get_view("v"), p.get_view("w")
    f = [x for x in v.fields() if x.name == "ratio"][0]
    which = I.choice("functional_pk", ["none", "v", "w", "not_derivable"])
    fpk = {"none": None, "v": v.primary_key, "w": w.primary_key, "not_derivable": "__DOES_NOT_EXIST__"}[which]
    got = f.sql_query(wh, functional_pk=fpk)
    s1, s2, s3 = rendered(f"v.{c1}"), rendered(f"v.{c2}"), rendered(f"w.{c3}")
    pk, wk = rendered(f"v.{pkcol}"), rendered(f"w.{wkcol}")
    dedupe = wh in SYMMETRIC and which != "none"
    a = spec_sum(wh, s1, pk) if dedupe and which != "v" else f"SUM({s1})"
    b = spec_count(s2, pk) if dedupe and which != "v" else f"COUNT({s2})"
    c = spec_sum(wh, s3, wk) if dedupe and which != "w" else f"SUM({s3})"
    I.check_eq("number", got, f"x{op}({a}){op}({b}){op}({c})")


D = "metrics_layer.core.sql.query_design:MetricsLayerDesign."


@contract("C05", functions=[D + "functional_pk", D + "_derive_primary_key_view", D + "joins", F + "aggregate_sql_query"],
          kind="exhaustive", doc=(
    "for every join tree of up to four views and every relationship on each edge: a sum over a view is a plain SUM only when the "
    "joined rows are unique on that view's primary key, and deduplicates on that key otherwise"))
def fan_out(I):
    parents = I.choice("tree", TREES)
    n = len(parents) + 1
    names = I.choice("names", [["a_v", "b_v", "c_v", "d_v"], ["d_v", "c_v", "b_v", "a_v"], ["b_v", "d_v", "a_v", "c_v"]])[:n]
    rels = [I.choice("rel" + str(i), ["m1", "1m", "11", "mm"]) for i in range(n - 1)]
    p = mk_project(join_tree(names, parents, rels, True))
    sql = conn(p).get_sql_query(metrics=[x + ".s" for x in names], dimensions=[x + ".d" for x in names], single_query=True, query_type="SNOWFLAKE")
    for k, x in enumerate(names):
        plain = f"SUM({x}.s) as {x}_s" in sql
        dedup = spec_sum("SNOWFLAKE", x + ".s", x + ".id") + f" as {x}_s" in sql
        I.check("deduplicated or plain", plain != dedup)
        I.check("plain only when the rows are unique on the view's key", dedup or unique_in(k, parents, rels))


@contract("C05", functions=[D + "functional_pk", D + "_derive_primary_key_view", D + "joins", F + "aggregate_sql_query"],
          kind="exhaustive", doc="likewise when the query uses only some of the views and the ones between them are joined in")
def fan_out_bridged(I):
    parents = I.choice("tree", [t for t in TREES if len(t) > 1])
    n = len(parents) + 1
    names = I.choice("names", [["a_v", "b_v", "c_v", "d_v"], ["d_v", "c_v", "b_v", "a_v"]])[:n]
    rels = [I.choice("rel" + str(i), ["m1", "1m", "11", "mm"]) for i in range(n - 1)]
    used = I.choice("used", [u for k in range(2, n) for u in combinations(range(n), k)])
    p = mk_project(join_tree(names, parents, rels, True))
    sql = conn(p).get_sql_query(metrics=[names[k] + ".s" for k in used], dimensions=[names[k] + ".d" for k in used],
                                single_query=True, query_type="SNOWFLAKE")
    joined = [k for k in range(n) if f"t_{names[k]} {names[k]}" in sql]
    for k in used:
        x = names[k]
        plain = f"SUM({x}.s) as {x}_s" in sql
        dedup = spec_sum("SNOWFLAKE", x + ".s", x + ".id") + f" as {x}_s" in sql
        I.check("deduplicated or plain", plain != dedup)
        I.check("plain only when the rows are unique on the view's key", dedup or unique_in(k, parents, rels, joined))
