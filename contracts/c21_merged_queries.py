"""C21: merged queries join the results of whole queries on the fields asked for, and filter, order and limit the joined rows."""
from contracts.c15_mapping import W, column, date
from contracts.lib import WAREHOUSES, conn, dim, measure, mk_project, model_dict, plain_value, q, view_dict
from pyvc.api import contract

from metrics_layer.core.sql.resolve import SQLQueryResolver

A = "metrics_layer.core.sql.arbitrary_merge_resolve:ArbitraryMergedQueryResolver."
M = "metrics_layer.core.sql.query_arbitrary_merged_queries:MetricsLayerMergedQueries."
FN = [A + x for x in ("get_query", "_init_resolver", "_resolve_join_fields_mappings", "_resolve_join_logic", "_add_mapping_lookup", "validate_arbitrary_merged_queries")]
FN += [M + x for x in ("get_query", "build_cte_from", "_build_join_criteria", "get_select_columns")]
FN += ["metrics_layer.core.sql.query_base:MetricsLayerQueryBase." + x for x in ("get_where_with_aliases", "pypika_join_type_lookup")]
FN += ["metrics_layer.core.sql.query_filter:MetricsLayerFilter." + x for x in ("sql_query", "group_sql_query", "_handle_cte_alias_replacement")]


def shop(I, **more):
    """three views nothing links: each with a measure, a few dimensions and a date"""
    def view(n, dims, ms, **kw):
        return view_dict(n, [dim("id", primary_key=True), *dims, date("at_" + n[0], **kw.pop("day", {})), *ms], default_date="at_" + n[0], **kw)

    return mk_project([
        view("a_v", [dim("region", column(I, "region")), dim("kind", column(I, "kind")), dim("price", type="number")], [measure("s"), measure("top", "max")],
             access_filters=[{"field": "a_v.kind", "user_attribute": "kind"}]),
        view("b_v", [dim("zone", column(I, "zone")), dim("sort")], [measure("t"), measure("ratio", "number", "${t} / ${n}"), measure("n", "count")]),
        view("c_v", [dim("spot"), dim("shape")], [measure("w", "average")], day={"datatype": "date"}),
    ], models=[model_dict(mappings={"place": {"fields": ["b_v.zone", "a_v.region", "c_v.spot"]}, "much": {"fields": ["b_v.t", "a_v.s"]}}, **more)])


def alone(p, query, warehouse):
    """the query of one of the merged queries by itself (what it must be is the matter of the other properties)"""
    r = SQLQueryResolver(project=p, connections=[], query_type=warehouse, **{k: v for k, v in query.items() if k not in ("join_fields", "join_type")})
    return r.get_query(semicolon=False)


def merged(p, queries, columns, joins, warehouse="SNOWFLAKE", where=None, order=None, limit=None):
    """the expected text: every query under its own name, joined one by one to the first"""
    ctes = " ,".join(f"merged_query_{i} AS (" + alone(p, one, warehouse) + ")" for i, one in enumerate(queries))
    top = warehouse in ("SQL_SERVER", "AZURE_SYNAPSE")
    text = "WITH " + ctes + " SELECT " + (f"TOP ({limit}) " if top and limit is not None else "")
    text += ",".join(f"merged_query_{i}.{c} as {c}" for i, c in columns) + " FROM merged_query_0"
    for i, (kind, pairs) in enumerate(joins):
        text += f" {kind} merged_query_{i + 1} ON " + " and ".join(f"{first}={mine}" for first, mine in pairs)
    if where:
        text += " WHERE " + where
    if order:
        text += " ORDER BY " + ",".join(order)
    if limit is not None and not top:
        text += f" LIMIT {limit}"
    return text + ("" if warehouse in ("DRUID", "TRINO") else ";")


def link(mine, first):
    return {"field": mine, "source_field": first}


JOIN = {None: "LEFT JOIN", "left_outer": "LEFT JOIN", "inner": "JOIN", "full_outer": "FULL OUTER JOIN"}
KIND = {"kind": "x"}
A_B, A_C = link("b_v.zone", "a_v.region"), link("c_v.spot", "a_v.region")
ON_B, ON_C = ("merged_query_0.a_v_region", "merged_query_1.b_v_zone"), ("merged_query_0.a_v_region", "merged_query_2.c_v_spot")


@contract("C21", functions=FN, weight=3, doc=(
    "two queries: each is the query it would be by itself, the second joined to the first on every pair of fields given with the join asked for; the columns are the first's "
    "and the second's but for the fields it is joined on; on every warehouse"))
def joined(I):
    w = I.choice("warehouse", WAREHOUSES)
    kind = I.choice("join", sorted(JOIN, key=str))
    fields = I.choice("join fields", ["one", "two", "two, restricted user"])
    two = fields != "one"
    v = plain_value(I, "value")
    p = shop(I)
    first = {"metrics": ["s", "top"], "dimensions": ["region", "kind"], "where": [W("kind", "not_equal_to", v)]}
    second = {"metrics": ["t"], "dimensions": ["b_v.zone", "sort"], "join_fields": [A_B] + ([link("b_v.sort", "a_v.kind")] if two else []), "limit": 7}
    if kind is not None:
        second["join_type"] = kind
    user = {"kind": "x"} if "user" in fields else None
    got = I.outcome(lambda: conn(p, user).get_sql_query(merged_queries=[first, second], query_type=w))
    I.check("answered", got.ok)
    columns = [(0, "a_v_s"), (0, "a_v_top"), (0, "a_v_region"), (0, "a_v_kind"), (1, "b_v_t")] + ([] if two else [(1, "b_v_sort")])
    pairs = [ON_B] + ([("merged_query_0.a_v_kind", "merged_query_1.b_v_sort")] if two else [])
    I.check_eq("sql", got.value, merged(p, [first, second], columns, [(JOIN[kind], pairs)], w))


@contract("C21", functions=FN, weight=3, doc=(
    "any number of queries (up to four), of other views or of the same, each joined to the first on its own fields, in the order given, with its own filters, order and limit inside"))
def several(I):
    names = I.choice("queries", ["bc", "cb", "c", "bcb", "ccb", "aa", "ab", "baa"])
    kinds = I.choice("joins", [["inner", None, "full_outer"], [None, "left_outer", "inner"]])
    v = plain_value(I, "value")
    k = I.int("limit", 0, None)
    p = shop(I)
    queries = [{"metrics": ["s"], "dimensions": ["region"], "order_by": [{"field": "s", "sort": "asc"}], "limit": k}]
    columns, joins, seen = [(0, "a_v_s"), (0, "a_v_region")], [], set()
    for i, n in enumerate(names):
        if n == "a":
            one = {"metrics": ["top"], "dimensions": ["region", "a_v.kind"], "join_fields": [link("a_v.region", "a_v.region")]}
            columns += [(i + 1, c) for c in ("a_v_top", "a_v_kind") if "a" not in seen]
        elif n == "b":
            one = {"metrics": ["t", "ratio"], "dimensions": ["zone"], "where": [{"logical_operator": "OR", "conditions": [W("sort", "equal_to", v), W("zone", "is_null", None)]}], "join_fields": [A_B]}
            columns += [(i + 1, c) for c in ("b_v_t", "b_v_ratio") if "b" not in seen]
        else:
            one = {"metrics": ["w"], "dimensions": ["shape", "spot"], "having": [W("w", "greater_than", k)], "where": "${c_v.shape} = 'x' or ${c_v.spot} is null", "join_fields": [A_C]}
            columns += [(i + 1, c) for c in ("c_v_w", "c_v_shape") if "c" not in seen]
        seen.add(n)
        if kinds[i]:
            one["join_type"] = kinds[i]
        queries.append(one)
        joins.append((JOIN[kinds[i]], [("merged_query_0.a_v_region", f"merged_query_{i + 1}." + {"a": "a_v_region", "b": "b_v_zone", "c": "c_v_spot"}[n])]))
    got = I.outcome(lambda: conn(p).get_sql_query(merged_queries=queries, query_type="SNOWFLAKE"))
    I.check("answered", got.ok)
    I.check_eq("sql", got.value, merged(p, queries, columns, joins))


FIRST = {"metrics": ["s", "top"], "dimensions": ["region", "price"]}
SECOND = {"metrics": ["t"], "dimensions": ["zone", "sort"], "join_fields": [A_B]}
COLUMNS = [(0, "a_v_s"), (0, "a_v_top"), (0, "a_v_region"), (0, "a_v_price"), (1, "b_v_t"), (1, "b_v_sort")]


@contract("C21", functions=FN, weight=3, doc=(
    "filters of the whole, on dimensions and measures of either query and in groups, restrict the joined rows and nothing inside the queries; order and limit are the whole's too"))
def afterwards(I):
    w = I.choice("warehouse", ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "SQL_SERVER", "DRUID"])
    v, k = plain_value(I, "value"), I.int("bound")
    uses = I.choice("uses", ["filter", "group", "order", "all"])
    limit = I.opt("limited", lambda J: J.int("limit", 0, None))
    p = shop(I)
    kw, conditions, order = {}, [], []
    region, sort, t, s = "merged_query_0.a_v_region", "merged_query_1.b_v_sort", "merged_query_1.b_v_t", "merged_query_0.a_v_s"
    if uses in ("filter", "all"):
        kw["where"] = [W("region", "equal_to", v), W("b_v.sort", "not_equal_to", v)]
        kw["having"] = [W("t", "greater_than", k), W("a_v.s", "less_or_equal_than", k)]
        conditions += [f"{region}=" + q(v), f"{sort}<>" + q(v)]
    if uses in ("group", "all"):
        kw["where"] = kw.get("where", []) + [{"logical_operator": "OR", "conditions": [
            W("sort", "is_null", None), {"logical_operator": "AND", "conditions": [W("region", "equal_to", v), W("place", "is_not_null", None)]}]}]
        group = f"{sort} IS NULL OR ({region}=" + q(v) + " AND NOT merged_query_0.a_v_region IS NULL)"
        conditions.append("(" + group + ")" if uses == "all" else group)
    if uses in ("filter", "all"):
        conditions += [f"{t}>{k}", f"{s}<={k}"]
    if uses in ("order", "all"):
        kw["order_by"] = [{"field": "b_v.sort", "sort": "desc"}, {"field": "s"}, {"field": "much", "sort": "asc"}]
        nulls = "" if w in ("SQL_SERVER", "DRUID") else " NULLS LAST"
        order = [f"{sort} DESC" + nulls, f"{s} ASC" + nulls, f"{s} ASC" + nulls]
    first = {**FIRST, "metrics": ["much", "top"], "dimensions": ["place", "price"]}
    if limit is not None:
        kw["limit"] = limit
    got = I.outcome(lambda: conn(p).get_sql_query(merged_queries=[first, SECOND], query_type=w, **kw))
    I.check("answered", got.ok)
    I.check_eq("sql", got.value, merged(p, [FIRST, SECOND], COLUMNS, [("LEFT JOIN", [ON_B])], w, " AND ".join(conditions), order, limit))


@contract("C21", functions=FN, doc=(
    "the fields to join on may be named in any letter case, by a mapping name, or as dates, and mean the same: the field of each query; dates of unlike types are made alike on BigQuery"))
def join_fields(I):
    w = I.choice("warehouse", ["SNOWFLAKE", "BIGQUERY"])
    case, first, second, pair, on = I.choice("named", [
        ("upper", {"dimensions": ["region"]}, {"dimensions": ["zone"]}, link("B_V.ZONE", "A_V.Region"), ("a_v_region", "b_v_zone")),
        ("mapping", {"dimensions": ["region"]}, {"dimensions": ["zone"]}, link("place", "place"), ("a_v_region", "b_v_zone")),
        ("mapping in the query", {"dimensions": ["Place"]}, {"dimensions": ["place"]}, link("Place", "a_v.region"), ("a_v_region", "b_v_zone")),
        ("dates", {"dimensions": ["at_a_month"]}, {"dimensions": ["at_b_month"]}, link("b_v.at_b_month", "a_v.at_a_month"), ("a_v_at_a_month", "b_v_at_b_month")),
        ("date names", {"dimensions": ["week"]}, {"dimensions": ["week"]}, link("week", "week"), ("a_v_at_a_week", "b_v_at_b_week")),
    ])
    other = I.bool("third query")
    v = plain_value(I, "value")
    p = shop(I)
    first = {"metrics": ["s"], "where": [W("region", "equal_to", v)], **first}
    second = {"metrics": ["t"], **second, "join_fields": [pair]}
    plain = {"region": "region", "Place": "region", "at_a_month": "at_a_month", "week": "at_a_week"}
    queries = [{**first, "dimensions": [plain[d] for d in first["dimensions"]]}, {**second, "dimensions": [on[1][4:]]}]
    asked, columns, joins = [first, second], [(0, "a_v_s"), (0, on[0]), (1, "b_v_t")], [("LEFT JOIN", [("merged_query_0." + on[0], "merged_query_1." + on[1])])]
    if other and case in ("dates", "date names"):
        # the third view's dates are of another type
        frame = on[0][9:]
        third = {"metrics": ["w"], "dimensions": ["at_c_" + frame], "join_fields": [link("c_v.at_c_" + frame, "a_v.at_a_" + frame)]}
        asked, queries, columns = asked + [third], queries + [third], columns + [(2, "c_v_w")]
        ends = ("merged_query_0." + on[0], "merged_query_2.c_v_at_c_" + frame)
        joins.append(("LEFT JOIN", [tuple(f"CAST({e} AS TIMESTAMP)" for e in ends) if w == "BIGQUERY" else ends]))
    got = I.outcome(lambda: conn(p).get_sql_query(merged_queries=asked, query_type=w))
    I.check("answered", got.ok)
    I.check_eq("sql", got.value, merged(p, queries, columns, joins, w))


@contract("C21", functions=FN, doc=(
    "what cannot be joined or is not in the result is refused: a join field that its query or the first query does not select, queries without join fields, "
    "filters and orders of the whole by fields no query selects"))
def refused(I):
    second, kw = I.choice("request", [
        ({"join_fields": [link("b_v.sort", "a_v.region")]}, {}), ({"join_fields": [link("b_v.zone", "a_v.kind")]}, {}), ({"join_fields": [A_B, link("b_v.zone", "a_v.kind")]}, {}),
        ({"join_fields": [link("a_v.region", "a_v.region")]}, {}), ({"join_fields": [link("b_v.zone", "nothing")]}, {}), ({"join_fields": [link("place", "at_c_week")]}, {}),
        ({"dimensions": ["sort"], "join_fields": [link("place", "place")]}, {}), ({"dimensions": ["sort"], "join_fields": [link("b_v.sort", "place"), link("place", "place")]}, {}),
        ({"join_fields": []}, {}), ({"join_fields": None}, {}), ({"join_fields": [{"field": "b_v.zone"}]}, {}), ({"join_fields": [{"source_field": "a_v.region"}]}, {}),
        ({"join_fields": [{"field": None, "source_field": "a_v.region"}]}, {}), ({"metrics": "t"}, {}), ({"dimensions": None}, {}), ({"funnel": {"steps": []}, "join_fields": []}, {}),
        ({}, {"where": [W("kind", "equal_to", "x")]}), ({}, {"where": [W("sort", "equal_to", "x")]}), ({}, {"where": [W("b_v.zone", "equal_to", "x")]}), ({}, {"having": [W("top", "greater_than", 1)]}),
        ({}, {"where": [{"logical_operator": "OR", "conditions": [W("region", "equal_to", "x"), W("kind", "equal_to", "x")]}]}), ({}, {"having": [W("ratio", "greater_than", 1)]}),
        ({}, {"order_by": [{"field": "s"}, {"field": "top", "sort": "desc"}]}), ({}, {"order_by": [{"field": "n"}]}),
    ])
    v = plain_value(I, "value")
    p = shop(I)
    first = {"metrics": ["s"], "dimensions": ["region"], "where": [W("region", "equal_to", v)]}
    o = I.outcome(lambda: conn(p).get_sql_query(merged_queries=[first, {"metrics": ["t"], "dimensions": ["zone"], "join_fields": [A_B], **second}], query_type="SNOWFLAKE", **kw))
    I.check("refused", not o.ok and o.exc_type in ("JoinError", "QueryError", "ParseError", "AccessDeniedOrDoesNotExistException"))


def connection_dict(name):
    return {"type": "POSTGRES", "name": name, "host": "h", "user": "u", "password": "p", "dbname": "d"}


@contract("C21", functions=FN + ["metrics_layer.core.query.query:MetricsLayerConnection.get_sql_query"], doc=(
    "the merged query is written for, and handed out with, the connection of its model, and is said to be a merged one"))
def connection(I):
    from metrics_layer.core.query.query import MetricsLayerConnection

    v = plain_value(I, "value")
    p = shop(I)
    first = {"metrics": ["s"], "dimensions": ["region"], "where": [W("region", "equal_to", v)]}
    second = {"metrics": ["t"], "dimensions": ["zone"], "join_fields": [A_B]}
    c = MetricsLayerConnection(project=p, connections=[connection_dict("other"), connection_dict("c")])
    got = I.outcome(lambda: c.get_sql_query(merged_queries=[first, second], return_connection=True))
    I.check("answered", got.ok)
    I.check("connection", got.value[1] is not None and got.value[1].name == "c")
    I.check_eq("sql", got.value[0], merged(p, [first, second], [(0, "a_v_s"), (0, "a_v_region"), (1, "b_v_t")], [("LEFT JOIN", [ON_B])], "POSTGRES"))
    kind = I.outcome(lambda: c.get_sql_query(merged_queries=[first, second], return_query_kind=True))
    I.check("kind", kind.ok and kind.value[1] == "MERGED")
