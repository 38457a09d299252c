"""C22: validating a project tells of every reference that leads nowhere, of none that does not, and changes nothing."""
from contracts.lib import conn, dim, measure, mk_project, model_dict, view_dict
from pyvc.api import contract

M = "metrics_layer.core.model."
FN = [M + "project:Project.validate", M + "view:View.collect_errors", M + "field:Field.collect_errors", M + "view:View.referenced_fields", M + "field:Field.collect_sql_errors", M + "field:Field.referenced_fields"]


def d(name, sql=None, **kw):
    return dim(name, sql, searchable=False, **kw)


def date(name, frames=("raw", "date")):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": list(frames), "sql": "${TABLE}." + name}


DIMS = ["id", "d", "cust", "made_raw", "made_date"]
ALL = DIMS + ["s", "count"]
C_DIMS, C_ALL = ["id", "r", "sent_raw"], ["id", "r", "sent_raw", "t", "count"]


def shop(fields=(), view=None, model=None, dashboards=()):
    a = view_dict("a_v", [d("id", primary_key=True), d("d"), d("cust"), date("made"), measure("s"), *fields], identifiers=[{"name": "k", "type": "foreign", "sql": "${cust}"}], default_date="made")
    a.update(view or {})
    c = view_dict("c_v", [d("id", primary_key=True), d("r"), date("sent", ["raw"]), measure("t")], identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}], default_date="sent")
    return mk_project([a, c], models=[model_dict(access_grants=[{"name": "g", "user_attribute": "u", "allowed_values": ["x"]}], **(model or {}))], dashboards=list(dashboards))


def judge(I, p, ref, good):
    """the project has no other fault: errors exactly when the reference is not a good one, the first naming it; asking again gives the same; nothing changed"""
    ask = lambda: conn(p).get_sql_query(metrics=["c_v.t"], dimensions=["c_v.r"], query_type="SNOWFLAKE")
    before = I.outcome(ask)
    got = I.outcome(lambda: p.validate())
    I.check("answered", got.ok)
    if good:
        I.check_eq("no errors", [e["message"] for e in got.value], [])
    else:
        I.check("an error", len(got.value) > 0)
        I.check("it names the reference", any(ref in e["message"] for e in got.value))
    I.check_eq("the same again", p.validate(), got.value)
    after = I.outcome(ask)
    I.check_eq("a query as before", [after.ok, after.value if after.ok else None], [before.ok, before.value if before.ok else None])


def reference(I, dims_only=True):
    """a reference to a field from view a_v, whether there is one, and the field's bare name"""
    name = I.ident("name")
    # (the bare name of a dimension group is its raw or default timeframe to some readers and nothing to others)
    I.assume(name not in ("made", "sent"))
    view = I.choice("view", ["", "a_v.", "c_v.", "x_v."])
    known = {"": DIMS if dims_only else ALL, "a_v.": DIMS if dims_only else ALL, "c_v.": C_DIMS if dims_only else C_ALL, "x_v.": []}[view]
    if dims_only:
        I.assume(name not in ("s", "t", "count"))
    return view + name, name in known, name


SQL_SLOTS = ["dimension", "measure", "time", "start", "end", "distinct key"]


@contract("C22", functions=FN, weight=3, doc=(
    "a ${reference} in the SQL of a dimension, measure, time or duration group or distinct key is reported when there is no such field, in the view or in the view it names, and only then"))
def in_sql(I):
    slot = I.choice("slot", SQL_SLOTS)
    ref, good, _ = reference(I)
    I.assume(ref not in ("new", "a_v.new", "days_new", "a_v.days_new", "new_raw", "a_v.new_raw"))
    text = "${" + ref + "}"
    field = {
        "dimension": lambda: d("new", "lower(" + text + ")"),
        "measure": lambda: measure("new", "sum", text),
        "time": lambda: {**date("new", ["raw"]), "sql": text},
        "start": lambda: {"name": "new", "field_type": "dimension_group", "type": "duration", "intervals": ["day"], "sql_start": text, "sql_end": "${made_raw}"},
        "end": lambda: {"name": "new", "field_type": "dimension_group", "type": "duration", "intervals": ["day"], "sql_start": "${made_raw}", "sql_end": text},
        "distinct key": lambda: measure("new", "sum_distinct", sql_distinct_key=text),
    }[slot]()
    judge(I, shop([field]), ref, good)


@contract("C22", functions=FN, weight=2, doc="of two references in the SQL of one field, or in one list, each one that leads nowhere is reported, whichever comes first")
def two_in_one(I):
    slot = I.choice("slot", ["dimension", "number", "start and end", "drill fields", "set", "window groupings", "filters", "grants"])
    one, two = I.ident("one"), I.ident("two")
    I.assume(one not in ("made", "sent", "new", "days_new") and two not in ("made", "sent", "new", "days_new"))
    fields, view, known = [], None, DIMS
    if slot == "dimension":
        fields = [d("new", "${" + one + "} || ${" + two + "}")]
    elif slot == "number":
        I.assume(one not in DIMS and two not in DIMS)
        fields, known = [measure("new", "number", "${" + one + "} / ${" + two + "}")], ["s", "count"]
    elif slot == "start and end":
        fields = [{"name": "new", "field_type": "dimension_group", "type": "duration", "intervals": ["day"], "sql_start": "${" + one + "}", "sql_end": "${" + two + "}"}]
    elif slot == "drill fields":
        fields, known = [d("new", drill_fields=[one, two])], ALL
    elif slot == "set":
        view, known = {"sets": [{"name": "few", "fields": [one, two]}]}, ALL
    elif slot == "window groupings":
        fields = [measure("new", non_additive_dimension={"name": "made_raw", "window_choice": "max", "window_groupings": [one, two]})]
    elif slot == "filters":
        fields = [measure("new", filters=[{"field": one, "value": "x"}, {"field": two, "value": "y"}])]
    else:
        fields, known = [d("new", required_access_grants=[one, two])], ["g"]
    if slot not in ("number", "drill fields", "set", "grants"):
        I.assume(one not in ("s", "count") and two not in ("s", "count"))
    if slot in ("drill fields", "set"):
        I.assume(one != two)
    got = I.outcome(lambda: shop(fields, view).validate())
    I.check("answered", got.ok)
    for name in (one, two):
        if name not in known:
            I.check("it names the reference", any(name in e["message"] for e in got.value))
    if one in known and two in known:
        I.check_eq("no errors", [e["message"] for e in got.value], [])


@contract("C22", functions=FN, weight=2, doc="a number measure over a measure that is not there is reported, over one that is there it is not")
def in_number(I):
    name = I.ident("name")
    I.assume(name not in ("made", "sent", "new", "id", "d", "cust", "r", "made_raw", "made_date", "sent_raw"))
    view = I.choice("view", ["", "c_v.", "x_v."])
    ref = view + name
    good = name in {"": ["s", "count"], "c_v.": ["t", "count"], "x_v.": []}[view]
    kind = I.choice("kind", ["number", "cumulative"])
    field = measure("new", "number", "${s} / ${" + ref + "}") if kind == "number" else {"name": "new", "field_type": "measure", "type": "cumulative", "measure": ref}
    p = shop([field])
    got = I.outcome(lambda: p.validate())
    I.check("answered", got.ok)
    if good:
        I.check_eq("no errors", [e["message"] for e in got.value], [])
    else:
        I.check("an error", len(got.value) > 0)
        I.check("it names the reference", any(name in e["message"] for e in got.value))


PROPERTY_SLOTS = ["measure filter", "drill fields", "always filter", "access filter", "set", "canon date", "non-additive groups"]


@contract("C22", functions=FN + [M + "field:Field.collect_field_filter_errors", M + "set:Set.collect_errors"], weight=3, doc=(
    "a field named by a measure's filter, drill list, canonical date or non-additive window, or by a view's always_filter, access filter or set, is reported when it is not there, and only then"))
def in_properties(I):
    slot = I.choice("slot", PROPERTY_SLOTS)
    ref, good, bare = reference(I)
    I.assume(ref not in ("new", "a_v.new"))
    fields, view = [], None
    if slot == "measure filter":
        fields = [measure("new", filters=[{"field": ref, "value": "x"}])]
    elif slot == "drill fields":
        fields = [d("new", drill_fields=["d", ref])]
    elif slot == "always filter":
        view = {"always_filter": [{"field": ref, "value": "x"}]}
    elif slot == "access filter":
        I.assume("." in ref)
        view = {"access_filters": [{"field": ref, "user_attribute": "u"}]}
    elif slot == "set":
        view = {"sets": [{"name": "few", "fields": ["d", ref]}]}
    elif slot == "canon date":
        fields = [measure("new", canon_date="made")]
        name = I.choice("canon", ["made", "sent", "c_v.sent", "c_v.made", "x_v.made"])
        fields[0]["canon_date"] = name
        ref, bare, good = name, name[-4:], name in ("made", "c_v.sent")
    else:
        fields = [measure("new", non_additive_dimension={"name": "made_raw", "window_choice": "max", "window_groupings": [ref]})]
    judge(I, shop(fields, view), ("x_v" if ref[:4] == "x_v." else bare) if slot in ("canon date", "set") else ref, good)


@contract("C22", functions=FN + [M + "model:Model.collect_errors", M + "dashboard:Dashboard.collect_errors"], weight=3, doc=(
    "a grant required by a view or field, a field of a mapping, a field, slice or filter of a dashboard, or a date chosen by a view, is reported when it is not there, and only then"))
def in_the_rest(I):
    slot = I.choice("slot", ["view grant", "field grant", "mapping", "dashboard metric", "dashboard filter", "default date", "event"])
    name = I.ident("name")
    I.assume(name not in ("made", "sent"))
    ref, fields, view, model, board = name, [], {}, {}, []
    if slot == "view grant":
        view, good = {"required_access_grants": [name]}, name == "g"
    elif slot == "field grant":
        fields, good = [d("new", required_access_grants=[name])], name == "g"
    elif slot == "mapping":
        ref = "a_v." + name
        model, good = {"mappings": {"place": {"fields": [ref, "c_v.r"]}}}, name in DIMS
        I.assume(name not in ("s", "count"))
    elif slot == "dashboard metric":
        ref = "a_v." + name
        board, good = [{"type": "dashboard", "name": "b", "elements": [{"title": "x", "model": "m", "metrics": [ref]}]}], name in ALL
    elif slot == "dashboard filter":
        ref = "a_v." + name
        board, good = [{"type": "dashboard", "name": "b", "filters": [{"field": ref, "value": "x"}], "elements": []}], name in ALL
    elif slot == "default date":
        ref = I.choice("date", ["made", "c_v.sent", "sent", "d", "x_v.made", "c_v.made"])
        view, good = {"default_date": ref}, ref in ("made", "c_v.sent")
    else:
        ref = I.choice("event view", ["", "a_v.", "c_v."]) + name
        view, good = {"event_dimension": ref}, name in (C_DIMS if ref[:4] == "c_v." else DIMS)
        I.assume(name not in ("s", "t", "count"))
    judge(I, shop(fields, view, model, board), name if slot == "mapping" else ref, good)


FAULTS = {
    "no intervals": lambda: dict(fields=[{"name": "new", "field_type": "dimension_group", "type": "duration", "sql_start": "${made_raw}", "sql_end": "${made_raw}"}]),
    "no timeframes": lambda: dict(fields=[{"name": "new", "field_type": "dimension_group", "type": "time", "sql": "${TABLE}.x"}]),
    "no window choice": lambda: dict(fields=[measure("new", non_additive_dimension={"name": "made_raw"})]),
    "no sql": lambda: dict(fields=[{"name": "new", "field_type": "dimension", "type": "string", "searchable": False}]),
    "no measure": lambda: dict(fields=[{"name": "new", "field_type": "measure", "type": "cumulative"}]),
    "filter without value": lambda: dict(fields=[measure("new", filters=[{"field": "d"}])]),
    "filter without field": lambda: dict(fields=[measure("new", filters=[{"value": "x"}])]),
    "always filter without value": lambda: dict(view={"always_filter": [{"field": "d"}]}),
    "access filter without attribute": lambda: dict(view={"access_filters": [{"field": "a_v.d"}]}),
    "access filter without field": lambda: dict(view={"access_filters": [{"user_attribute": "u"}]}),
    "access filter of two views": lambda: dict(view={"access_filters": [{"field": "id", "user_attribute": "u"}]}),
    "dashboard filter without field": lambda: dict(dashboards=[{"type": "dashboard", "name": "b", "filters": [{"value": "x"}], "elements": []}]),
    "element without model": lambda: dict(dashboards=[{"type": "dashboard", "name": "b", "elements": [{"title": "x", "metrics": ["a_v.s"]}]}]),
    "two dashboards of a name": lambda: dict(dashboards=[{"type": "dashboard", "name": "b", "elements": []}, {"type": "dashboard", "name": "B", "elements": []}]),
    "unknown timeframe": lambda: dict(fields=[date("new", ["raw", "fortnight"])]),
    "unknown interval": lambda: dict(fields=[{"name": "new", "field_type": "dimension_group", "type": "duration", "intervals": ["fortnight"], "sql_start": "${made_raw}", "sql_end": "${made_raw}"}]),
    "unknown property": lambda: dict(fields=[d("new", sqll="x")]),
    "event of two views": lambda: dict(view={"event_dimension": "c_v.count_", "default_date": "made"}),
    "two fields of a name": lambda: dict(fields=[d("d", "${TABLE}.other")]),
    "no table": lambda: dict(view={"sql_table_name": None}),
    "sets not a list": lambda: dict(view={"sets": "few"}),
}


@contract("C22", kind="exhaustive", functions=FN, doc=(
    "for each of the listed ways to write a field, filter, view or dashboard incompletely: validation answers, reports at least one error, and reports the same when asked again"))
def incomplete(I):
    what = I.choice("fault", sorted(FAULTS))
    got = I.outcome(lambda: shop(**FAULTS[what]()).validate())
    p = shop(**FAULTS[what]())
    I.check("answered", got.ok)
    I.check("an error", got.ok and len(got.value) > 0)
    I.check("messages", got.ok and all(isinstance(e["message"], str) and e["message"] for e in got.value))
    I.check_eq("the same again", [p.validate(), p.validate()], [got.value, got.value])
    I.check_eq("a sound project has none", shop().validate(), [])
