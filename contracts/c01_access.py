from pyvc.api import Opt, contract

from contracts.lib import mk_project, model_dict, view_dict

from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError

P = "metrics_layer.core.model.project:Project."


def mk_grants(I, name="grants"):
    return I.list(name, lambda g: {"name": g.str("name"), "user_attribute": g.str("attr"), "allowed_values": g.list("allowed", lambda a: a.str("v"))})


def mk_user(I):
    return dict(I.list("user", lambda u: (u.str("k"), u.opt("v", lambda x: x.str("s")))))


def spec_find(grants, name):
    return next((g for g in grants if g["name"] == name), None)


def spec_one(user, grant):
    value = user.get(grant["user_attribute"])
    if value is None:
        return True
    return any(value == a for a in grant["allowed_values"])


def decide(I, kind):
    grants = mk_grants(I)
    req = I.list("requires", lambda r: r.str("g"))
    has_user = I.choice("has_user", [True, False])
    user = mk_user(I) if has_user else None
    fd = {"name": "a", "field_type": "dimension", "type": "string", "sql": "x"}
    vd = view_dict("v", [fd])
    (vd if kind == "view" else fd)["required_access_grants"] = req
    p = mk_project([vd], models=[model_dict(access_grants=grants)])
    from metrics_layer.core.model.field import Field
    from metrics_layer.core.model.view import View

    v = View(p._views[0], project=p)
    p.set_user(user)
    if kind == "view":
        o = I.outcome(lambda: p.can_access_view(v))
    else:
        f = Field(p._views[0]["fields"][0], view=v)
        o = I.outcome(lambda: p.can_access_field(f))
    if not has_user:
        I.check("without a user everything is accessible", o.ok and o.value)
        return
    if any(spec_find(grants, r) is None for r in req):
        I.check("undefined grant is an error", not o.ok and o.exc_type == "QueryError")
        return
    I.check("decision", o.ok and bool(o.value) == all(spec_one(user, spec_find(grants, r)) for r in req))


@contract("C01", functions=[P + "can_access_view"], seconds=200, weight=3, doc=(
    "a view is accessible exactly when every grant it requires exists and admits the user's value of the grant's "
    "attribute (an attribute the user does not have admits); an undefined grant is an error; without a user everything "
    "is accessible"))
def view_decision(I):
    decide(I, "view")


@contract("C01", functions=[P + "can_access_field"], seconds=200, weight=3, doc=(
    "a field of an open view is accessible exactly when every grant it requires exists and admits the user"))
def field_decision(I):
    decide(I, "field")


@contract("C01", functions=[P + "can_access_view", P + "can_access_field"], doc=(
    "two required grants, also on one user attribute and wherever among the project's models they are defined: both must admit the user"))
def two_grants(I):
    grants = [{"name": "a", "user_attribute": I.str("attr_a"), "allowed_values": [I.str("a1"), I.str("a2")]},
              {"name": "b", "user_attribute": I.str("attr_b"), "allowed_values": [I.str("b1")]}]
    req = I.choice("requires", [["a"], ["b"], ["a", "b"], ["b", "a"], ["b", "b"]])
    user = {I.str("k1"): I.opt("v1", lambda x: x.str("s"))}
    if I.choice("two_attributes", [True, False]):
        user[I.str("k2")] = I.str("v2")
    models = I.choice("models", [[grants], [grants[:1], grants[1:]], [[], [], grants]])
    p = mk_project(
        [view_dict("v", [{"name": "a", "field_type": "dimension", "type": "string", "sql": "x"}], required_access_grants=req),
         view_dict("w", [{"name": "a", "field_type": "dimension", "type": "string", "sql": "x", "required_access_grants": req}])],
        models=[model_dict(name="m" + str(i) if i else "m", access_grants=g) for i, g in enumerate(models)],
    )
    from metrics_layer.core.model.field import Field
    from metrics_layer.core.model.view import View

    p.set_user(user)
    want = all(spec_one(user, spec_find(grants, r)) for r in req)
    v, w = View(p._views[0], project=p), View(p._views[1], project=p)
    I.check("view", bool(p.can_access_view(v)) == want)
    I.check("field of a restricted view", bool(p.can_access_field(Field(p._views[0]["fields"][0], view=v))) == want)
    I.check("restricted field of an open view", bool(p.can_access_field(Field(p._views[1]["fields"][0], view=w))) == want)


@contract("C01", functions=[P + "can_access_field"], doc="a field is accessible exactly when both its own grants and its view's admit the user, whichever of the two has grants")
def field_and_view(I):
    from metrics_layer.core.model.field import Field
    from metrics_layer.core.model.view import View

    grants = [{"name": g, "user_attribute": I.str("attr_" + g), "allowed_values": [I.str("value_" + g)]} for g in ("a", "b", "c")]
    of_view, of_field = I.choice("view requires", [None, ["a"], ["a", "c"]]), I.choice("field requires", [None, ["b"], ["c", "b"], ["a"]])
    user = {I.str("k1"): I.str("v1"), I.str("k2"): I.str("v2")}
    f = {"name": "x", "field_type": "dimension", "type": "string", "sql": "x"}
    if of_field:
        f["required_access_grants"] = of_field
    p = mk_project([view_dict("v", [f], **({"required_access_grants": of_view} if of_view else {}))], models=[model_dict(access_grants=grants)])
    p.set_user(user)
    v = View(p._views[0], project=p)
    I.check("decision", bool(p.can_access_field(Field(p._views[0]["fields"][0], view=v))) == all(spec_one(user, spec_find(grants, r)) for r in (of_view or []) + (of_field or [])))


# ---- listing and lookup: each object either requires a grant the user fails ("deny"), one the user has ("admit"), or none
GRANTS = [{"name": "deny", "user_attribute": "dept", "allowed_values": ["finance"]},
          {"name": "admit", "user_attribute": "dept", "allowed_values": ["finance", "sales"]}]
USER = {"dept": "sales"}
REQ = Opt(lambda x: [x.choice("grant", ["deny", "admit"])])


def project(views=(), dashboards=()):
    return mk_project(list(views), models=[model_dict(access_grants=[dict(g) for g in GRANTS])], dashboards=list(dashboards), user=USER)


def allowed(d):
    return d.get("required_access_grants") is None or d["required_access_grants"][0] != "deny"


def same_as_missing(I, label, o, lookup_missing):
    """an inaccessible object is reported exactly like one that does not exist"""
    m = I.outcome(lookup_missing)
    I.check(label + " raises", not o.ok and o.exc_type == "AccessDeniedOrDoesNotExistException")
    I.check(label + ": a missing object raises too", not m.ok and m.exc_type == "AccessDeniedOrDoesNotExistException")
    if not o.ok and not m.ok:
        I.check_eq(label + " same message", str(o.exc), str(m.exc))


@contract("C01", functions=[P + "views", P + "get_view", P + "can_access_view"], doc=(
    "the views listed are exactly the accessible ones, in order; a view is fetched exactly when it is accessible, and an "
    "inaccessible view is reported as one that does not exist"))
def views(I):
    defs = I.list("views", lambda v: v.dict(None, {
        "name": lambda x: x.str("name", lower=True), "type": "view", "model_name": "m", "sql_table_name": "t", "fields": [],
        "required_access_grants": REQ, "hidden": Opt(lambda x: x.bool("hidden"))}))
    p = project(defs)
    names = [d["name"] for d in defs if allowed(d)]
    I.check_eq("listed", [v.name for v in p.views()], names)
    wanted = I.str("wanted")
    o = I.outcome(lambda: p.get_view(wanted))
    if any(n == wanted for n in names):
        I.check("found", o.ok and o.value.name == wanted)
    else:
        same_as_missing(I, "inaccessible", o, lambda: project().get_view(wanted))


@contract("C01", functions=[P + "dashboards", P + "get_dashboard", P + "can_access_dashboard"], doc=(
    "the dashboards listed are exactly the accessible ones, in order; an inaccessible dashboard is reported as missing"))
def dashboards(I):
    defs = I.list("dashboards", lambda v: v.dict(None, {
        "name": lambda x: x.str("name", lower=True), "type": "dashboard", "layout": "grid", "required_access_grants": REQ}))
    p = project(dashboards=defs)
    names = [d["name"] for d in defs if allowed(d)]
    I.check_eq("listed", [d.name for d in p.dashboards()], names)
    wanted = I.str("wanted")
    o = I.outcome(lambda: p.get_dashboard(wanted))
    if any(n == wanted for n in names):
        I.check("found", o.ok and o.value.name == wanted)
    else:
        same_as_missing(I, "inaccessible", o, lambda: project().get_dashboard(wanted))


@contract("C01", functions=["metrics_layer.core.model.view:View.fields", P + "can_access_field"], doc=(
    "the fields of a view are exactly the accessible ones, in order"))
def view_fields(I):
    defs = I.list("fields", lambda f: f.dict(None, {
        "name": lambda x: x.ident("name"), "field_type": "dimension", "type": "string", "sql": "x",
        "required_access_grants": REQ, "hidden": Opt(lambda x: x.bool("hidden"))}))
    vd = view_dict("v", [])
    vd["fields"] = defs
    p = project([vd])
    show = I.choice("show_hidden", [True, False])
    expand = I.choice("expand", [True, False])
    got = [f.name for f in p.get_view("v").fields(show_hidden=show, expand_dimension_groups=expand)]
    I.check_eq("fields", got, [d["name"] for d in defs if allowed(d) and (show or not d.get("hidden", False))])


@contract("C01", functions=[P + "get_field", P + "can_access_field"], doc=(
    "a field (dimension, measure or timeframe) is fetched by name exactly when it and its view are accessible; an "
    "inaccessible field is reported as missing"))
def field_lookup(I):
    def mk(n, **kw):
        r = I.choice("req_" + n, [None, ["admit"], ["deny"], ["admit", "deny"]])
        d = {"name": n, "field_type": "dimension", "type": "string", "sql": "x", **kw}
        if r is not None:
            d["required_access_grants"] = r
        return d, r is None or "deny" not in r

    x, okx = mk("x")
    y, oky = mk("y", field_type="measure", type="sum")
    z, okz = mk("z", field_type="dimension_group", type="time", timeframes=["raw", "date"])
    rv = I.choice("req_view", [[], ["admit"], ["deny"]])
    p = project([view_dict("v", [x, y, z], required_access_grants=rv)])
    hidden_view = "deny" in rv
    bare = project([] if hidden_view else [view_dict("v", [])])
    for name, ok in (("x", okx), ("v.x", okx), ("V.X" if False else "y", oky), ("v.z_date", okz), ("z_date", okz)):
        o = I.outcome(lambda: p.get_field(name))
        if ok and not hidden_view:
            I.check("found", o.ok and o.value.id() == ("v." + name if "." not in name else name))
        else:
            same_as_missing(I, "inaccessible " + name, o, lambda: bare.get_field(name))
    listed = sorted(f.name for f in p.fields())
    I.check_eq("listed", listed, [n for n, ok in (("x", okx), ("y", oky), ("z", okz)) if ok and not hidden_view])
