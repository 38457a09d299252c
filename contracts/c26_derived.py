from contracts.lib import conn, dim, measure, mk_project, q, rendered, view_dict
from pyvc.api import contract

F = "metrics_layer.core.model.field:Field."
FN = [F + "sql", F + "_translate_looker_tier_to_sql", F + "_translate_looker_case_to_sql", F + "sql_query", F + "replace_fields"]


def tier_text(col, tiers):
    """every value below the first cut, in one half-open bucket, or above the last; anything else (null) is Unknown"""
    parts = [f"when {col} < {tiers[0]} then 'Below {tiers[0]}' "]
    for a, b in zip(tiers, tiers[1:]):
        parts.append(f"when {col} >= {a} and {col} < {b} then '[{a},{b})' ")
    last = tiers[-1]
    return "case " + "".join(parts) + f"when {col} >= {last} then '[{last},inf)' else 'Unknown' end"


def one(field, extra=()):
    return mk_project([view_dict("v", [dim("id", primary_key=True), field, *extra])])


@contract("C26", functions=FN, bound=3, doc=(
    "a tier dimension puts each value in the bucket whose half-open range holds it, for any column and any number of cut points"))
def tiers(I):
    col = I.str("col", exclude="$")
    cuts = I.list("tiers", lambda x: x.int("cut"), min=1)
    f = one({"name": "band", "field_type": "dimension", "type": "tier", "sql": col, "tiers": cuts}).get_field("v.band")
    I.check_eq("sql", f.sql, tier_text(col, cuts))


def case_text(whens, other):
    text = "case " + "".join([f"when {w['sql']} then {q(w['label'])} " for w in whens])
    return text + ("" if other is None else f"else {q(other)} ") + "end"


ELSE = {"none": None, "text": None, "zero": 0, "empty": ""}


@contract("C26", functions=FN, bound=3, doc=(
    "a case dimension gives, for any number of whens, each condition its own label, in the declared order, and the else label to the "
    "rest; labels are SQL string literals whatever text they hold, and a double-quoted literal of a condition is a string too"))
def cases(I):
    whens = I.list("whens", lambda x: {"sql": x.str("cond", exclude="$\""), "label": x.str("label", exclude="$")})
    kind = I.choice("else", sorted(ELSE))
    other = I.str("else text", exclude="$") if kind == "text" else ELSE[kind]
    case = {"whens": whens} if other is None else {"whens": whens, "else": other}
    f = one({"name": "kind", "field_type": "dimension", "type": "string", "case": case}).get_field("v.kind")
    I.check_eq("sql", f.sql, case_text(whens, None if other is None else str(other)))


@contract("C26", functions=FN + [F + "replace_fields"], weight=2, doc=(
    "in a query the column references of tier, case and yes/no dimensions stand for the table's columns or the referenced dimension, "
    "and the grouped and selected expression is the same"))
def in_query(I):
    a, b = I.str("a", exclude="${}%"), I.str("b", exclude="${}%")
    i, j = I.int("i"), I.int("j")
    la, lb = I.str("label a", exclude="${}%"), I.str("label b", exclude="${}%")
    kind = I.choice("kind", ["tier", "tier over a field", "case", "case quoted", "yesno", "yesno over a field"])
    base = dim("base", "${TABLE}." + b)
    sql = "${TABLE}." + a
    over = sql + " + ${base}"
    ta, tb = "v." + a, rendered("v." + b)
    field, text = {
        "tier": ({"type": "tier", "sql": sql, "tiers": [i, j]}, tier_text(ta, [i, j])),
        "tier over a field": ({"type": "tier", "sql": "${base}", "tiers": [i]}, tier_text(tb, [i])),
        "case": ({"type": "string", "case": {"whens": [{"sql": "${base} > 3", "label": la}, {"sql": "${TABLE}.x = 'y'", "label": lb}], "else": lb}},
                 case_text([{"sql": tb + " > 3", "label": la}, {"sql": "v.x = 'y'", "label": lb}], lb)),
        "case quoted": ({"type": "string", "case": {"whens": [{"sql": "${base} = \"z\"", "label": la}]}}, case_text([{"sql": tb + " = 'z'", "label": la}], None)),
        "yesno": ({"type": "yesno", "sql": sql}, "(" + ta + ")"),
        "yesno over a field": ({"type": "yesno", "sql": "${base} is not null"}, "(" + tb + " is not null)"),
    }[kind]
    p = one({"name": "f", "field_type": "dimension", **field}, [base, measure("s")])
    got = conn(p).get_sql_query(metrics=["s"], dimensions=["f"], query_type="SNOWFLAKE")
    t = rendered(text)
    I.check_eq("sql", got, f"SELECT {t} as v_f,SUM(v.s) as v_s FROM t_v v GROUP BY {t} ORDER BY v_s DESC NULLS LAST;")
