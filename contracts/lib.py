"""Shared makers for the contracts: real Project / View / Field objects around arbitrary content."""
import re

from metrics_layer.core.model.definitions import Definitions
from metrics_layer.core.model.field import Field
from metrics_layer.core.model.project import Project
from metrics_layer.core.model.view import View

WAREHOUSES = [
    "SNOWFLAKE", "BIGQUERY", "REDSHIFT", "POSTGRES", "DRUID",
    "SQL_SERVER", "DUCK_DB", "DATABRICKS", "AZURE_SYNAPSE", "TRINO",
]
SYMMETRIC = {"SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB"}


def mk_project(views, models=None, dashboards=None, user=None):
    """a real Project; `views`/`models` are plain definition dicts whose leaves may be arbitrary"""
    p = Project(
        models=models if models is not None else [{"name": "m", "connection": "c", "type": "model", "access_grants": []}],
        views=views,
        dashboards=dashboards if dashboards is not None else [],
        connection_lookup={"c": "SNOWFLAKE"},
    )
    if user is not None:
        p.set_user(user)
    return p


def model_dict(**kw):
    return {"type": "model", "name": "m", "connection": "c", "access_grants": [], **kw}


def view_dict(name="v", fields=(), **kw):
    return {"type": "view", "name": name, "model_name": "m", "sql_table_name": "t_" + name if isinstance(name, str) else "t", "fields": list(fields), **kw}


def conn(project, user=None):
    """the public entry point over a loaded project"""
    from metrics_layer.core.query.query import MetricsLayerConnection

    return MetricsLayerConnection(project=project, connections=[], user=user)


def plain_value(I, name):
    """a filter value without filter syntax: any printable text that is not an operator, list, pattern or keyword"""
    t = I.str(name, nonempty=True, exclude="%-=<>! ,.'{}$")
    I.assume(t not in ("NULL", "TRUE", "FALSE", "after", "before", "on", "today", "yesterday"))
    return t


def q(t):
    """a string literal"""
    return "'" + t.replace("'", "''") + "'"


def rendered(text):
    """custom SQL is emitted stripped, with runs of blanks collapsed"""
    return re.sub(r"[ ]{2,}", " ", text.strip())


def dim(name, sql=None, type="string", **kw):
    return {"name": name, "field_type": "dimension", "type": type, "sql": sql or "${TABLE}." + name, **kw}


def measure(name, type="sum", sql=None, **kw):
    return {"name": name, "field_type": "measure", "type": type, "sql": sql or "${TABLE}." + name, **kw}


# ---- join trees: parents[i] is the parent of view i + 1
TREES = [[0], [0, 0], [0, 1], [0, 0, 0], [0, 1, 2], [0, 0, 1]]


def join_tree(names, parents, rels, fan):
    """views linked as a tree; edge i joins view parents[i] to view i + 1 on the columns e<i> of both, with relationship
    rels[i] (parent to child: m1, 1m, 11, mm); `fan` lists every neighbour under allowed_fanouts"""
    ids = [[] for _ in names]
    for i, p in enumerate(parents):
        for me, other, side in ((p, i + 1, rels[i][0]), (i + 1, p, rels[i][1])):
            d = {"name": f"e{i}", "type": "primary" if side == "1" else "foreign", "sql": "${e" + str(i) + "}"}
            if fan:
                d["allowed_fanouts"] = [names[other]]
            ids[me].append(d)
    return [
        view_dict(n, [dim("id", primary_key=True), dim("d"), measure("s")] + [dim(x["name"]) for x in ids[k]], identifiers=ids[k])
        for k, n in enumerate(names)
    ]


def unique_in(k, parents, rels, joined=None):
    """are the rows of the joined tree unique on view k's primary key? exactly when no edge walked away from k fans out"""
    seen, todo = [k], [k]
    while todo:
        x = todo.pop()
        for i, p in enumerate(parents):
            for u, w, away in ((p, i + 1, rels[i]), (i + 1, p, rels[i][::-1])):
                if u == x and w not in seen and (joined is None or w in joined):
                    if away[1] == "m":
                        return False
                    seen.append(w)
                    todo.append(w)
    return True
