"""C19: a query runs, unchanged and once, on its model's connection with that connection's credentials; secrets are never shown."""
import json
from urllib.parse import quote_plus

from contracts.lib import dim, measure, mk_project, model_dict, view_dict
from pyvc.api import contract

R = "metrics_layer.core.sql.query_runner:QueryRunner."
N = "metrics_layer.core.parse.connections:"
Q = "metrics_layer.core.query.query:MetricsLayerConnection."
DRIVERS = (
    "the drivers (snowflake.connector, redshift_connector, google.cloud.bigquery, SQLAlchemy with psycopg2, pandas.read_sql) are ghosts that record the calls they get; "
    "none is installed here, and what the real ones do with a call is not checked")
URL = "urllib.parse.quote_plus is an unknown function of the text, the same here and there"


class Log:
    def __init__(self):
        self.opened, self.ran, self.closed, self.other = [], [], 0, []
        self.frame, self.cursors = object(), []


class Cursor:
    def __init__(self, log):
        self.log = log
        log.cursors.append(self)

    def execute(self, query, **kw):
        self.log.ran.append((query, kw.get("timeout")))
        return self

    def fetch_pandas_all(self):
        return self.log.frame

    def fetch_dataframe(self):
        return self.log.frame


class Job:
    def __init__(self, log):
        self.log = log
        log.cursors.append(self)

    def to_dataframe(self):
        return self.log.frame


class Pooled:
    def __init__(self, log):
        self.log = log

    def cursor(self):
        return Cursor(self.log)


class Session:
    """an open session of Snowflake, Redshift or BigQuery"""

    def __init__(self, log, **kw):
        self.log = log
        log.opened.append(kw)

    def cursor(self):
        return Cursor(self.log)

    def execute_string(self, text):
        self.log.other.append(text)
        return []

    def query(self, query, **kw):
        self.log.ran.append((query, kw.get("timeout")))
        return Job(self.log)

    def close(self):
        self.log.closed += 1


class Alchemy:
    """a connection of SQLAlchemy, which has no cursor of its own"""

    def __init__(self, log):
        self.log = log
        self.connection = Pooled(log)

    def close(self):
        self.log.closed += 1


class Engine:
    def __init__(self, log):
        self.log = log

    def connect(self):
        return Alchemy(self.log)


class Space:
    """a module"""

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def drivers(I):
    import pandas as pd
    from metrics_layer.core.sql import query_runner

    log = Log()

    def create_engine(url, connect_args=None):
        log.opened.append({"url": url, "connect_args": connect_args})
        return Engine(log)

    def read_sql(query, con, **kw):
        log.ran.append((query, None))
        return log.frame

    def from_info(info):
        return ("creds", info)

    I.stub(query_runner, "snowflake", Space(connector=Space(connect=lambda **kw: Session(log, **kw))))
    I.stub(query_runner, "redshift_connector", Space(connect=lambda **kw: Session(log, **kw)))
    I.stub(query_runner, "bigquery", Space(Client=lambda **kw: Session(log, **kw)))
    I.stub(query_runner, "service_account", Space(Credentials=Space(from_service_account_info=from_info)))
    I.stub(query_runner, "create_engine", create_engine)
    I.stub(pd, "read_sql", read_sql)
    return log


def text(I, name):
    return I.str(name, nonempty=True)


def definition(I, wh, name, k=""):
    """what a user writes for a connection of this warehouse"""
    d = {"type": wh, "name": name}
    if wh == "BIGQUERY":
        return {**d, "credentials": {"project_id": text(I, "project" + k), "private_key": text(I, "secret" + k)}}
    d["password"] = text(I, "secret" + k)
    if wh == "SNOWFLAKE":
        d.update({"account": text(I, "account" + k), "user": text(I, "user" + k), "role": text(I, "role" + k)})
    elif wh == "REDSHIFT":
        d.update({"host": text(I, "host" + k), "username": text(I, "user" + k), "database": text(I, "database" + k), "port": I.int("port" + k, 1, 65535)})
    else:
        d.update({"host": text(I, "host" + k), "user": text(I, "user" + k), "dbname": text(I, "database" + k), "port": I.int("port" + k, 1, 65535)})
    return d


def opened(wh, d, timeout):
    """the session that belongs to the definition"""
    if wh == "SNOWFLAKE":
        return {"account": d["account"], "user": d["user"], "password": d["password"], "role": d.get("role")}
    if wh == "REDSHIFT":
        return {"host": d["host"], "port": d["port"], "database": d["database"], "user": d["username"], "password": d["password"], "timeout": timeout}
    if wh == "BIGQUERY":
        return {"project": d["credentials"]["project_id"], "credentials": ("creds", d["credentials"])}
    url = "postgresql://" + quote_plus(d["user"]) + ":" + quote_plus(d["password"]) + "@" + d["host"] + ":" + str(d["port"]) + "/" + d["dbname"]
    return {"url": url, "connect_args": {"options": "-c statement_timeout=" + str(timeout * 1000)}}


def first_statements(wh, d, pre, start):
    """what Snowflake is told before the query"""
    out = ""
    if wh == "SNOWFLAKE" and (pre or start) and "warehouse" in d:
        out += "USE WAREHOUSE " + d["warehouse"] + ";"
    if wh == "SNOWFLAKE" and pre and "database" in d:
        out += 'USE DATABASE "' + d["database"].upper() + '";'
    if wh == "SNOWFLAKE" and pre and "schema" in d:
        out += 'USE SCHEMA "' + d["schema"].upper() + '";'
    return out


RUNNERS = ["SNOWFLAKE", "REDSHIFT", "POSTGRES", "BIGQUERY"]
RUN = [R + "__init__", R + "run_query", R + "_run_snowflake_query", R + "_run_redshift_query", R + "_run_postgres_query", R + "_run_bigquery_query", R + "_run_snowflake_pre_queries",
       R + "_get_snowflake_connection", R + "_get_redshift_connection", R + "_get_postgres_connection", R + "_get_bigquery_connection", Q + "run_query"]


@contract("C19", functions=RUN, weight=2, assumes=[DRIVERS, URL], doc=(
    "whatever text the query is and whatever the connection's credentials are, the query is executed once, unchanged and with the timeout asked for, in one session opened with exactly those "
    "credentials (after the session's warehouse, database and schema are set, unless that is declined), and its rows, or its cursor when that is asked for, come back"))
def runs(I):
    from metrics_layer.core.query.query import MetricsLayerConnection
    from metrics_layer.core.parse.project_loader import ProjectLoader

    wh = I.choice("warehouse", RUNNERS)
    d = definition(I, wh, text(I, "name"))
    if wh == "SNOWFLAKE":
        if not I.bool("role given"):
            del d["role"]
        for key in I.choice("set", [[], ["warehouse"], ["database", "schema"], ["warehouse", "database", "schema"]]):
            d[key] = text(I, key)
    log = drivers(I)
    c = ProjectLoader.load_connections([d])[0]
    query = I.str("query")
    kw, timeout, pre, start, cursor = {}, 180, True, True, False
    given = I.choice("timeout given", ["not", "for all", "with the query", "both"])
    mine = {}
    if given in ("for all", "both"):
        timeout = mine["timeout"] = I.int("timeout of all", 1, None)
    if given in ("with the query", "both"):
        timeout = kw["timeout"] = I.int("timeout", 1, None)
    if I.bool("cursor asked for"):
        cursor = kw["raw_cursor"] = True
    if wh == "SNOWFLAKE":
        pre, start = I.choice("before", [(True, True), (False, True), (False, False)])
        if not pre:
            kw["run_pre_queries"] = False
        if not start:
            kw["start_warehouse"] = False
    got = I.outcome(lambda: MetricsLayerConnection(project=None, **mine).run_query(query, c, **kw))
    I.check("answered", got.ok)
    I.check_eq("sessions", log.opened, [opened(wh, d, timeout)])
    I.check_eq("queries", [x for x, _ in log.ran], [query])
    if wh in ("SNOWFLAKE", "BIGQUERY"):
        I.check_eq("timeout", log.ran[0][1], timeout)
    before = first_statements(wh, d, pre, start)
    I.check_eq("before the query", "".join(log.other), before)
    if cursor:
        I.check("the cursor comes back", got.value is log.cursors[0])
    else:
        I.check("the rows come back", got.value is log.frame)
        I.check("the session is closed", log.closed == 1)


@contract("C19", functions=[R + "__init__", Q + "run_query"], assumes=[DRIVERS], doc=(
    "a connection whose warehouse cannot be queried from here is refused before anything is opened or run"))
def refused(I):
    from metrics_layer.core.query.query import MetricsLayerConnection
    from metrics_layer.core.parse.project_loader import ProjectLoader

    wh = I.choice("warehouse", ["DRUID", "SQL_SERVER", "DUCK_DB", "DATABRICKS", "AZURE_SYNAPSE", "TRINO"])
    log = drivers(I)
    c = ProjectLoader.load_connections([described(I, wh, text(I, "name"))[0]])[0]
    query = I.str("query")
    got = I.outcome(lambda: MetricsLayerConnection(project=None).run_query(query, c))
    I.check("refused", not got.ok and got.exc_type == "MetricsLayerConnectionError")
    I.check("nothing happened", log.opened == [] and log.ran == [] and log.other == [])


def described(I, wh, name, k=""):
    """a definition of any warehouse with everything a user may write: (definition, what of it is secret, what of it is shown and under which name)"""
    d, shown = {"type": wh, "name": name}, {"name": "name"}
    if wh == "BIGQUERY":
        p = text(I, "project")
        d["credentials"] = {"project_id": p, "private_key": text(I, "secret" + k)}
        return d, {"project_id": p, "name": name}
    fields = {
        "SNOWFLAKE": ["account", "user", "database", "schema", "warehouse", "role"],
        "REDSHIFT": ["host", "username", "database", "schema"],
        "POSTGRES": ["host", "user"],
        "DUCK_DB": ["host", "user", "database", "schema"],
        "DATABRICKS": ["host", "http_path", "username", "database", "schema"],
        "TRINO": ["host", "user", "scheme"],
        "DRUID": ["host", "user", "path", "scheme"],
        "SQL_SERVER": ["host", "user"],
        "AZURE_SYNAPSE": ["host", "user"],
    }[wh]
    shown = {"name": name}
    for f in fields:
        d[f] = text(I, f)
        shown["username" if wh in ("POSTGRES", "DUCK_DB") and f == "user" else f] = d[f]
    if wh == "TRINO":
        d["database"] = text(I, "database")
        d["auth"] = text(I, "secret" + k)
    else:
        d["password"] = text(I, "secret" + k)
    if wh == "DATABRICKS":
        d["personal_access_token"], d["client_id"], d["client_secret"] = text(I, "token" + k), "client", text(I, "client secret" + k)
    return d, shown


ALL = ["SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DRUID", "SQL_SERVER", "AZURE_SYNAPSE", "DUCK_DB", "DATABRICKS", "TRINO"]
CLASSES = ["Snowflake", "Databricks", "Redshift", "Trino", "Druid", "SQLServer", "BigQuery"]
SHOW = [N + c + "Connection.printable_attributes" for c in CLASSES] + [N + c + "Connection.to_dict" for c in CLASSES] + [N + "BaseConnection.__repr__"]


@contract("C19", functions=SHOW, weight=2, doc=(
    "what is printed of a connection, of any warehouse, is the same whatever its password, token, client secret or key is, and tells its name and the account, host, user, database it was given"))
def shown(I):
    from metrics_layer.core.parse.project_loader import ProjectLoader

    wh = I.choice("warehouse", ALL)
    name = text(I, "name")
    d, show = described(I, wh, name)
    other = {**d}
    for key in ("password", "auth", "personal_access_token", "client_secret"):
        if key in d:
            other[key] = text(I, "other " + key)
    if wh == "BIGQUERY":
        other["credentials"] = {"project_id": d["credentials"]["project_id"], "private_key": text(I, "other key")}
    a, b = ProjectLoader.load_connections([d, other])
    one, two = I.outcome(lambda: a.printable_attributes()), I.outcome(lambda: b.printable_attributes())
    I.check("printed", one.ok and two.ok)
    I.check_eq("the same whatever the secret is", one.value, two.value)
    I.check_eq("named", repr(a), repr(b))
    I.check_eq("told", {k: one.value.get(k) for k in show}, show)
    if wh != "AZURE_SYNAPSE":
        I.check_eq("warehouse", one.value["type"], wh)


@contract("C19", functions=SHOW + [N + "DruidConnection.__init__", N + "SQLServerConnection.__init__"], doc=(
    "a connection may leave out what its warehouse can do without (password, user, token, schema, ...) and is still usable and can be printed"))
def left_out(I):
    from metrics_layer.core.parse.project_loader import ProjectLoader

    wh = I.choice("warehouse", ["DRUID", "SQL_SERVER", "AZURE_SYNAPSE", "TRINO", "DATABRICKS", "SNOWFLAKE", "REDSHIFT", "POSTGRES"])
    d = {"type": wh, "name": text(I, "name")}
    if wh == "SNOWFLAKE":
        d.update({"account": text(I, "account"), "password": text(I, "password"), I.choice("user as", ["user", "username"]): text(I, "user")})
    else:
        d["host"] = text(I, "host")
    if wh == "TRINO":
        d.update({"user": text(I, "user"), "database": text(I, "database")})
    elif wh == "DATABRICKS":
        d["http_path"] = text(I, "path")
    elif wh in ("REDSHIFT", "POSTGRES"):
        d.update({"user" if wh == "POSTGRES" else "username": text(I, "user"), "password": text(I, "password")})
    elif wh != "SNOWFLAKE":
        if I.bool("user given"):
            d[I.choice("user as", ["user", "username"])] = text(I, "user")
        if I.bool("password given"):
            d["password"] = text(I, "password")
    c = ProjectLoader.load_connections([d])[0]
    one, two = I.outcome(lambda: c.printable_attributes()), I.outcome(lambda: c.to_dict())
    I.check("printed", one.ok)
    I.check("given to the driver", two.ok)
    I.check_eq("name", one.value["name"], d["name"])
    user = d["user"] if "user" in d else (d["username"] if "username" in d else None)
    I.check_eq("user", two.value.get("user") or two.value.get("username"), user)
    I.check_eq("user shown", one.value.get("user") or one.value.get("username"), user)
    I.check_eq("password", two.value.get("password"), d["password"] if "password" in d else None)


@contract("C19", functions=["metrics_layer.core.parse.project_loader:ProjectLoader.load_connections", Q + "get_connection", Q + "list_connections", Q + "connections", Q + "add_connections"], doc=(
    "the connections are the ones given, in that order, those added later after the others, whatever the letter case of their type; asking for one by name gives the first of that name, or none"))
def listed(I):
    from metrics_layer.core.query.query import MetricsLayerConnection

    a, b, c = text(I, "first name"), text(I, "second name"), text(I, "third name")
    ds = [{"type": I.choice("case", ["SNOWFLAKE", "snowflake", "Snowflake"]), "name": a, "account": text(I, "account"), "user": "u", "password": text(I, "secret")},
          {"type": "postgres", "name": b, "host": text(I, "host"), "user": "u", "password": text(I, "secret 2"), "dbname": "d"},
          {"type": "BIGQUERY", "name": c, "credentials": {"project_id": text(I, "project"), "k": text(I, "secret 3")}}]
    m = MetricsLayerConnection(project=None, connections=[ds[0]])
    m.add_connections(ds[1:])
    got = m.list_connections()
    I.check_eq("types", [x.type for x in got], ["SNOWFLAKE", "POSTGRES", "BIGQUERY"])
    I.check_eq("names", m.list_connections(names_only=True), [a, b, c])
    I.check_eq("secrets", [got[0].password, got[1].password, got[2].credentials["k"]], [ds[0]["password"], ds[1]["password"], ds[2]["credentials"]["k"]])
    asked = text(I, "asked")
    one = m.get_connection(asked)
    if asked == a:
        I.check("first", one.type == "SNOWFLAKE")
    elif asked == b:
        I.check("second", one.type == "POSTGRES")
    elif asked == c:
        I.check("third", one.type == "BIGQUERY")
    else:
        I.check("none", one is None)
    I.check_eq("given ones are kept", ds[0]["name"], a)


PICK = [Q + "query", Q + "get_sql_query", Q + "run_query", Q + "__init__", "metrics_layer.core.sql.resolve:SQLQueryResolver._get_connection", "metrics_layer.core.sql.resolve:SQLQueryResolver._get_query_type",
        "metrics_layer.core.sql.arbitrary_merge_resolve:ArbitraryMergedQueryResolver.get_query"] + RUN


@contract("C19", functions=PICK, weight=2, assumes=[DRIVERS, URL], doc=(
    "a query is written in the dialect of its model's connection and run on that connection, whatever other connections there are and in whatever order they are given; "
    "the text that runs is the text get_sql_query shows, and the timeout of the call is the one in force"))
def picks(I):
    from metrics_layer.core.query.query import MetricsLayerConnection

    wh, other = I.choice("warehouses", [("SNOWFLAKE", "POSTGRES"), ("POSTGRES", "SNOWFLAKE"), ("REDSHIFT", "BIGQUERY"), ("BIGQUERY", "SNOWFLAKE"), ("SNOWFLAKE", "SNOWFLAKE"), ("POSTGRES", "POSTGRES")])
    one, two = I.ident("connection"), I.ident("other connection")
    I.assume(one != two)
    da, db = definition(I, wh, one), definition(I, other, two, " of the other")
    connections = I.choice("order", [[da, db], [db, da]])
    kind = I.choice("query", ["plain", "merged queries"])
    p = mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("d"), measure("s")], model_name="m"),
        view_dict("b_v", [dim("id", primary_key=True), dim("d"), measure("t")], model_name="n"),
    ], models=[model_dict(connection=one), model_dict(name="n", connection=two)])
    log = drivers(I)
    m = MetricsLayerConnection(project=p, connections=connections)
    ask = {"metrics": ["s"], "dimensions": ["d"]} if kind == "plain" else {"merged_queries": [{"metrics": ["s"], "dimensions": ["a_v.d"]}]}
    if kind == "plain":
        ask = {"metrics": ["s"], "dimensions": ["a_v.d"]}
    text_ = I.outcome(lambda: m.get_sql_query(**ask))
    explicit = I.outcome(lambda: m.get_sql_query(query_type=wh, **ask))
    timeout = I.int("timeout", 1, None)
    got = I.outcome(lambda: m.query(timeout=timeout, **ask))
    I.check("answered", got.ok and got.value is log.frame)
    I.check_eq("dialect", text_.value, explicit.value)
    I.check_eq("session", log.opened, [opened(wh, da, timeout)])
    I.check_eq("text", [x for x, _ in log.ran], [text_.value])


@contract("C19", functions=[Q + "query", "metrics_layer.core.sql.resolve:SQLQueryResolver._get_query_type"], assumes=[DRIVERS], doc=(
    "a query of a model whose connection is not among the connections is refused, and nothing is opened"))
def missing(I):
    from metrics_layer.core.query.query import MetricsLayerConnection

    one, two = I.ident("connection"), I.ident("other connection")
    I.assume(one != two)
    p = mk_project([view_dict("a_v", [dim("id", primary_key=True), dim("d"), measure("s")])], models=[model_dict(connection=one)])
    log = drivers(I)
    m = MetricsLayerConnection(project=p, connections=[definition(I, "SNOWFLAKE", two)])
    got = I.outcome(lambda: m.query(metrics=["s"], dimensions=["d"]))
    I.check("refused", not got.ok and got.exc_type == "QueryError")
    I.check("nothing happened", log.opened == [] and log.ran == [])


@contract("C19", kind="exhaustive", functions=[N + "BigQueryConnection._convert_json_if_needed", N + "BigQueryConnection.__init__"], doc=(
    "for one key: a BigQuery key is the same given as a dictionary, as JSON text or as the path of a file, absolute or relative to the profile's directory"))
def key_files(I):
    import os
    import shutil
    import tempfile

    from metrics_layer.core.parse.project_loader import ProjectLoader

    key = {"project_id": "p-1", "private_key": "k\n1", "nested": {"a": [1, "é"]}}
    folder = tempfile.mkdtemp(prefix="pyvc_c19_")
    I.cleanup(lambda: shutil.rmtree(folder))
    path = os.path.join(folder, "key.json")
    with open(path, "w") as f:
        json.dump(key, f)
    ways = [{"credentials": key}, {"credentials": json.dumps(key)}, {"keyfile": json.dumps(key)}, {"keyfile": path}, {"keyfile": "key.json", "directory": folder}, {"credentials": "key.json", "directory": folder}]
    for i, way in enumerate(ways):
        c = ProjectLoader.load_connections([{"type": "bigquery", "name": "c", **way}])[0]
        I.check_eq(f"credentials {i}", c.credentials, key)
        I.check_eq(f"project {i}", c.project_id, "p-1")
    I.check("the given key is not shared", ProjectLoader.load_connections([{"type": "bigquery", "name": "c", "credentials": key}])[0].credentials is not key)
