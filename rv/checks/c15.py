""" C15: all data sources answer select, insert and delete in the same way """
import re
import sqlite3
import sys
import types

from rv.core import expect, fail
from rv.lib import SimpleDataSource, Sqlite3DataSource
from richard.data_source.MySqlDataSource import MySqlDataSource
from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource

PID = "C15"
RULE = ("random histories of insert, select, select_column and delete with hostile values (quotes, placeholders, comments, wildcards, control characters, extreme numbers, empty values) and "
        "columns in any order and number, over every data source of the library; the MySQL and PostgreSQL ones run against a stand-in of their driver that is backed by SQLite; "
        "non-trivial: a select with a condition after a change; distinct by history")
ASSUMPTIONS = ["the stand-in driver behaves as the real one for the calls that are made: format placeholders, cursor factories, tuples as rows", "table and column names are the application's own"]
CASES = {"quick": 60000, "thorough": 250000}
FLOORS = {"selects": 60000, "conditioned": 40000, "rows": 30000, "hostile": 25000, "inserts": 50000, "deletes": 2000, "sqlite": 2000, "simple": 2000, "mysql": 1000, "pg2": 1000, "pg3": 1000, "many_records": 50}

TABLES = {"t1": ["a"], "t2": ["a", "b"], "person": ["id", "name", "born"], "wide": ["c1", "c2", "c3", "c4", "c5"]}
VALUES = ["x", "y", "", " ", "O'Brien", '"', "'; DROP TABLE t1; --", "%", "%s", "100%", "_", "?", ":a", "NULL", "None", "a\\", "\\'", "x' OR '1'='1", "é", "日本", "a\nb", "\t", "X", "0", "1", "1.0",
          0, 1, -1, 2, 2 ** 62, -2 ** 63, 1.5, -0.25, 1e300, "a" * 300, "/* c */", "#", ";", "a\0b", "{}", "%(a)s", "${x}", "$1", "e1"]
ALIKE = [0, "0", 1, "1", "1.0", "01", 1.5, "1.5", -1, "-1", "+1", " 1", "1 ", "x", "X", "x ", " x", "", " ", 2 ** 62, str(2 ** 62)]
SQL_KINDS = ["sqlite", "sqlite", "simple", "simple", "mysql", "pg2", "pg3"]


def gen(rng, i, tier):
    kind = rng.choice(SQL_KINDS)
    pool = rng.sample(VALUES, rng.randint(2, 6))
    if kind == "simple" and rng.random() < 0.3:
        # it stores anything
        pool += rng.sample([[], ["x"], [1, 2], [[]], ["x", "y"], ("a",), ()], 2)
    if rng.random() < 0.15:
        # values that are alike, and are not the same
        pool = rng.sample(ALIKE, rng.randint(3, 6))
    nulls = rng.random() < 0.3
    steps = []
    value = lambda p_none: None if rng.random() < p_none else rng.choice(pool)
    for _ in range(rng.randint(5, 25)):
        t = rng.choice(sorted(TABLES))
        columns = list(TABLES[t])
        p = rng.random()
        if p < 0.4:
            if nulls and rng.random() < 0.3:
                row = [value(0.4) for _ in columns]
            else:
                row = [value(0) for _ in columns]
            if rng.random() < 0.2:
                order = rng.sample(range(len(columns)), len(columns))
                columns, row = [columns[k] for k in order], [row[k] for k in order]
            elif nulls and rng.random() < 0.2:
                n = rng.randint(1, len(columns))
                columns, row = columns[:n], row[:n]
            steps.append(("insert", t, columns, row))
        elif p < 0.46 and kind == "sqlite":
            k = rng.randint(1, len(columns))
            columns = rng.sample(columns, k)
            steps.append(("delete", t, columns, [value(0) for _ in columns]))
        else:
            if rng.random() < 0.5:
                columns = rng.sample(columns, rng.randint(1, len(columns)))
            values = [value(rng.choice([0.3, 0.6, 1])) for _ in columns]
            steps.append((rng.choice(["select", "select", "select", "select_column"]), t, columns, values))
    if i % 250 == 11:
        # many records at once
        n = rng.choice([70, 130, 260, 520, 1050, 2100])
        rows = [[k, rng.choice(pool), k % 7] for k in range(n)]
        steps = steps[:4] + [("insert", "person", list(TABLES["person"]), row) for row in rows]
        steps += [("select", "person", ["id", "name", "born"], [None, None, None]), ("select", "person", ["id", "name"], [None, rng.choice(pool)]), ("select", "person", ["id", "born"], [n - 1, None]), ("select", "person", ["name"], [None]), ("select_column", "person", ["name", "born"], [None, 3])]
        if kind == "sqlite":
            steps += [("delete", "person", ["born"], [3]), ("select", "person", ["id", "name", "born"], [None, None, None])]
        return {"kind": kind, "steps": steps, "row_factory": rng.random() < 0.3, "many": n}
    return {"kind": kind, "steps": steps, "row_factory": rng.random() < 0.3}


class FormatCursor:
    """ a DB-API cursor with paramstyle 'format', like those of MySQL and PostgreSQL """

    def __init__(self, connection, as_dict):
        self.connection, self.as_dict = connection, as_dict
        self.cursor = connection.db.cursor()

    def execute(self, sql, params=None):
        if params is None:
            query, params = sql, []
        else:
            # drivers take every % in the statement for a placeholder
            marks = re.findall(r"%.?", sql)
            if any(m not in ("%s", "%%") for m in marks):
                raise ValueError("unsupported format character")
            if len([m for m in marks if m == "%s"]) != len(params):
                raise TypeError("not all arguments converted during string formatting")
            query = sql.replace("?", "<question mark>").replace("%s", "?").replace("%%", "%")
        self.connection.statements.append((sql, list(params)))
        self.cursor.execute(query, list(params))
        return self

    def fetchall(self):
        return self.shaped(self.cursor.fetchall())

    def shaped(self, rows):
        if self.as_dict:
            names = [d[0] for d in self.cursor.description]
            return [dict(zip(names, row)) for row in rows]
        return [tuple(row) for row in rows]

    def __iter__(self):
        return iter(self.fetchall())

    def fetchone(self):
        rows = self.fetchmany(1)
        return rows[0] if rows else None

    arraysize = 1

    def fetchmany(self, size=None):
        return self.shaped(self.cursor.fetchmany(size or self.arraysize))

    @property
    def description(self):
        return self.cursor.description

    @property
    def rowcount(self):
        return self.cursor.rowcount

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.cursor.close()


class FormatConnection:
    """ its default cursor gives dictionaries, if the application has set it up like that """

    def __init__(self, db, kind, dicts):
        self.db, self.kind, self.dicts = db, kind, dicts
        self.statements = []

    def cursor(self, *args, **options):
        if self.kind == "mysql":
            return FormatCursor(self, bool(options.get("dictionary")))
        factory = options.get("cursor_factory" if self.kind == "pg2" else "row_factory")
        return FormatCursor(self, self.dicts and factory is not TUPLES)

    def commit(self):
        pass


class TUPLES:
    pass


def install_stand_ins():
    pg2 = types.ModuleType("psycopg2")
    pg2.extensions = types.ModuleType("psycopg2.extensions")
    pg2.extensions.cursor = TUPLES
    pg3 = types.ModuleType("psycopg")
    pg3.rows = types.ModuleType("psycopg.rows")
    pg3.rows.tuple_row = TUPLES
    sys.modules.update({"psycopg2": pg2, "psycopg2.extensions": pg2.extensions, "psycopg": pg3, "psycopg.rows": pg3.rows})


def run(case, mon):
    install_stand_ins()
    kind = case["kind"]
    db = None
    if kind != "simple":
        db = sqlite3.connect(":memory:")
        for t, columns in TABLES.items():
            db.execute(f"CREATE TABLE {t} ({', '.join(columns)})")
        if kind == "sqlite" and case["row_factory"]:
            db.row_factory = sqlite3.Row
    if kind == "simple":
        source = SimpleDataSource()
    elif kind == "sqlite":
        source = Sqlite3DataSource(db)
    else:
        connection = FormatConnection(db, kind, case["row_factory"])
        source = {"mysql": MySqlDataSource, "pg2": PsycoPg2DataSource, "pg3": PsycoPg3DataSource}[kind](connection)
    mon.count(kind)
    if "many" in case:
        mon.count("many_records")
    content = {t: [] for t in TABLES}
    changed = False
    for step in case["steps"]:
        op, t, columns, values = step
        given = (list(columns), list(values))
        if op == "insert":
            if kind in ("sqlite", "simple"):
                source.insert(t, columns, values)
            else:
                db.execute(f"INSERT INTO {t} ({', '.join(columns)}) VALUES ({', '.join('?' for _ in columns)})", values)
            row = dict(zip(columns, values))
            content[t].append([row.get(c) for c in TABLES[t]])
            changed = True
            mon.count("inserts")
        elif op == "delete":
            source.delete(t, columns, values)
            ix = [TABLES[t].index(c) for c in columns]
            content[t] = [r for r in content[t] if not all(r[k] == v for k, v in zip(ix, values))]
            mon.count("deletes")
        else:
            ix = [TABLES[t].index(c) for c in columns]
            expected = [[r[k] for k in ix] for r in content[t] if all(v is None or r[k] == v for k, v in zip(ix, values))]
            if op == "select":
                observed = source.select(t, columns, values)
                expect(isinstance(observed, list) and all(type(r) is list for r in observed), "rows are not lists", observed=observed, kind=kind, step=step)
            else:
                observed = [[v] for v in source.select_column(t, columns, values)]
                expected = [[r[0]] for r in expected]
            mon.event(op, t, columns, values, len(observed))
            key = lambda r: repr(r)
            if sorted(map(key, observed)) != sorted(map(key, expected)):
                fail("the selected rows are not the rows that match", kind=kind, step=step, observed=observed, expected=expected, content=content[t])
            mon.count("selects")
            mon.count("rows", len(observed))
            if any(v is not None for v in values):
                mon.count("conditioned")
                if any(isinstance(v, str) and not v.isalnum() for v in values):
                    mon.count("hostile")
                if changed:
                    mon.nontrivial((kind, case["steps"].index(step), case["steps"][:40]))
                    mon.sample({"source": kind, "select": (t, columns, values), "rows": observed[:3]})
            # what was returned belongs to the caller
            if op == "select":
                for r in observed:
                    r[:] = ["changed by the caller"] * len(r)
                observed.clear()
        expect((list(columns), list(values)) == given, "the arguments were changed", step=step, observed=(columns, values))
    if db is not None:
        for t in TABLES:
            rows = [tuple(r) for r in db.execute(f"SELECT {', '.join(TABLES[t])} FROM {t}")]
            expect(sorted(map(repr, rows)) == sorted(repr(tuple(r)) for r in content[t]), "the content of a table is not what was inserted and deleted", kind=kind, table=t, observed=rows, expected=content[t])
        db.close()


def shrink(case):
    for k in range(len(case["steps"])):
        yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
