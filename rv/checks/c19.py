""" C19: importing a CSV file stores exactly its records """
import os
import sqlite3

from rv.core import expect, fail, scratch_dir
from rv.lib import Model, Relation, SimpleDataSource, Solver, SomeModule, Sqlite3DataSource, Variable
from richard.data_source.CsvImporter import CsvImporter

PID = "C19"
RULE = ("random tables written as CSV by an independent writer (quotes, separators, line ends of all kinds inside and between records, blank lines, no final line end, any mix of quoted and plain "
        "fields), imported in turn into a SQLite or a simple data source that has other contents already, and read back directly and through a relation; "
        "non-trivial: a value that needs quotes; distinct by file")
ASSUMPTIONS = ["all records have as many fields as the header", "the file has the encoding of the platform"]
CASES = {"quick": 48000, "thorough": 150000}
FLOORS = {"records": 80000, "needs_quotes": 30000, "line_ends": 8000, "blank_lines": 4000, "queried": 10000, "sqlite": 4000, "simple": 4000, "many_records": 50, "encodings_refused": 0}

VALUES = ["a", "Amsterdam", "", " ", " a ", "007", "1.50", "-3", "a,b", ",", '"', '""', 'say "hi"', "O'Brien", "line\nbreak", "dos\r\nbreak", "mac\rbreak", "\n", "a;b", "a\tb", "a|b", "é", "日本", "#no",
          "'", "'a'", "None", "NULL", "true", "1e5", "x" * 200, "\\", "\\n", "a\n\nb", '",', '\n"', "= 1 + 1", "id", "name", "a\ufeffb", "\ufeff", "a\u2028b", "a\x0bb", "\x0c", "a\x1cb", "a\x85b", "\xa0x\xa0", "x" * 70000]
COLUMNS = ["id", "name", "born", "value", "c1"]
# a simple data source takes any name for a column
ODD_COLUMNS = [" name", "name ", "Name", "ID", "born (year)", "a,b", 'the "id"', "line\nbreak", "naïve", "0", "#", "None", "BirthPlace", "birth place", "birth-place", "a very long name of a column, with words", "1", "1.0", "x" * 70, "'q'"]


def gen(rng, i, tier):
    tables = []
    sqlite = rng.random() < 0.5 or i % 40 == 13
    for t in range(rng.randint(1, 3)):
        columns = rng.sample(COLUMNS if sqlite else COLUMNS + ODD_COLUMNS, rng.randint(1, 5))
        pool = rng.sample(VALUES, rng.randint(1, 8))
        rows = [[rng.choice(pool) for _ in columns] for _ in range(rng.choice([0, 1, 2, 5, 12]))]
        if i % 200 == 17 and t == 0:
            rows = [[str(k) if c == 0 else "x" if len(v) > 1000 else v for c, v in enumerate(row)] for k, row in enumerate([[rng.choice(pool) for _ in columns] for _ in range(rng.choice([70, 130, 260, 520, 1050, 2100]))])]
        end = rng.choice(["\n", "\n", "\r\n"])
        text = ""
        lines = [columns] + rows
        blanks = 0
        for k, fields in enumerate(lines):
            if rng.random() < 0.1:
                text += end
                blanks += 1
            written = [quote(f, rng) for f in fields]
            if fields == [""]:
                written = ['""']
            text += ",".join(written)
            if k < len(lines) - 1 or rng.random() < 0.8:
                text += end
        tables.append((f"t{t}", columns, rows, text, blanks, rng.choice([1, 1, 1, 2])))
    case = {"tables": tables, "sqlite": sqlite}
    if i % 40 == 13:
        # a table with a key
        case["present"] = [rng.random() < 0.4 for _ in range(12)]
    elif i % 60 == 31 and max(len(t[2]) for t in tables) > 0:
        # a file in another encoding
        case["bytes"] = [rng.choice([b"caf\xe9", b"\xff", b"\xc3", b"M\xfcnchen \xa4", b"\xe6\x97", b"\xed\xa0\x80"]).decode("latin-1"), rng.randrange(1000)]
    return case


def quote(field, rng):
    if any(c in field for c in ',"\r\n') or rng.random() < 0.15:
        return '"' + field.replace('"', '""') + '"'
    return field


class Stored(SomeModule):
    def __init__(self, source, tables):
        super().__init__()
        self.source = source
        for name, columns, *_ in tables:
            self.add_relation(Relation(name, arguments=columns, query_function=self.query))

    def query(self, values, context):
        return self.source.select(context.relation.predicate, context.relation.arguments, values)


def run_encoding(case, mon):
    """ a file that cannot be read as text is refused, or no value is changed """
    source = SimpleDataSource()
    odd = case["bytes"][0].encode("latin-1")
    for name, columns, rows, text, blanks, times in case["tables"]:
        if not rows:
            continue
        path = os.path.join(scratch_dir(), name + ".csv")
        lines = [b",".join(c.encode() for c in columns)] + [b",".join(b"v%d" % n for n in range(len(columns))) for _ in rows]
        k = 1 + case["bytes"][1] % len(rows)
        fields = lines[k].split(b",")
        fields[case["bytes"][1] % len(fields)] = odd
        lines[k] = b",".join(fields)
        with open(path, "wb") as f:
            f.write(b"\n".join(lines) + b"\n")
        try:
            CsvImporter().import_table_from_file(name, path, source)
        except (UnicodeError, Exception):
            mon.count("encodings_refused")
            continue
        finally:
            os.unlink(path)
        values = [v for r in source.select(name, columns, [None] * len(columns)) for v in r]
        readings = []
        for encoding, errors in (("utf-8", "surrogateescape"), ("utf-8", "surrogatepass"), ("latin-1", "strict"), ("cp1252", "strict")):
            try:
                readings.append(odd.decode(encoding, errors))
            except UnicodeError:
                pass
        expect(any(r in values for r in readings), "a value that cannot be read is changed", bytes=repr(odd), observed=values[:10])


def run_keyed(case, mon):
    """ what the table has already stays as it was, also if the file has another record with its key """
    name, columns, rows, text, blanks, times = case["tables"][0]
    db = sqlite3.connect(":memory:")
    db.execute(f"CREATE TABLE {name} ({', '.join(c + ' TEXT' for c in columns)}, PRIMARY KEY ({columns[0]}))")
    source = Sqlite3DataSource(db)
    present = {}
    for row, there in zip(rows, case["present"]):
        if there and row[0] not in present:
            present[row[0]] = [row[0]] + ["older" for _ in row[1:]]
            source.insert(name, columns, present[row[0]])
    path = os.path.join(scratch_dir(), name + ".csv")
    with open(path, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    try:
        CsvImporter().import_table_from_file(name, path, source)
    except sqlite3.IntegrityError:
        mon.count("keys_refused")
        return
    finally:
        os.unlink(path)
    observed = source.select(name, columns, [None] * len(columns))
    details = dict(text=text, columns=columns, observed=observed, present=list(present.values()))
    mon.event("keyed", name, len(rows), len(observed))
    mon.count("keyed")
    for row in present.values():
        expect(row in observed, "the import changed what was in the table", lost=row, **details)
        mon.count("stayed")
    for row in rows:
        if row[0] not in present and sum(1 for r in rows if r[0] == row[0]) == 1:
            expect(row in observed, "a record is not stored", record=row, **details)
    for row in observed:
        expect(row in rows or row in present.values(), "a record is stored that is not in the file", record=row, **details)
    db.close()


def run(case, mon):
    if "bytes" in case:
        return run_encoding(case, mon)
    if "present" in case:
        return run_keyed(case, mon)
    folder = scratch_dir()
    if case["sqlite"]:
        db = sqlite3.connect(":memory:")
        for name, columns, *_ in case["tables"] + [("other", ["a"])]:
            db.execute(f"CREATE TABLE {name} ({', '.join(c + ' TEXT' for c in columns)})")
        source = Sqlite3DataSource(db)
    else:
        source = SimpleDataSource()
    mon.count("sqlite" if case["sqlite"] else "simple")
    source.insert("other", ["a"], ["stays"])
    importer = CsvImporter()
    solver = Solver(Model([Stored(source, case["tables"])]))
    for name, columns, rows, text, blanks, times in case["tables"]:
        path = os.path.join(folder, name + ".csv")
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        for _ in range(times):
            importer.import_table_from_file(name, path, source)
        with open(path, newline="", encoding="utf-8") as f:
            expect(f.read() == text, "the file was changed")
        os.unlink(path)
        expected = rows * times
        observed = source.select(name, columns, [None] * len(columns))
        mon.event("import", name, len(rows), len(observed))
        if sorted(observed) != sorted(expected):
            fail("the stored records are not the records of the file", text=text, columns=columns, observed=observed, expected=expected, source="sqlite" if case["sqlite"] else "simple")
        mon.count("records", len(rows))
        if len(rows) >= 50:
            mon.count("many_records")
        mon.count("blank_lines", blanks)
        special = [v for r in rows for v in r if any(c in v for c in ',"\r\n')]
        mon.count("needs_quotes", len(special))
        mon.count("line_ends", sum(1 for v in special if "\r" in v or "\n" in v))
        for row in rows[:3]:
            k = len(row) // 2
            args = [Variable(f"X{n}") if n != k else row[k] for n in range(len(row))]
            got = solver.solve([(name, *args)])
            want = {tuple(v for n, v in enumerate(r) if n != k) for r in rows if r[k] == row[k]}
            seen = {tuple(b[f"X{n}"] for n in range(len(row)) if n != k) for b in got}
            expect(seen == want, "a query for an imported value gives other records", value=row[k], observed=seen, expected=want)
            mon.count("queried")
        if special:
            mon.nontrivial(text)
            mon.sample({"text": text[:300], "records": rows[:3]})
    for name, columns, rows, text, blanks, times in case["tables"]:
        observed = source.select(name, columns, [None] * len(columns))
        expect(sorted(observed) == sorted(rows * times), "importing a file changed another table", table=name)
    expect(source.select("other", ["a"], [None]) == [["stays"]], "importing a file changed another table")


def shrink(case):
    for t in range(len(case["tables"])):
        if len(case["tables"]) > 1:
            yield dict(case, tables=[case["tables"][t]])
