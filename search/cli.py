"""Running the command line application inside the process."""
import contextlib
import csv
import io
import itertools
import os

import oracle

POOL = ["a", "b", "xyz", "12", "3.5", "", "hello world", "é", "N/A", "2020-01-01", "x,y", "p;q", 'say "hi"', "it's", "two\nlines", "tail ", "\u4f60", "-"]


def run(argv):
    """(exit code, stdout, stderr, exception) of the application"""
    from clevercsv.console.application import build_application
    out, err = io.StringIO(newline=""), io.StringIO()
    code = exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = build_application().run(list(argv))
        except SystemExit as x:
            code = ("exit", x.code)
        except Exception as x:
            exc = x
    return code, out.getvalue(), err.getvalue(), exc


def standard(text, dialect, transpose):
    """standard form of a text, or None when it cannot be read"""
    rows = oracle.text_rows(text, dialect.delimiter, dialect.quotechar, dialect.escapechar, dialect.strict, flags=False)
    if rows is None:
        return None
    if transpose:
        rows = [list(c) for c in itertools.zip_longest(*rows, fillvalue="")]
    out = io.StringIO(newline="")
    csv.writer(out, "excel").writerows(rows)
    return out.getvalue()


def messy(rng, ragged=None):
    """a text that looks like a csv file"""
    n, m = rng.randint(0, 6), rng.randint(1, 4)
    if rng.random() < 0.1:
        n = rng.randint(20, 60)
    d = rng.choice([",", ",", ";", "\t", "|", "^", " "])
    q = rng.choice(['"', '"', "'", "", "~"])
    nl = rng.choice(["\r\n", "\r\n", "\n", "\r"])
    rows = []
    for i in range(n):
        k = m
        if (ragged if ragged is not None else rng.random() < 0.3) and rng.random() < 0.4:
            k = rng.randint(0, 5)
        cells = []
        for _ in range(k):
            c = rng.choice(POOL)
            if q and (rng.random() < 0.3 or any(x in c for x in (d, q, "\n"))):
                c = q + c.replace(q, q + q) + q
            elif not q:
                c = c.replace(d, "_").replace("\n", " ").replace('"', "").replace("'", "")
            cells.append(c)
        rows.append(d.join(cells))
    return nl.join(rows) + (nl if rng.random() < 0.7 else "")


def put(path, data):
    with open(path, "wb") as fh:
        fh.write(data)


def get(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as fh:
        return fh.read()
