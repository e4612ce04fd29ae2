"""What _csv.writer writes (QUOTE_MINIMAL, doublequote): an assumed contract of the library.

`emit` says what one character of a cell becomes; it is used twice: on symbolic characters in the lemmas of
specs/c02.py, and on concrete ones in search/c02.py, which compares `text` with what csv.writer really writes."""
LF, CR = 10, 13


def emit(c, q, e, truth=bool):
    """the characters written for the character c of a cell"""
    if truth(c == q):
        return [q, q]
    if truth(c == e):
        return [e, e]
    return [c]


def special(c, d, q):
    """characters that make the writer quote their cell"""
    return (c == d, c == q, c == LF, c == CR)


def quoted(cell, alone, d, q):
    """alone: the only cell of its row"""
    return any(any(special(c, d, q)) for c in cell) or (alone and not cell)


def text(rows, d, q, e, lt):
    """the whole text for concrete rows (a missing escape character is '')"""
    d, q, e = ord(d), ord(q), ord(e) if e else -1
    out = []
    for row in rows:
        for k, cell in enumerate(row):
            cell = [ord(c) for c in cell]
            if k:
                out.append(d)
            qt = quoted(cell, len(row) == 1, d, q)
            if qt:
                out.append(q)
            for c in cell:
                out += emit(c, q, e)
            if qt:
                out.append(q)
        out += [ord(c) for c in lt]
    return "".join(map(chr, out))
