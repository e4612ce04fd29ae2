"""The CSV grammar as a specification: one step per character, written independently of the C code.

`step` is used twice: run on concrete characters it is the oracle of the bounded search; run on
symbolic characters it is the specification the C step function is proved against.  Truth(x) decides
a condition (concretely, or by forking the proof path)."""

# modes
REC, FLD, ESC, TXT, QTD, QESC, QQ, EOL, AESC = range(9)
MODES = ["START_RECORD", "START_FIELD", "ESCAPED_CHAR", "IN_FIELD", "IN_QUOTED_FIELD", "ESCAPE_IN_QUOTED_FIELD",
         "QUOTE_IN_QUOTED_FIELD", "EAT_CRNL", "AFTER_ESCAPED_CRNL"]
NUL, LF, CR = 0, 10, 13


class Out:
    """effects of one step: characters collected, cell finished, new mode, error"""

    def __init__(self, mode):
        self.mode, self.add, self.save, self.error = mode, [], False, None
        self.open = False       # an opening quote at the start of the cell was collected
        self.close = False      # a closing quote was collected last


def step(mode, u, v, d, q, e, strict, truth=bool):
    """one character u (0: end of the line) with the next one v (0: none)"""
    o = Out(mode)
    nl = truth((u == CR) | (u == LF)) if not isinstance(u, int) else u in (CR, LF)
    end = truth(u == NUL)

    def is_(x, c):
        return truth(x == c)

    def finish(after_delim=False):
        o.save = True
        o.mode = FLD if after_delim else (REC if end else EOL)
        return o

    if mode == REC:
        if end:
            return o                        # an empty line gives an empty row
        if nl:
            o.mode = EOL
            return o
        mode = FLD
        o.mode = FLD
    if mode == FLD:
        if nl or end:
            return finish()
        if is_(u, q):
            o.add, o.open, o.mode = [u], True, QTD
        elif is_(u, e):
            o.mode = ESC
        elif is_(u, d):
            return finish(True)
        else:
            o.add, o.mode = [u], TXT
        return o
    if mode == ESC:
        if nl:
            o.add, o.mode = [u], AESC
        elif end:
            o.mode = TXT
        else:
            special = is_(u, d) or is_(u, e) or is_(u, q)
            o.add, o.mode = ([u] if special else [e, u]), TXT
        return o
    if mode == AESC and end:
        return o                            # the escaped line end continues the row on the next line
    if mode in (TXT, AESC):
        if nl or end:
            return finish()
        if is_(u, e):
            o.mode = ESC
        elif is_(u, q):
            o.add, o.mode = [u], QTD
        elif is_(u, d):
            return finish(True)
        else:
            o.add = [u]                     # (the mode stays)
        return o
    if mode == QTD:
        if end:
            return o
        if is_(u, e):
            o.mode = QESC
        elif is_(u, q):
            if is_(v, q):
                o.mode = QQ
            elif truth(strict) and not (is_(v, d) or is_(v, CR) or is_(v, LF) or is_(v, NUL)):
                o.error = "text after a closing quote"
            else:
                o.add, o.close, o.mode = [u], True, TXT
        else:
            o.add = [u]
        return o
    if mode == QESC:
        o.mode = QTD
        if end:
            o.add = [LF]
        elif is_(u, e) or is_(u, d) or is_(u, q):
            o.add = [u]
        else:
            o.add = [e, u]
        return o
    if mode == QQ:
        # only reached when the lookahead was a quote: u is that quote
        o.add, o.mode = [u], QTD
        return o
    if mode == EOL:
        if nl:
            return o
        if end:
            o.mode = REC
        else:
            o.error = "text after a line end"
        return o
    raise AssertionError(mode)


def cell(raw, opened, closed_at, unterminated):
    """(text, quoted) of the collected characters"""
    if opened and closed_at == len(raw):
        return raw[1:-1], True
    if unterminated and opened:
        return raw[1:], True
    return raw, False


def parse(lines, d, q, e, strict, limit=None):
    """(rows, error) for concrete input; each cell is (text, quoted)"""
    d, q, e = [ord(c) if c else NUL for c in (d, q, e)]
    # a missing character never matches: use an impossible code
    d2, q2, e2 = [c if c else -1 for c in (d, q, e)]
    rows = []
    it = iter(lines)
    while True:
        mode, raw, cells = REC, [], []
        opened, closed_at = False, 0

        def save(trail=False):
            nonlocal raw, opened, closed_at
            t, quoted = cell("".join(map(chr, raw)), opened, closed_at, trail and mode == QTD)
            cells.append((t, quoted))
            raw, opened, closed_at = [], False, 0
        while True:
            try:
                line = next(it)
            except StopIteration:
                if mode == REC:
                    return rows, None
                if strict:
                    return rows, "unexpected end of data"
                save(True)
                rows.append(cells)
                return rows, None
            if not isinstance(line, str):
                return rows, "not a string"
            for i, c in enumerate(line + "\0"):
                u = ord(c)
                if i < len(line) and u == NUL:
                    return rows, "NUL"
                v = ord(line[i + 1]) if i + 1 < len(line) else NUL
                o = step(mode, u, v, d2, q2, e2, strict)
                if o.error:
                    return rows, o.error
                for ch in o.add:
                    if limit is not None and len(raw) >= limit:
                        return rows, "limit"
                    raw.append(ch)
                if o.open:
                    opened = True
                if o.close:
                    closed_at = len(raw)
                if o.save:
                    save()
                mode = o.mode
            if mode == REC:
                break
        rows.append(cells)
