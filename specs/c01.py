"""C01: parsing follows the CSV grammar exactly.

ProcessChar: one call of parse_process_char is one step of the grammar of engine/grammar.py;
IterNext: one call of next() reads the rows of the grammar, line by line, to the end of the input;
ParserNew: the grammar's parameters are the arguments; ParseData/ParseString: the Python layer adds nothing."""
from engine import csvlib as L
from engine.contracts import without
from engine.capi import TRUST_CAPI, TRUST_CFRONT
from specs import c04, cpars
from specs.cpars import SetBool, SetChar, SetLong, SaveField, AddChar, ProcessChar, IterNext, ParserNew

ASSUMED = {}
# C04's
LIMIT = ("collecting beyond the limit", "no more characters than the limit", "the field limit is", "the parser uses the field size limit")
C_PART = [without(c, *cpars.LEAKS, *LIMIT) for c in (IterNext(), ProcessChar(), SaveField(), AddChar(), ParserNew(), SetBool(), SetLong(), SetChar())]
CONTRACTS = C_PART + [without(c, *LIMIT) for c in (c04.ParseData(), c04.ParseString())]
TRUSTED = [TRUST_CAPI, TRUST_CFRONT, L.TRUST_PARSER, "io.StringIO(text, newline='') delivers the lines of the text with their line ends"]
