"""C05: detection never changes the field size limit."""
from engine.effects import FrameProof
from engine import smt

ENTRIES = ["clevercsv.consistency.ConsistencyDetector.detect", "clevercsv.consistency.detect_dialect_consistency",
           "clevercsv.detect.Detector.detect", "clevercsv.detect.Detector.sniff", "clevercsv.detect.Detector.has_header",
           "clevercsv.normal_form.detect_dialect_normal", "clevercsv.wrappers.detect_dialect", "clevercsv.wrappers.read_table",
           "clevercsv.wrappers.read_dicts", "clevercsv.wrappers.stream_table", "clevercsv.wrappers.stream_dicts", "clevercsv.wrappers.read_dataframe",
           "clevercsv.console.commands.detect.DetectCommand.handle", "clevercsv.console.commands.standardize.StandardizeCommand.handle_path"]

ASSUMED = {}
CONTRACTS = [FrameProof("the field size limit is in the frame of no detection function", "clevercsv.cparser_util.field_size_limit", ENTRIES,
                        "the field size limit")]
TRUSTED = ["library functions and the C extensions do not call clevercsv.field_size_limit or assign its module variable",
           "call resolution by name: a call x.f() may reach any function or method named f in the package"]
