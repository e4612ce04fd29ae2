import importlib
import json
import os
import resource
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(1, HERE)
sys.path.insert(1, os.path.dirname(HERE))


def main():
    pid, scratch, seed, budget, mode, out = sys.argv[1:7]
    from common import Search, Found, dec, enc
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    s = Search(pid, int(seed), float(budget), mode == "deep", out, os.path.join(scratch, "work"))
    mod = importlib.import_module(pid.lower())
    import clevercsv
    assert os.path.realpath(clevercsv.__file__).startswith(os.path.realpath(scratch)), clevercsv.__file__
    try:
        if len(sys.argv) > 7:
            with open(sys.argv[7]) as fh:
                mod.replay(s, dec(json.load(fh)["input"]))
        else:
            mod.run(s)
    except Found:
        pass
    except Exception as x:
        tb = x.__traceback__
        inside = False
        while tb is not None:
            inside = inside or os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(scratch) + "/clevercsv")
            tb = tb.tb_next
        if not inside:
            raise
        traceback.print_exc()
        s.failures.append({"input": enc(s.cur), "shown": repr(s.cur)[:1500], "expected": "no exception here",
                           "got": traceback.format_exc()[-1500:], "finding": "new"})
    s.save(True)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(3)
