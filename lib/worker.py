"""Runs cases of one check against one variant; one JSON line per event."""
import sys, os, json, importlib.util, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

def main():
    check, variant, digest = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                       # the library's own printing
    def say(**k):
        out.write(json.dumps(k, default=str) + "\n"); out.flush()
    try:
        spec = importlib.util.spec_from_file_location("check", check)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["check"] = mod
        spec.loader.exec_module(mod)
        if variant == "-":
            g = None
        else:
            import glu
            g = glu.Glu(variant, digest)
    except Exception:
        say(ev="fatal", err=traceback.format_exc()); return
    say(ev="ready")
    for line in sys.stdin:
        n, case = json.loads(line)
        say(ev="start", n=n)
        try:
            r = mod.run(case, g)
            say(ev="done", n=n, res=r)
        except Exception as e:
            t = traceback.format_exc()
            # output the oracle could not even interpret is a finding; a
            # missing function, file or tool is the harness's own trouble
            lim = isinstance(e, (ValueError, KeyError, IndexError, AssertionError,
                                 ArithmeticError, UnicodeError, TypeError)) or \
                type(e).__name__ in ("LinAlgError", "error")
            say(ev="exc" if lim else "err", n=n, err=t, kind=type(e).__name__)
    say(ev="bye")
    out.flush()
    os._exit(0)

main()
