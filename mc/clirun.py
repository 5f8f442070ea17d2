"""Runs the command line in this process: run(argv) -> (stdout, outcome)"""
import contextlib
import gc
import io
import os
import sys

# only speed: no lookup of translations, terminal size or garbage for each of the ~100 parsers of one run
os.environ.update(LANGUAGE="C", COLUMNS="100", LINES="50")
RUNS = 0


def run(argv):
    """outcome: 'ok', 'exit N' (argparse or SystemExit) or the exception's name"""
    global RUNS
    import pymap3d.__main__ as cli
    RUNS += 1
    if RUNS % 40 == 1:
        gc.disable()
        gc.collect(1 if RUNS > 1 else 0)
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pymap3d"] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            cli.main()
        how = "ok"
    except SystemExit as e:
        how = "ok" if not e.code else f"exit {e.code}"
    except Exception as e:  # noqa: BLE001
        how = type(e).__name__
    finally:
        sys.argv = old
    return out.getvalue(), how
