"""Entry point: check.py C01 — see MANIFEST.json.  Runs one property's check against /repo's working tree."""
import importlib, os, signal, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") != "0" \
        or not os.environ.get("VERIF_REEXEC"):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent",
             MPLBACKEND="Agg", VERIF_REEXEC="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/opt/venv/mplconfig"))
    e.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    rc = 2

    def stuck(*_):
        raise vlib.Hung("the run of the code under test does not end")
    signal.signal(signal.SIGPROF, stuck)        # processor time of this process: independent of the machine's load
    signal.setitimer(signal.ITIMER_PROF, 5000 if ctx.thorough else 450)
    try:
        work = os.path.join(ctx.scratch, "cwd")
        os.makedirs(work)
        os.chdir(work)
        importlib.import_module(prop.lower()).run(ctx)
        rc = ctx.finish()
    except vlib.Machinery as ex:
        print(f"ERROR property={prop} machinery: {ex}", file=sys.stderr)
    except (Exception, vlib.Hung) as ex:
        signal.setitimer(signal.ITIMER_PROF, 0)
        traceback.print_exc()
        if vlib.TIMEOUTS[0] >= 4 or any(os.path.realpath(f.filename).startswith(os.path.realpath(vlib.REPO) + os.sep) for f in traceback.extract_tb(ex.__traceback__)):
            # the code under test raised where no behaviour of the specification does
            rc = ctx.crashed(traceback.format_exc())
        if rc == 2:
            print(f"ERROR property={prop} machinery failure", file=sys.stderr)
    finally:
        os.chdir("/")
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cleanup()
    sys.stdout.flush()
    sys.exit(rc)


main()
