#!/usr/bin/env python3
"""check.py ID [quick|thorough]   exit 0: property held on everything explored; exit 1: VIOLATION; exit 2: machinery error"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    # sets and hashes in the same order in every run of one seed
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, tier, seed)
    rc = 2
    try:
        try:
            mod.run(ctx)
        except vlib.Violation as v:
            ctx.violation(v.what, v.replay)
        except vlib.Enough:
            pass
        ctx.finish()
        for k in ctx.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for what, path in ctx.violations[:20]:
            print("  " + what.replace("\n", "\n    ")[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1 if ctx.violations else 0
        ctx.log("done: %d states, %d traces, %d events, %d violations" % (ctx.states, ctx.traces, ctx.events, len(ctx.violations)))
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR %s: internal" % pid)
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
