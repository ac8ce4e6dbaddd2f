"""Runs cases through the real library: drive.py MODULE CASES OUT SEED TIER START"""
import importlib, json, os, random, sys, traceback, warnings

mod_name, cases_f, out_f, seed, tier, start = sys.argv[1:7]
warnings.filterwarnings("ignore")
try:
    seed, start = int(seed), int(start)
    mod = importlib.import_module(mod_name)
    import defaults
    defaults.install()
    cases = [json.loads(x) for x in open(cases_f) if x.strip()]
    if tier != "replay":
        cases = [c for c in cases] + list(mod.gen(random.Random(seed), tier))
except BaseException:
    traceback.print_exc()
    sys.exit(3)

with open(out_f, "a" if start else "w") as out:
    for i, c in enumerate(cases):
        if i < start:
            continue
        with open(out_f + ".current", "w") as f:
            json.dump({"index": i, "event": c}, f)
        try:
            res = mod.run(c)
        except (KeyboardInterrupt, SystemExit):
            raise
        except AssertionError:
            traceback.print_exc()
            sys.exit(3)
        except BaseException as e:  # a panic in the code under test is data
            res = {"exc": type(e).__name__}
            print(i, c.get("op"), type(e).__name__, str(e)[:300], file=sys.stderr)
        if res is None:         # nothing to ask for this case
            continue
        out.write(json.dumps({**c, **res.pop("event", {}), "res": res}) + "\n")
        out.flush()
