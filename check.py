#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py P01 [--tier thorough] [--replay FILE]

 1. builds the extension module from /repo's working tree;
 2. TLC model-checks the design configurations of the property's specification (mc);
 3. TLC enumerates the specification's small scope and prints the inputs of each behaviour (gen);
 4. a driver runs those inputs, and the seeded ones it makes itself, through the real library
    and records one event per call or history (drive);
 5. TLC validates every recorded event against the specification (trace): the verdict is TLC's.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PY = "/opt/vp/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import CHECKS  # noqa: E402


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    with open("/tmp/.verif-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["bash", "-c", r"""
. /opt/vp/env.sh; cd /repo || exit 1
cargo build --locked --offline --lib || exit 1
if ! cmp -s target/debug/lib_polars_ds.so "$EXT"; then
  cp target/debug/lib_polars_ds.so "$EXT.new" && mv -f "$EXT.new" "$EXT" || exit 1
fi
if [ -z "$(ls -A "$META" 2>/dev/null)" ]; then
  mkdir -p "$META" && /opt/vp/venv/bin/maturin pep517 write-dist-info --metadata-directory "$META" \
    --interpreter "$PYO3_PYTHON" --offline || exit 1
fi"""])
        if r.returncode:
            raise ToolError("the extension module does not build:\n" + r.stdout[-4000:])


def java_classes(work):
    out = os.path.join(work, "classes")
    os.makedirs(out)
    src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
    r = sh(["javac", "-nowarn", "-cp", TLA, "-d", out] + src)
    if r.returncode:
        raise ToolError("javac: " + r.stdout[-3000:])
    return out


def tlc(work, classes, module, cfg=None, env=None, workers=8, timeout=600, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides",
           f"-Djava.io.tmpdir={meta}", "-cp", classes + ":" + TLA, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        r = sh(cmd, cwd=os.path.join(VERIF, "spec"), env=e, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC on {module} ({cfg}) exceeded {timeout} s: {str(ex.stdout)[-1500:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.stdout = re.sub(r"(?m)^(Parsing file|Semantic processing|Linting of) .*\n", "", r.stdout)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout):
        pass
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return r.returncode, r.stdout, gen, dist


def drive(work, pid, mod, cases, tier, seed, budget):
    """Runs the driver; a crash or a hang of the process is recorded as the result of the case it was running."""
    out = os.path.join(work, "trace.ndjson")
    cin = os.path.join(work, "cases.ndjson")
    with open(cin, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    env = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "VIRTUAL_ENV"):
        env.pop(k, None)
    env.update(PYTHONPATH=f"{REPO}/python:{REPO}/target/pydist:{VERIF}/lib:{VERIF}/drivers", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", PYTHONUTF8="1", RUST_BACKTRACE="0", POLARS_MAX_THREADS="4", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=work,
               POLARS_VERBOSE="0")
    start, t0, restarts = 0, time.time(), 0
    while True:
        left = budget - (time.time() - t0)
        if left <= 0:
            raise ToolError("the driver used up its time")
        log = open(os.path.join(work, "driver.log"), "a")
        p = subprocess.Popen([PY, os.path.join(VERIF, "lib", "drive.py"), mod, cin, out, str(seed), tier, str(start)],
                             env=env, cwd=work, stdout=log, stderr=log)
        hang = False
        last, lastt = -1, time.time()
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                sz = os.path.getsize(out) if os.path.exists(out) else 0
                if sz != last:
                    last, lastt = sz, time.time()
                if time.time() - lastt > 90 or time.time() - t0 > budget:
                    hang = True
                    p.kill()
                    p.wait()
                    break
        log.close()
        if p.returncode == 0 and not hang:
            break
        if p.returncode == 3:  # the driver itself failed (not the library)
            raise ToolError("driver: " + open(log.name, errors="replace").read()[-3000:])
        lines = open(out).read().split("\n") if os.path.exists(out) else []
        if lines and lines[-1] != "":      # a half-written line
            lines[-1] = ""
        cur_f = out + ".current"
        if not os.path.exists(cur_f):
            raise ToolError(f"driver ended with {p.returncode}: " + open(log.name, errors="replace").read()[-3000:])
        cur = json.load(open(cur_f))
        cur["event"]["res"] = {"exc": "hang" if hang else f"process died ({p.returncode})"}
        body = [x for x in lines if x]
        body = body[:cur["index"]] + [json.dumps(cur["event"])]
        with open(out, "w") as f:
            f.write("\n".join(body) + "\n")
        start = cur["index"] + 1
        restarts += 1
        if restarts > 5:
            break
    return out


def validate(work, classes, module, cfg, trace, timeout):
    """Returns (rejected indices with reasons, states, transitions, accepted count)."""
    events = [x for x in open(trace).read().split("\n") if x]
    alive = list(range(len(events)))
    rejected = {}
    states = trans = 0
    for _ in range(6):
        sub = os.path.join(work, "trace.cur.ndjson")
        with open(sub, "w") as f:
            f.write("\n".join(events[i] for i in alive) + "\n")
        rc, txt, gen, dist = tlc(work, classes, module, cfg, env={"TRACE_FILE": sub}, timeout=timeout)
        states, trans = states + dist, trans + gen
        for m in re.finditer(r'<<"REJECT", (\d+)(?:, (.*))?>>', txt):
            rejected[alive[int(m.group(1)) - 1]] = m.group(2) or ""
        if rc == 0 and "No error has been found" in txt:
            judged = len(re.findall(r'<<"UNJUDGED"', txt))
            return rejected, states, trans, len(alive) - len([i for i in rejected if i in alive]), judged
        m = re.findall(r"/\\ ev = (\d+)", txt)
        if not m:
            raise ToolError(f"TLC on {module}: " + txt[-4000:])
        bad = alive[int(m[-1]) - 1]
        why = re.search(r"Error: (.*?)\n(?:Error: The behavior|The error occurred|\d+\. )", txt, re.S)
        rejected[bad] = "outside the specification's vocabulary: " + (why.group(1) if why else txt[-1500:]).replace("\n", " ")[:600]
        alive = [i for i in alive if i not in rejected]
        if not alive:
            break
    return rejected, states, trans, 0, 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    spec = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    rc = 2
    try:
        rc = run(a, pid, spec, tier, seed, work, t0)
    except ToolError as e:
        print(f"ERROR {pid}: {e}")
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def run(a, pid, spec, tier, seed, work, t0):
    budget = 780 if tier == "quick" else 7200
    if not a.no_build:
        build()
    t_build = time.time() - t0
    classes = java_classes(work)
    states = trans = 0
    notes = {}
    # 2. design configurations; 3. generated behaviours: run side by side
    jobs = []
    if not a.replay:
        jobs = [("mc", j) for j in [("RatMC", None)] + spec.get("mc", [])] + [("gen", j) for j in spec.get("gen", [])]
        if tier == "thorough":
            jobs += [("mc", j) for j in spec.get("mc_thorough", [])] + [("gen", j) for j in spec.get("gen_thorough", [])]
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda j: tlc(work, classes, j[1][0], j[1][1], workers=1, timeout=budget), jobs))
    cases = []
    for (kind, (m, c)), (rc, txt, g, d) in zip(jobs, outs):
        if rc != 0 or "No error has been found" not in txt:
            raise ToolError(f"{kind} {m} {c}: the specification itself fails\n" + txt[-4000:])
        states, trans = states + d, trans + g
        notes[f"{kind}:{c or m}"] = {"states": d, "generated": g}
        if kind == "gen":
            n0 = len(cases)
            for mm in re.finditer(r'^"CASE (.*)"$', txt, re.M):
                cases.append(json.loads(mm.group(1).replace('\\"', '"').replace("\\\\", "\\")))
            cases[n0:] = sorted(cases[n0:], key=lambda x: json.dumps(x, sort_keys=True))
            notes[f"{kind}:{c or m}"]["cases"] = len(cases) - n0
            if len(cases) == n0:
                raise ToolError(f"{m} {c} generated no cases")
    if a.replay:
        cases = [json.load(open(a.replay))]
        for c in cases:
            c.pop("res", None)
    t_mc = time.time() - t0 - t_build
    trace = drive(work, pid, spec["driver"], cases, "replay" if a.replay else tier, seed, budget - (time.time() - t0))
    t_drv = time.time() - t0 - t_build - t_mc
    events = [json.loads(x) for x in open(trace).read().split("\n") if x]
    if not events:
        raise ToolError("no events were recorded")
    rejected, s2, tr2, accepted, unjudged = validate(work, classes, spec["trace"][0], spec["trace"][1], trace, budget - (time.time() - t0))
    states, trans = states + s2, trans + tr2
    t_val = time.time() - t0 - t_build - t_mc - t_drv
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    known = {k["kf"]: k for k in known if k["property"] == pid}
    viol, kf = [], {}
    for i, why in sorted(rejected.items()):
        tag = events[i].get("kf")
        if tag and tag in known:
            kf.setdefault(tag, []).append(i)
        else:
            viol.append((i, why))
    for k in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if not a.replay:
        for f in os.listdir(rdir):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))
    viol.sort(key=lambda v: v[1] == "")
    for i, why in viol[:10]:
        p = os.path.join(rdir, f"{pid}-{i}{'-r' if a.replay else ''}.json")
        json.dump(events[i], open(p, "w"))
        print(f"VIOLATION property={pid} replay={p}")
        print("  the specification rejects:", json.dumps(events[i])[:300], why[:700])
    if a.keep:
        with open(os.path.join(work, "rejected.ndjson"), "w") as f:
            for i, why in viol:
                f.write(json.dumps(events[i]) + "\n")
    ops = {}
    for e in events:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
    nontrivial = len(set(hashlib.sha1(json.dumps({k: v for k, v in e.items() if k != "n"}, sort_keys=True).encode()).hexdigest() for e in events))
    step = max(1, len(events) // 5)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": accepted,
                       "events_recorded": len(events), "distinct_events": nontrivial, "events_by_operation": ops,
                       "tlc_runs": notes, "cases_from_specification": len(cases),
                       "left_open_by_specification": unjudged, "rejected": len(rejected), "known_findings_seen": sorted(kf),
                       "samples": [json.dumps(e)[:800] for e in events[::step][:5]],
                       "seconds": {"build": round(t_build, 1), "model_checking": round(t_mc, 1), "driver": round(t_drv, 1), "trace_validation": round(t_val, 1)}},
          "assumptions": spec.get("assumptions", []),
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    if not a.replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {len(events)} events, {accepted} accepted ({unjudged} left open), {len(rejected)} rejected ({len(viol)} new); "
          f"{states} states; build {t_build:.0f}s mc {t_mc:.0f}s drive {t_drv:.0f}s validate {t_val:.0f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    main()
