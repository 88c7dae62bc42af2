#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: workloads are executed by the library (built from /repo's working tree), the
recorded calls are validated by TLC against the specification (spec/Trace.tla over spec/System.tla);
additionally the specification-only models of the property are checked by TLC.
Exit 0: nothing found. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import genbig                                                               # noqa: E402
import genhash                                                              # noqa: E402
import specgen                                                              # noqa: E402
import plans                                                                # noqa: E402
import vlib                                                                 # noqa: E402

KNOWN = os.path.join(vlib.VERIF, "known-findings.txt")
BATCH_BYTES = 3000000


def make_script(unit, seed):
    name, part, parts, kw = unit
    rng = random.Random("%s/%s/%s/%s" % (seed, name, part, sorted(kw.items(), key=str)))
    if name.startswith("tlc_"):
        return specgen.script(name, rng, part, parts, seed=seed, **kw)
    f = next(getattr(m, name) for m in (gen, genbig, genhash) if hasattr(m, name))
    return f(rng, part, parts, **kw) if name.startswith("ex_") else f(rng, **kw)


def run_batch(args):
    """Several scripts -> one trace -> TLC. Returns (mismatches, events, transitions, ops, sample, scripts)."""
    module, binary, units, seed, scratch, deadline = args
    d = tempfile.mkdtemp(dir=scratch)
    try:
        events, where, done = [], [], 0
        mism, trans, ops, sample, nev = [], 0, {}, None, 0

        def flush():
            nonlocal events, where, trans, nev
            if not events:
                return
            mm, tr = vlib.validate(events, d, module=module)
            trans += tr
            nev += len(events)
            for m in mm:
                u, k = where[m["line"] - 1]
                e = dict(events[m["line"] - 1])
                mism.append(dict(m, unit=u, event=k, data=e))
            events, where = [], []

        size = 0
        for u in units:
            if time.time() > deadline:
                break
            ev = vlib.run_script(binary, make_script(u, seed), d)
            done += 1
            if ev and ev[-1]["op"] == "crash" and ev[-1]["why"] == "timeout":
                deadline = 0
            if not ev or ev[-1]["op"] != "reset":
                ev.append({"op": "reset"})
            if sample is None and len(ev) > 3:
                sample = [short(e) for e in ev[:6]]
            for i, e in enumerate(ev):
                ops[e["op"]] = ops.get(e["op"], 0) + 1
                events.append(e)
                where.append((u, i))
            size += len(json.dumps(ev))
            if size > BATCH_BYTES:
                flush()
                size = 0
        flush()
        return mism, nev, trans, ops, sample, done
    finally:
        shutil.rmtree(d, ignore_errors=True)


def short(e):
    s = {k: v for k, v in e.items()}
    return json.dumps(s)[:400]


def confirm(prop, m, module, binary, seed, scratch):
    """Run the script again, cut after the mismatching call; the mismatch has to repeat."""
    script = make_script(m["unit"], seed)
    cut = script[:m["event"] + 1]
    for s in (cut, script):
        try:
            ev = vlib.run_script(binary, s, scratch)
        except vlib.CheckError:
            continue
        mm, _ = vlib.validate(ev, scratch, module=module)
        for x in mm:
            if prop in x["props"]:
                s2 = s[:x["line"]]
                return s2, x, ev[x["line"] - 1]
    return None


def known_findings(prop):
    """finding: property=<id> match=<kind>|<substring of the event> :: text      (see the file)"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                head, text = line.split(" :: ", 1)
                kind, sub = head.split("match=", 1)[1].split("|", 1)
                res.append((kind, sub, text))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit = 420 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "5400"))
    deadline = t0 + limit
    plan = plans.plan(prop, tier)
    os.makedirs(vlib.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=vlib.BUILD)
    total = {"events": 0, "transitions": 0, "states": 0, "scripts": 0, "planned": 0}
    ops, samples, models, mism, notes = {}, [], [], [], {}
    rc = 0
    try:
        vlib.build_classes()
        binaries = {}
        for stage in plan["stages"]:
            k = (stage["driver"], stage.get("flavour", "asan"))
            if k not in binaries:
                binaries[k] = vlib.build_driver(*k)
        graphs = {}
        for stage in plan["stages"]:
            for name, part, parts, kw in stage["units"]:
                if name.startswith("tlc_") and part == 0:
                    graphs[specgen.path(name, kw), kw.get("only")] = (name, kw)
        generated = []
        with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
            for (name, kw), (st, tr) in zip(graphs.values(), ex.map(lambda a: specgen.generate(a[0], a[1], scratch), graphs.values())):
                chosen, edges = specgen.count(name, kw, seed)
                generated.append({"module": specgen.MODULE[name], "constants": specgen.constants(kw), "states": st,
                                  "transitions": edges, "selected": kw.get("only", "all"), "executed_transitions": chosen})
        with cf.ProcessPoolExecutor(vlib.JOBS) as ex:
            futures = {}
            for mod in plan.get("models", []):
                futures[ex.submit(vlib.model_check, mod, scratch, deadline)] = ("model", mod, None)
            for stage in plan["stages"]:
                units = stage["units"]
                total["planned"] += len(units)
                order = list(units)
                random.Random(seed).shuffle(order)
                k = max(1, min(len(order), stage.get("batches", vlib.JOBS)))
                b = binaries[(stage["driver"], stage.get("flavour", "asan"))]
                for i in range(k):
                    part = order[i::k]
                    a = (stage["module"], b, part, seed, scratch, deadline)
                    futures[ex.submit(run_batch, a)] = ("run", stage, b)
            for f in cf.as_completed(futures):
                what, x, b = futures[f]
                r = f.result()
                if what == "model":
                    models.append(r)
                    total["states"] += r["distinct"]
                    total["transitions"] += r["states"]
                    continue
                mm, nev, tr, o, sample, done = r
                for m in mm:
                    m["module"], m["binary"] = x["module"], b
                mism += mm
                total["events"] += nev
                total["transitions"] += tr
                total["states"] += tr
                total["scripts"] += done
                for k, v in o.items():
                    ops[k] = ops.get(k, 0) + v
                if sample and len(samples) < 3:
                    samples.append(sample)
        # ---- judge
        mine = [m for m in mism if prop in m["props"]]
        for m in mism:
            if prop not in m["props"]:
                k = "%s %s -> %s" % (m["op"], ",".join(m["kinds"]), ",".join(m["props"]))
                notes[k] = notes.get(k, 0) + 1
        for k, v in sorted(notes.items()):
            print("note: %d mismatch(es) of other properties: %s" % (v, k))
        mine.sort(key=lambda m: m["event"])
        findings, reported, unrepeated, violations = known_findings(prop), set(), 0, 0
        for m in mine[:40]:
            c = confirm(prop, m, m["module"], m["binary"], seed, scratch)
            if c is None:
                unrepeated += 1
                continue
            script, x, event = c
            hit = [t for kind, sub, t in findings if kind in x["kinds"] and sub in json.dumps(event)]
            if hit:
                reported.update(hit)
                continue
            d = os.path.join(vlib.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (prop, violations))
            with open(path, "w") as f:
                json.dump({"property": prop, "mismatch": x, "event": event, "script": script, "module": m["module"],
                           "driver": os.path.basename(m["binary"]).split("-")[0],
                           "replay_with": "python3 /verif/tools/replay.py " + path}, f, indent=1)
            violations += 1
            rc = 1
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  call %d (%s): %s; %s" % (x["line"], x["op"], ", ".join(x["kinds"]), short(event)))
            break
        for t in sorted(reported):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        if unrepeated and not rc:
            print("note: %d mismatch(es) did not repeat" % unrepeated)
        for m in models:
            if not m["ok"]:
                raise vlib.CheckError("the specification itself fails: %s\n%s" % (m["name"], m["out"]))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": total["states"], "transitions": total["transitions"],
                  "traces_validated_against_impl": total["scripts"],
                  "calls_validated": total["events"],
                  "calls_by_kind": ops,
                  "workloads": plan["describe"],
                  "generated_from_spec": generated,
                  "models": [{k: m[k] for k in ("name", "states", "distinct", "wall_s", "checked")} for m in models],
                  "planned_scripts": total["planned"],
                  "samples": samples or [["no trace: models only"]],
              },
              "assumptions": plan["assumptions"],
              "wall_s": round(time.time() - t0, 1), "violations": violations}
        os.makedirs(vlib.EVIDENCE, exist_ok=True)
        with open(os.path.join(vlib.EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d scripts, %d calls, %d transitions, %d models, %.1f s, %s" % (
            prop, tier, total["scripts"], total["events"], total["transitions"], len(models), time.time() - t0,
            "VIOLATED" if rc else "held"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        code = main()
    except vlib.CheckError as e:
        print("check failed: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
