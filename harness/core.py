"""Check runner: model-check the specification, record the real code's
behaviour as a trace, let TLC judge the trace against the specification."""
import copy
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
JOBS = min(8, os.cpu_count() or 4)


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, timeout=800, extra=(), mem="1500m", workers="1"):
    """Run TLC on spec/<module>.tla; returns (ok, stdout, stats)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-Xss128m", "-XX:+UseSerialGC",
           "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", workers, "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out = p.stdout
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    st = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else {
        "generated": 0, "distinct": 0}
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m.group(1))
    st["rc"] = p.returncode
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode == 0, out, st


def run_mc(spec, work):
    mod, cfg = spec["module"], spec.get("cfg", spec["module"] + ".cfg")
    t = time.time()
    ok, out, st = tlc(mod, cfg, work, timeout=spec.get("timeout", 800),
                      mem=spec.get("mem", "3g"), workers=spec.get("workers", "2"),
                      extra=spec.get("extra", ()), env=spec.get("env"))
    st["module"], st["cfg"], st["wall_s"] = mod, cfg, round(time.time() - t, 1)
    if spec.get("refute"):       # a wrong design, which the named invariant has to catch
        if "Invariant %s is violated" % spec["refute"] not in out:
            raise Machinery("the model %s does not refute %s:\n%s" % (cfg, spec["refute"], out[-2000:]))
        st["refuted"] = spec["refute"]
        st["scenarios"] = 0
        return st, []
    if not ok:
        raise Machinery("model checking %s failed:\n%s" % (mod, out[-4000:]))
    scen = [json.loads(json.loads('"' + x + '"') if x.startswith("{\\") else x)
            for x in re.findall(r'^"SCEN (.*)"$', out, re.M)]
    if spec.get("expect_states") and st["distinct"] < spec["expect_states"]:
        raise Machinery("model %s explored only %d states" % (mod, st["distinct"]))
    if spec.get("exact_states") and st["distinct"] != spec["exact_states"]:
        raise Machinery("model %s has %d states, not %d" % (cfg, st["distinct"], spec["exact_states"]))
    scen.sort(key=json.dumps)        # the workers of TLC print in any order
    st["scenarios"] = len(scen)
    return st, scen


STRIP = ("canary", "call", "w", "sig", "repro")


def shard(events, nsh):
    """Balance events over nsh shards by weight, keeping order in a shard.
    Events of one session (same 'sess') stay together, in order."""
    groups, order = {}, []
    for ev in events:
        k = ("s", ev["sess"]) if "sess" in ev else ("e", ev["id"])
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(ev)

    def wt(g):
        return sum(e.get("w") or (200 + len(json.dumps(e["out"]))) for e in g)
    order.sort(key=lambda k: -wt(groups[k]))
    load = [0] * nsh
    sh = [[] for _ in range(nsh)]
    for k in order:
        i = load.index(min(load))
        load[i] += wt(groups[k])
        sh[i].extend(groups[k])
    for s in sh:
        s.sort(key=lambda e: e["id"])
    return [s for s in sh if s]


def validate(module, events, work, tag, timeout=800):
    """TLC validates the events; returns ({id: [failing clauses]}, stats)."""
    if not events:
        return {}, {"generated": 0, "distinct": 0}
    shards = shard(events, min(JOBS, max(1, len(events) // 4)))

    def one(i):
        tr = os.path.join(work, "%s%d.ndjson" % (tag, i))
        of = os.path.join(work, "%s%d.out.json" % (tag, i))
        with open(tr, "w") as f:
            for ev in shards[i]:
                f.write(json.dumps({k: v for k, v in ev.items() if k not in STRIP}) + "\n")
        ok, out, st = tlc(module, "Trace.cfg", work, env={"TRACE": tr, "OUT": of},
                          timeout=timeout, mem="2500m")
        if not ok or not os.path.exists(of):
            k = out.find("Error:")
            raise Machinery("trace validation %s failed:\n%s ...\n%s" % (module, out[k:k + 1500], out[-3000:]))
        res = json.load(open(of))
        if res["n"] != len(shards[i]):
            raise Machinery("trace validation %s stopped early" % module)
        return res["bad"], st
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(one, range(len(shards))))
    bad = {}
    tot = {"generated": 0, "distinct": 0}
    for b, st in rs:
        for r in b:
            f = r["fails"]
            bad[r["id"]] = sorted(f if isinstance(f, list) else list(f.values()))
        tot["generated"] += st["generated"]
        tot["distinct"] += st["distinct"]
    return bad, tot


def corrupt(ev):
    """A corrupted copy of an event: its 'canary' names a leaf of ev['out'] by
    path and an amount to add (or a replacement value)."""
    ev2 = copy.deepcopy(ev)
    path, delta = ev["canary"]
    node = ev2
    for k in path[:-1]:
        node = node[k]
    k = path[-1]
    if isinstance(delta, (int, float)) and not isinstance(delta, bool) \
            and isinstance(node[k], int) and not isinstance(node[k], bool):
        node[k] = node[k] + delta
    else:
        if node[k] == delta:
            raise Machinery("canary does not change %r" % (path,))
        node[k] = delta
    return ev2


def load_known(pid):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) sig=(\S+) clauses=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"sig": m.group(2), "clauses": set(m.group(3).split(",")),
                            "what": m.group(4)})
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="ffcheck_")
    sys.pycache_prefix = os.path.join(work, "pyc")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(REPO, "src"))
    try:
        prop = importlib.import_module("props." + pid)
        mcs = [m for m in prop.MC if m.get("tier", "quick") == "quick" or tier == "thorough"]
        ex = ThreadPoolExecutor(4)
        futs = [ex.submit(run_mc, m, work) for m in mcs]
        import rec
        ctx = rec.Ctx(pid, tier, seed)
        if getattr(prop, "USES_SCEN", True):
            mcres = [f.result() for f in futs]
            ctx.scen = [s for _, sc in mcres for s in sc]
        ctx.start()
        prop.drive(ctx)
        mcres = [f.result() for f in futs]
        events = ctx.events
        if len(events) < getattr(prop, "MIN_EVENTS", 10):
            raise Machinery("only %d events recorded" % len(events))
        t1 = time.time()
        bad, tst = validate("T_" + pid, events, work, "t")
        t2 = time.time()
        byid = {e["id"]: e for e in events}
        known = load_known(pid)
        viol, kf = [], {}
        for i in sorted(bad):
            ev = byid[i]
            hit = [k for k in known if k["sig"] == ev.get("sig") and set(bad[i]) <= k["clauses"]]
            if hit:
                kf.setdefault(hit[0]["what"], 0)
                kf[hit[0]["what"]] += 1
            else:
                viol.append(i)
        ncan = 0
        if not viol:
            cans, target, seen, used = [], [], {}, set()
            for ev in events:
                if ev.get("canary") is None or ev["exc"] != "" or ev["id"] in bad:
                    continue
                k = ev["kind"] + "/" + ev.get("fn", "")
                if seen.setdefault(k, 0) >= 2 or ev.get("sess", None) in used:
                    continue
                seen[k] += 1
                target.append(ev["id"])
                if "sess" in ev:             # replay the session up to the corrupted event
                    used.add(ev["sess"])
                    cans.extend(e for e in events if e.get("sess") == ev["sess"] and e["id"] < ev["id"])
                cans.append(corrupt(ev))
            if not cans:
                raise Machinery("no canary")
            cbad, _ = validate("T_" + pid, cans, work, "c")
            miss = [i for i in target if i not in cbad]
            if miss:
                raise Machinery("corrupted events accepted by the specification: %s" % [
                    (byid[i]["kind"], byid[i].get("fn"), byid[i].get("call")) for i in miss])
            ncan = len(target)
        kinds = {}
        for ev in events:
            k = ev["kind"] + ("/" + ev["fn"] if "fn" in ev else "")
            kinds[k] = kinds.get(k, 0) + 1
        nbad = len(viol)
        samples = []
        seen = set()
        for ev in events:
            if ev["kind"] not in seen:
                seen.add(ev["kind"])
                s = json.dumps({k: v for k, v in ev.items() if k not in ("canary", "w")})
                samples.append(s if len(s) < 1500 else s[:1500] + " ...")
        ev_out = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["distinct"] for m, _ in mcres) + tst["distinct"],
                "transitions": sum(m["generated"] for m, _ in mcres) + tst["generated"],
                "traces_validated_against_impl": len(events) - len(bad),
                "samples": samples[:12],
                "model_runs": [m for m, _ in mcres],
                "trace_states": tst["distinct"],
                "recorded_events": len(events),
                "events_by_kind": kinds,
                "corrupted_events_rejected": ncan,
                "known_findings_seen": kf,
            },
            "assumptions": getattr(prop, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": nbad,
        }
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev_out, f, indent=1)
        for w, n in kf.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, pid + "-*.json")):
            os.unlink(old)
        if viol:
            for n, i in enumerate(viol[:int(os.environ.get("VERIF_SHOW", "5"))]):
                path = os.path.join(rdir, "%s-%d.json" % (pid, n))
                with open(path, "w") as f:
                    json.dump({"property": pid, "failing_clauses": bad[i], "seed": seed,
                               "tier": tier, "call": byid[i].get("call"),
                               "event": byid[i]}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  clauses: %s" % ", ".join(bad[i]))
                print("  call: %s" % byid[i].get("call"))
                if byid[i]["exc"]:
                    print("  raised: %s" % byid[i]["exc"])
            print("%d of %d recorded events violate the specification" % (nbad, len(events)))
            return 1
        print("OK property=%s events=%d model_states=%d canaries=%d drive=%.1fs trace=%.1fs wall=%.1fs" % (
            pid, len(events), sum(m["distinct"] for m, _ in mcres), ncan,
            t1 - t0, t2 - t1, time.time() - t0))
        return 0
    except Machinery as e:
        print("ERROR (machinery): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR (machinery): see traceback")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
