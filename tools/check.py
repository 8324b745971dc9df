#!/usr/bin/env python3
"""tools/check.py PROPERTY [quick|thorough]

Runs the TLA+ machines that decide PROPERTY with TLC, feeds every case they print into the real
library through harness/replay, and compares.  Exit 0: held; 1: violated; 2: the check broke.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from jobs import JOBS, ASSUME  # noqa: E402

ENV = ". /opt/vp/env.sh >/dev/null 2>&1; "


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build():
    r = subprocess.run(["bash", "-c", ENV + f"cd {VERIF}/harness && (cargo build --offline --bin replay --features catalog 2>&1 || cargo build --offline --bin replay 2>&1) && cd /repo && cargo build --offline --bin substrait-explain 2>&1 && echo SXB=$CARGO_TARGET_DIR/debug/substrait-explain && echo BIN=$CARGO_TARGET_DIR/debug/replay"],
                       capture_output=True, text=True)
    m = re.search(r"^BIN=(.*)$", r.stdout, re.M)
    if r.returncode or not m:
        die("harness build failed:\n" + r.stdout[-3000:])
    os.environ["SX_BIN"] = re.search(r"^SXB=(.*)$", r.stdout, re.M).group(1)
    return m.group(1)


def cfg_for(mod, consts, path):
    base = open(os.path.join(VERIF, "spec", mod + ".cfg")).read()
    for k, v in consts.items():
        base, n = re.subn(r"\b%s = .*" % k, "%s = %s" % (k, v), base)
        if n != 1:
            die(f"constant {k} not in {mod}.cfg")
    open(path, "w").write(base)


def run_job(binp, mod, consts, sim, tmp, i):
    """consts: the model's constants; the entry "only" names the case kinds this property is judged by"""
    only = consts.get("only", "")
    consts = {k: v for k, v in consts.items() if k != "only"}
    cfg = os.path.join(tmp, f"{mod}{i}.cfg")
    cfg_for(mod, consts, cfg)
    fails, log, meta = (os.path.join(tmp, f"{mod}{i}.{x}") for x in ("fails", "log", "meta"))
    tlc = ["java", "-Xss256m", "-XX:+UseParallelGC", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", "8", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + (sim or []) + [mod + ".tla"]
    t = subprocess.Popen(tlc, cwd=os.path.join(VERIF, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r = subprocess.Popen([binp, fails, "--log", log, "-"], stdin=t.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env={**os.environ, "SX_ONLY": only})
    t.stdout.close()
    out, err = r.communicate()
    rc = t.wait()
    shutil.rmtree(meta, ignore_errors=True)
    text = open(log).read() if os.path.exists(log) else ""
    if r.returncode < 0 or r.returncode == 3:
        # the library took the whole process down (stack overflow, abort), or hung
        fs = [json.loads(l) for l in open(fails)] if r.returncode == 3 else [
            {"case": {"c": "crash"}, "n": 0, "fail": {"oracle": "terminates", "what": f"the process died with signal {-r.returncode}", "detail": {"stderr": err[-800:]}}}]
        return {"cases": 1, "stats": {}, "samples": {}}, 1, 1, fs
    if rc != 0:
        die(f"TLC failed on {mod} {consts} (exit {rc}):\n" + text[-3000:])
    try:
        summary = json.loads(out.strip().splitlines()[-1])
    except Exception:
        die(f"replay failed on {mod}: {out[-500:]} {err[-1500:]}")
    if only:
        summary["cases"] = sum(v for k, v in summary["stats"].items() if k.startswith("case:"))
    if summary["cases"] == 0:
        die(f"no cases from {mod}")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text) or re.findall(r"([\d,]+) states generated", text)
    if not m:
        die(f"cannot read TLC's state count for {mod}:\n" + text[-1500:])
    last = m[-1]
    gen = int((last[0] if isinstance(last, tuple) else last).replace(",", ""))
    dist = int((last[1] if isinstance(last, tuple) else last).replace(",", ""))
    fs = [json.loads(l) for l in open(fails)]
    return summary, gen, dist, fs


def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    binp = build()
    tmp = tempfile.mkdtemp(prefix="sxv")
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    states = trans = cases = 0
    stats, samples, viol, hit, per = {}, [], [], {}, []
    listed = [k for k in known() if k["property"] == prop]
    try:
        for i, job in enumerate(JOBS[prop](tier, seed)):
            mod, consts, sim = job if len(job) == 3 else (*job, None)
            t1 = time.time()
            s, gen, dist, fs = run_job(binp, mod, consts, sim, tmp, i)
            states += dist
            trans += max(gen - 1, 0)
            cases += s["cases"]
            per.append({"module": mod, "constants": consts, "states": dist, "cases": s["cases"], "wall_s": round(time.time() - t1, 1)})
            for k, v in s["stats"].items():
                stats[k] = stats.get(k, 0) + v
            for k, v in s["samples"].items():
                for x in v[:1]:
                    samples.append({"module": mod, "case": k, "sample": x})
            for f in fs:
                tag = f["case"].get("kf")
                kf = next((k for k in listed if tag is not None and k["tag"] == tag and f["fail"]["oracle"] in k["oracles"]), None)
                if kf:
                    hit.setdefault(kf["tag"], kf)
                else:
                    viol.append(dict(f, module=mod))
            if viol:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": cases,
                       "samples": samples[:12], "machines": per, "outcomes": stats},
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        path = os.path.join(ev_dir, prop + ".violation.jsonl")
        with open(path, "w") as w:
            for v in viol[:200]:
                w.write(json.dumps(v, ensure_ascii=False) + "\n")
        for v in viol[:5]:
            print(f"  {v['module']}: {v['fail']['oracle']}: {v['fail']['what']}: " + json.dumps(v["fail"]["detail"], ensure_ascii=False)[:700])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print(f"{prop} held: {states} states, {cases} behaviours replayed against the code, {ev['wall_s']} s")


main()
