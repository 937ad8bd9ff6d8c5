#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: builds the property's harnesses
from /repo's working tree, explores, compares with known_findings.jsonl,
writes evidence/PROPERTY.json. Exit 0: held; 1: VIOLATION; 2: error.
run.py --setup builds everything; run.py PROPERTY --replay HARNESS:CASE."""
import fnmatch, glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = str(os.cpu_count() or 8)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(os.path.join(BUILD, "build.ninja")):
        r = subprocess.run(["cmake", "-G", "Ninja", "-S", HERE, "-B", BUILD, "-DREPO=" + REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("cmake failed\n" + r.stdout[-4000:])
    r = subprocess.run(["ninja", "-C", BUILD, "-j", JOBS] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("build failed\n" + r.stdout[-6000:])


def findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                f = json.loads(l)
                if f.get("status", "known") == "known":
                    out.append(f)
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build(["all"])
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    env = dict(os.environ, VERIF_TIER=tier, LC_ALL="C.UTF-8")
    env.pop("SEQUANT_NUM_THREADS", None)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build([prop])
    tb = time.time() - t0
    if "--replay" in sys.argv:
        h, case = sys.argv[sys.argv.index("--replay") + 1].split(":", 1)
        return subprocess.run([os.path.join(BUILD, h), "--replay", case], env=env).returncode
    exes = sorted(os.path.splitext(os.path.basename(f))[0]
                  for f in glob.glob(os.path.join(HERE, "harness", prop + "_*.cpp")))
    if not exes:
        die("no harness for " + prop)
    known = [f for f in findings() if f["property"] == prop]
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    tot = dict(states=0, transitions=0, executions=0, comparisons=0, distinct_outcomes=0)
    samples, viol, scen, complete = [], [], {}, True
    budget = 560 if tier == "quick" else 3 * 3600
    for n, x in enumerate(exes):
        out = os.path.join(BUILD, "out", x + ".json")
        if os.path.exists(out):
            os.remove(out)
        left = budget - (time.time() - t0 - tb)
        r = subprocess.run([os.path.join(BUILD, x), "--out", out, "--jobs", JOBS, "--budget", str(max(20, int(left)))],
                           env=env, cwd=BUILD, stdout=subprocess.DEVNULL)
        if r.returncode or not os.path.exists(out):
            die("%s ended with %d" % (x, r.returncode))
        d = json.load(open(out))
        for k in tot:
            tot[k] += d[k]
        samples += d["samples"][:12]
        complete = complete and d["complete"]
        scen.update(d["scenarios"])
        viol += [dict(v, harness=x) for v in d["violations"]]
    hit, new = {}, []
    for v in viol:
        for f in known:
            if fnmatch.fnmatchcase(v["id"], f.get("case", "*")) and \
               (not f.get("desc") or re.search(f["desc"], v["desc"])) and \
               (not f.get("msg") or re.search(f["msg"], v["msg"])):
                hit.setdefault(f["what"], v)
                break
        else:
            new.append(v)
    for f in known:
        if f["what"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for i, v in enumerate(new[:5]):
        rp = os.path.join(BUILD, "out", "%s-replay-%d.txt" % (prop, i))
        with open(rp, "w") as fo:
            fo.write("property %s\nharness %s\ncase %s\ninput %s\nfailure %s\nreplay: python3 %s/run.py %s --replay '%s:%s'\n" % (
                prop, v["harness"], v["id"], v["desc"], v["msg"], HERE, prop, v["harness"], v["id"]))
        print("  case %s\n    input: %s\n    failure: %s" % (v["id"], v["desc"][:600], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    if len(new) > 5:
        print("  (%d more)" % (len(new) - 5))
    bounds = {}
    bf = os.path.join(HERE, "bounds.json")
    if os.path.exists(bf):
        bounds = json.load(open(bf)).get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["executions"],
                            evaluations=tot["executions"], comparisons_with_model=tot["comparisons"],
                            distinct_outcomes=tot["distinct_outcomes"],
                            samples=samples[:24] or ["none"], exhaustive=complete,
                            rule=bounds.get("rule", "all choice sequences of the scenarios within their bounds"),
                            scenarios=scen,
                            known_findings_seen=len(hit)),
              assumptions=bounds.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    ev["coverage"]["build_s"] = round(tb, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s: executions=%d states=%d transitions=%d comparisons=%d exhaustive=%s violations=%d known=%d build=%.0fs total=%.0fs" % (
        prop, tot["executions"], tot["states"], tot["transitions"], tot["comparisons"], complete, len(new), len(hit), tb, time.time() - t0))
    return 1 if new else 0


sys.exit(main())
