#!/usr/bin/env python3
"""Runs the check of one property.

  check.py Cxx              the check (VERIF_SEED, VERIF_TIER)
  check.py Cxx --replay F   runs the case in F again and says whether it is still rejected

Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.environ.get("EVIDENCE", os.path.join(VERIF, "evidence"))
# The override serves tools/trybug.sh (planted bugs in a scratch copy).
REPO = os.environ.get("GOTEXT_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class Broken(Exception):
    pass


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
             CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(kw)
    return e


def sh(cmd, timeout, env=None, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, env=env, **kw)
    except subprocess.TimeoutExpired:
        raise Broken("timeout: %s" % " ".join(map(str, cmd))[:200])


def snapshot(tmp):
    """A copy of /repo's working tree, so that building can't touch tracked files."""
    dst = os.path.join(tmp, "repo")
    if not os.path.exists(dst):
        shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    return dst


def build(tmp, race=False):
    """The harness, against /repo's working tree."""
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    mod = os.path.join(src, "go.mod")
    text = open(mod).read()
    open(mod, "w").write(text.replace("=> /repo", "=> " + snapshot(tmp)))
    drv = os.path.join(tmp, "drv")
    cmd = ["go", "build", "-o", drv]
    env = goenv()
    if race:
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    r = sh(cmd + ["."], 600, env, cwd=src, capture_output=True, text=True)
    if r.returncode:
        raise Broken("building the harness failed:\n" + r.stderr[-3000:])
    return drv


def build_tools(tmp):
    out = os.path.join(tmp, "tools")
    os.makedirs(out, exist_ok=True)
    for t in ["xgotext", "msgofmt", "msgounfmt", "msgomerge", "msgocat", "gotext-tools"]:
        r = sh(["go", "build", "-o", os.path.join(out, t), "./" + t], 600, goenv(), cwd=os.path.join(snapshot(tmp), "cli"),
               capture_output=True, text=True)
        if r.returncode:
            raise Broken("building %s failed:\n%s" % (t, r.stderr[-3000:]))
    return out


def tlc(tmp, module, cfg, env=None, timeout=600, workers=None, extra=()):
    """Runs TLC on a copy of the specifications; returns its output."""
    d = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, f), d)
    if "\n" in cfg:
        open(os.path.join(d, "run.cfg"), "w").write(cfg)
        cfg = "run.cfg"
    cmd = ["java", "-Xss64m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-nowarning", "-deadlock",
           "-workers", str(workers or CPUS), "-config", cfg, "-metadir", os.path.join(d, "meta"), *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    r = sh(cmd, timeout, e, cwd=d, capture_output=True, text=True, errors="replace")
    return r.returncode, r.stdout + r.stderr


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def states(out):
    m = STATES.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][1]), int(m[-1][0])


def parse_bad(out):
    bad = []
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        bad.append((int(m.group(1)), re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))))
    return bad


def lines(path):
    with open(path, "rb") as f:
        return [l for l in f.read().split(b"\n") if l.strip()]


def design(tmp, prop, res):
    """Exhaustive checks of the specification itself."""
    for name in sorted(os.listdir(SPEC)):
        m = re.match(r"MC_(\w+?)(_thorough)?\.cfg$", name)
        if not m:
            continue
        head = open(os.path.join(SPEC, name)).readline()
        if prop not in re.findall(r"C\d\d", head):
            continue
        if m.group(2) and TIER != "thorough":
            continue
        module = "MC_" + m.group(1)
        rc, out = tlc(tmp, module, name, timeout=3600 if TIER == "thorough" else 600)
        s, t = states(out)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("design check %s failed:\n%s" % (name, out[-3000:]))
        res["design"].append({"model": name, "distinct_states": s, "states_generated": t})


def generated(tmp, prop):
    """Cases that TLC enumerates from the specification: Gen_<prop>.tla prints <<"CASE", json>>."""
    mod = "Gen_" + prop
    if not os.path.exists(os.path.join(SPEC, mod + ".tla")):
        return [], None
    cfgs = [mod + ("_thorough" if TIER == "thorough" else "") + ".cfg", mod + ".cfg"]
    cfg = next(c for c in cfgs if os.path.exists(os.path.join(SPEC, c)))
    out_file = os.path.join(tmp, "gen.ndjson")
    # Long lines of several workers would get mixed up.
    one = "ONE WORKER" in open(os.path.join(SPEC, cfg)).readline()
    rc, out = tlc(tmp, mod, cfg, env={"CASES": out_file}, timeout=3600 if TIER == "thorough" else 600, workers=1 if one else None)
    if rc != 0 or "No error has been found" not in out:
        raise Broken("generator %s failed:\n%s" % (mod, out[-3000:]))
    cases = []
    if os.path.exists(out_file):
        # CSVWrite quotes its fields.
        cases += [json.loads(l).encode() if l.startswith(b'"') else l for l in lines(out_file)]
    s, t = states(out)
    return sorted(set(cases)), {"model": mod, "distinct_states": s, "states_generated": t, "cases": len(cases)}


# TLC holds all records of a run in memory.
CHUNK = 50 << 20


def accept(tmp, prop, recs):
    """TLC checks every record; returns [(index, clauses)], states, transitions."""
    bad, states_, trans, first = [], 0, 0, 0
    part, size = [], 0
    data = lines(recs)
    for k, l in enumerate(data):
        part.append(l)
        size += len(l)
        if size < CHUNK and k + 1 < len(data):
            continue
        path = os.path.join(tmp, "part.ndjson")
        with open(path, "wb") as o:
            o.write(b"\n".join(part) + b"\n")
        b, s, t = accept_part(tmp, prop, path)
        bad += [(first + i, c) for i, c in b]
        states_, trans, first = states_ + s, trans + t, first + len(part)
        part, size = [], 0
    return bad, states_, trans


def undefined(tmp, mod, cfg, recs, out):
    """The record on which the evaluation of the specification fails, confirmed alone."""
    sign = re.compile(r"out of bounds|Attempted to|outside the domain|not in the domain|CHOOSE|no CASE")
    data = lines(recs)
    ats = re.findall(r"^(?:/\\ )?at = (\d+)", out, re.M)
    if not sign.search(out):
        return None
    last = int(ats[-1]) if ats else 0
    for k in [last, last + 64] if ats else range(1, 65):
        if not 1 <= k <= len(data):
            continue
        path = os.path.join(tmp, "one.ndjson")
        with open(path, "wb") as o:
            o.write(data[k - 1] + b"\n")
        rc, one = tlc(tmp, mod, cfg, env={"RECS": path}, timeout=200)
        if rc != 0 and sign.search(one) and "StackOverflow" not in one:
            return k
    return None


def accept_part(tmp, prop, recs):
    n = len(lines(recs))
    mod = "Trace_" + prop
    cfgf = os.path.join(SPEC, mod + ".cfg")
    stateful = os.path.exists(cfgf)
    cfg = mod + ".cfg" if stateful else "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
    rc, out = tlc(tmp, mod, cfg, env={"RECS": recs}, timeout=3600 if TIER == "thorough" else 780)
    if rc != 0 or "No error has been found" not in out:
        k = None if stateful else undefined(tmp, mod, cfg, recs, out)
        if k:
            # A record that the specification gives no meaning to: what the code did is not allowed.
            bad = [(i, c) for i, c in parse_bad(out) if i != k] + [(k, ["the specification is undefined on what the code did"])]
            return sorted(bad), n, n
        raise Broken("TLC could not check the records:\n" + out[:1500] + "\n...\n" + out[-2500:])
    s, t = states(out)
    if not stateful and s < n:
        raise Broken("TLC checked %d of %d records" % (s, n))
    if stateful:
        done = re.findall(r'<<"DONE", (\d+)>>', out)
        if len(set(done)) != n:
            raise Broken("TLC finished %d of %d records:\n%s" % (len(set(done)), n, out[-2000:]))
    bad = parse_bad(out)
    merged = {}
    for i, c in bad:
        merged.setdefault(i, []).extend(x for x in c if x not in merged.get(i, []))
    return sorted(merged.items()), s, t


def run_cases(tmp, prop, drv, cases, env):
    recs = os.path.join(tmp, "recs.ndjson")
    with open(cases, "rb") as i, open(recs, "wb") as o:
        r = sh([drv, "run", prop], 3600 if TIER == "thorough" else 600, env, stdin=i, stdout=o, stderr=subprocess.PIPE)
    if r.returncode:
        raise Broken("running the cases failed:\n" + r.stderr.decode(errors="replace")[-3000:])
    return recs


def findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def known(fs, rec, clauses):
    """A finding is identified by its exact input and clauses."""
    for f in fs:
        if f["in"] == rec["in"] and set(clauses) <= set(f["clauses"]):
            return f
    return None


LEVELS = {}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    meta = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}.get(prop, {})
    tmp = tempfile.mkdtemp(prefix="check_" + prop + "_")
    res = {"design": [], "gen": None}
    try:
        env = goenv(VERIF_SEED=str(SEED), VERIF_TIER=TIER, COLORTERM="truecolor", TMPDIR=tmp, LC_ALL="C.UTF-8")
        if prop in ("C22", "C23", "C24", "C26"):
            env["TOOLS"] = build_tools(tmp)
        drv = build(tmp, race=prop == "C25")
        cases = os.path.join(tmp, "cases.ndjson")
        if "--replay" in sys.argv:
            rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            open(cases, "w").write(json.dumps(rep["in"]) + "\n")
        else:
            design(tmp, prop, res)
            gen, res["gen"] = generated(tmp, prop)
            with open(cases, "wb") as o:
                for c in gen:
                    o.write(c + b"\n")
                o.flush()
                r = sh([drv, "gen", prop, str(SEED), TIER], 600, env, stdout=o, stderr=subprocess.PIPE)
                if r.returncode:
                    raise Broken("generating cases failed:\n" + r.stderr.decode(errors="replace")[-2000:])
        ncases = len(lines(cases))
        recs = run_cases(tmp, prop, drv, cases, env)
        data = lines(recs)
        bad, s, t = accept(tmp, prop, recs)
        fs, new = findings(prop), []
        seen = set()
        for i, clauses in bad:
            rec = json.loads(data[i - 1])
            k = known(fs, rec, clauses)
            if k:
                if k["what"] not in seen:
                    seen.add(k["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                new.append((i, clauses, rec))
        distinct = len({bytes(l) for l in lines(cases)})
        if "--replay" not in sys.argv:
            samples = [json.loads(data[k]) for k in range(0, len(data), max(1, len(data) // 3))][:3]
            samples = [x if len(json.dumps(x)) < 4000 else {"in": str(x["in"])[:1500], "out": str(x["out"])[:1500]} for x in samples]
            ev = {
                "property": prop, "tier": TIER, "seed": SEED, "level": meta.get("level", "model_checking"),
                "coverage": {
                    "states": s + sum(d["distinct_states"] for d in res["design"]) + (res["gen"] or {}).get("distinct_states", 0),
                    "transitions": t + sum(d["states_generated"] for d in res["design"]) + (res["gen"] or {}).get("states_generated", 0),
                    "traces_validated_against_impl": len(data),
                    "evaluations": len(data), "distinct_nontrivial": distinct,
                    "design_checks": res["design"], "spec_generated_cases": res["gen"],
                    "rule": "every recorded execution of the real code was checked by TLC against spec/Trace_%s.tla" % prop,
                    "samples": samples,
                },
                "wall_s": round(time.time() - t0, 1),
                "assumptions": ["TLC evaluates the specification correctly", "the driver records faithfully what the code returned"],
                "violations": len(new),
            }
            os.makedirs(EVIDENCE, exist_ok=True)
            json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
        if new:
            rd = os.path.join(EVIDENCE, "replay")
            os.makedirs(rd, exist_ok=True)
            new.sort(key=lambda x: len(json.dumps(x[2]["in"])))
            path = os.path.join(rd, "%s.json" % prop)
            i, clauses, rec = new[0]
            json.dump({"property": prop, "clauses": clauses, "fail": rec["fail"], "in": rec["in"], "out": rec["out"],
                       "rejected": len(new)}, open(path, "w"), indent=1)
            summary = {}
            for _, c, _ in new:
                summary[tuple(c)] = summary.get(tuple(c), 0) + 1
            for c, k in sorted(summary.items(), key=lambda x: -x[1])[:12]:
                print("  %5d x %s" % (k, "; ".join(c)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: %d executions accepted, %d spec states (%.0fs)" % (prop, len(data), s, time.time() - t0))
        return 0
    except Broken as e:
        print("CHECK BROKEN:", e)
        return 2
    finally:
        if os.environ.get("KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
