#!/usr/bin/env python3
"""check.py Cxx quick|thorough: decides one property for the code in /repo.

Builds the harness against /repo's working tree (assembly build for amd64 and
portable build for 386), enumerates the property's spaces in shards, confirms
every broken case in a fresh process, writes evidence/Cxx.json and prints
VIOLATION lines.  check.py replay FILE runs one recorded case again."""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
JOBS = 8


def goenv(arch):
    e = dict(os.environ)
    for k in ("GOOS", "GOARCH", "GOFLAGS", "GOWORK", "GOEXPERIMENT", "GOAMD64", "GO386", "GORACE", "GOMAXPROCS", "GODEBUG", "GOTRACEBACK"):
        e.pop(k, None)
    go = "/opt/veriftools/go1.27.3/bin"
    e["PATH"] = go + ":" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off")
    if arch == "386":
        e.update(GOARCH="386", CGO_ENABLED="0")
    return e


def instrument(tmp, name, *what):
    """Lays transformed copies of the library's sources into a directory; returns the overlay file."""
    d = os.path.join(tmp, "src." + name)
    os.makedirs(d, exist_ok=True)
    cmd = ["go", "run", "./cmd/instr", REPO, d, *what, "table=" + os.path.join(HARNESS, "sched", "table.go")]
    extra = [os.path.join(REPO, "zz_verif_export.go") + "=" + os.path.join(HERE, "overlay", "export.go")]
    r = subprocess.run(cmd + extra, cwd=HARNESS, env=goenv("amd64"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("instrumentation failed:\n" + r.stdout)
    return os.path.join(d, "overlay.json")


def build(tmp, arch):
    """Returns the binary, or raises RuntimeError with the compiler's output.
    amd64 and 386 are the library as it is; race has the race detector, instr
    the scheduler before every statement; racep and instrp leave out assembly."""
    out = os.path.join(tmp, "vc." + arch)
    md = os.path.join(tmp, "mod." + arch)
    os.makedirs(md, exist_ok=True)
    mod = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(md, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(md, "go.sum"))
    ov = os.path.join(md, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "zz_verif_export.go"): os.path.join(HERE, "overlay", "export.go")}}, open(ov, "w"))
    # with the overlay the two unexported curve maps are reachable; without
    # it (they were renamed, say) the exported API is still explored
    tries = [["-overlay", ov, "-tags", "verifinternal"], []]
    if arch == "race":
        tries = [["-race"]]
    elif arch == "racep":
        tries = [["-race", "-overlay", instrument(tmp, arch, "portable")]]
    elif arch in ("instr", "instrp"):
        more = ["portable"] if arch == "instrp" else []
        tries = [["-overlay", instrument(tmp, arch + k, "instrument", *more, *([k] if k else []))] for k in ("shim", "")]
    for more in tries:
        cmd = ["go", "build", "-modfile=" + os.path.join(md, "go.mod"), *more, "-o", out, "./cmd/vc"]
        r = subprocess.run(cmd, cwd=HARNESS, env=goenv("386" if arch == "386" else "amd64"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out
    raise RuntimeError("build for %s failed:\n%s" % (arch, r.stdout))


def run(cmd, timeout, env=None):
    """(exit code or None on time-out, stderr tail)"""
    def limit():
        # a library that allocates without end must not take the machine down
        if ".race" not in cmd[0]:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         env=env or goenv("amd64"), preexec_fn=limit)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err[-16000:]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        return None, (err or "")[-6000:]


def died_with(rc, err):
    i = err.find("WARNING: DATA RACE")
    if i >= 0:
        keep = [l.strip() for l in err[i:].splitlines() if l.strip() and not l.startswith("=")]
        return "data race: " + " | ".join(keep[:14])
    return "process ended with %s: %s" % (rc, err[:1500])


def shard(binary, arch, prop, tier, k, n, deadline, tmp, env=None, tag=""):
    out = os.path.join(tmp, "%s.%s%s.%d.json" % (prop, arch, tag, k))
    cmd = [binary, "-prop", prop, "-tier", tier, "-shard", str(k), "-shards", str(n),
           "-deadline", str(deadline), "-out", out, "-hang", hang(prop)]
    rc, err = run(cmd, deadline + 200, {**goenv("amd64"), **(env or {})})
    res = {"env": env or {}, "arch": arch, "shard": k, "rc": rc, "err": err, "out": None}
    if rc in (0, 1) and os.path.exists(out):
        res["out"] = json.load(open(out))
        return res
    # the process died: which case was running?
    if rc == 4:
        for line in err.splitlines():
            if line.startswith("HANG "):
                res["died"] = json.loads(line[5:])
    if "died" not in res:
        try:
            s, i = open(out + ".progress").read().rsplit(" ", 1)
            res["died"] = {"space": s, "index": int(i), "msg": died_with(rc, err)}
        except (OSError, ValueError):
            res["died"] = {"space": "", "index": -1, "msg": died_with(rc, err)}
    return res


def hang(prop):
    """seconds after which a case counts as hanging; they take below 1 s, those of C18 below 10 s"""
    return "170" if prop == "C18" else "60"


def confirm(bins, prop, tier, arch, shardno, shards, v, tmp, reps=2, env=None):
    """Runs the broken case again in fresh processes; returns the replay record or None."""
    base = [bins[arch], "-prop", prop, "-tier", tier, "-hang", hang(prop)]
    forms = []
    if v["index"] >= 0 and v["space"]:
        forms.append(["-shards", "1", "-space", v["space"], "-index", str(v["index"]), "-deadline", "400"])
        forms.append(["-shard", str(shardno), "-shards", str(shards), "-space", v["space"], "-upto", str(v["index"]), "-deadline", "400"])
    if forms and v["msg"].startswith("data race"):
        # what the race detector reports is one, but it does not see every one in every run
        return {"property": prop, "build": arch, "tier": tier, "args": forms[0], "space": v["space"], "index": v["index"], "what": v["msg"]}
    if not forms:
        # died outside any case
        forms.append(["-shard", str(shardno), "-shards", str(shards), "-deadline", "400"])
    for f in forms:
        msgs = []
        for _ in range(reps):
            out = os.path.join(tmp, "confirm.%d.json" % time.time_ns())
            rc, err = run(base + f + ["-out", out], 600, {**goenv("amd64"), **(env or {})})
            if rc == 1 and os.path.exists(out):
                vs = json.load(open(out))["violations"] or []
                vs = [x for x in vs if x["space"] == v["space"]] or vs
                msgs.append(vs[-1]["msg"] if vs else "")
            elif rc == 0:
                break
            elif rc is None:
                break
            else:
                msgs.append(died_with(rc, err))
        if len(msgs) == reps:
            return {"property": prop, "build": arch, "tier": tier, "args": f, "space": v["space"], "index": v["index"], "what": msgs[0]}
    return None


def known_findings(prop):
    """finding: property=C01 space=NAME index=N build=amd64|386 what"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                w = line.split(None, 5)
                kv = dict(x.split("=", 1) for x in w[1:5])
                out.append((kv["space"], int(kv["index"]), kv["build"], w[5].strip() if len(w) > 5 else ""))
    return out


def plain(prop, tier, meta):
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif." + prop + ".")
    try:
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(build, tmp, "amd64")
            b = ex.submit(build, tmp, "386")
            bins = {"amd64": a.result(), "386": b.result()}
        built = time.time() - start
        deadline = 150 if tier == "quick" else meta.get("thorough_s", 1500)
        shards = JOBS if tier == "quick" else 4 * JOBS
        per = deadline if tier == "quick" else max(60, deadline * JOBS / (2 * shards))
        jobs = [(arch, k) for k in range(shards) for arch in ("amd64", "386")]
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda j: shard(bins[j[0]], j[0], prop, tier, j[1], shards, per, tmp), jobs))
        return judge(prop, tier, meta, start, built, bins, rs, shards, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(prop, tier, meta, start, built, bins, rs, shards, tmp, extra=None):
    """Sums up the shards' results, confirms what they found broken, reports."""
    spaces, cov, samples, complete, suspects = {}, {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0}, [], True, []
    for r in rs:
        o = r["out"]
        if o is None:
            complete = False
            suspects.append((r["arch"], r["shard"], r["died"], r["env"]))
            continue
        complete = complete and o["complete"]
        samples += [r["arch"] + " " + s for s in (o["samples"] or [])]
        for s in o["spaces"] or []:
            d = spaces.setdefault(s["name"], {"size": s["total"], "seconds": 0})
            d[r["arch"]] = d.get(r["arch"], 0) + s["done"]
            d["seconds"] = round(d["seconds"] + s["seconds"], 1)
            cov["evaluations"] += s["evals"]
            cov["distinct_nontrivial"] += s["nontrivial"]
            cov["states"] += s["states"]
            cov["transitions"] += s["trans"]
            cov["traces_validated_against_impl"] += s["traces"]
        for v in o["violations"] or []:
            suspects.append((r["arch"], r["shard"], v, r["env"]))
    explored = time.time() - start - built
    records, unconfirmed, byspace = [], [], {}
    for arch, k, v, env in suspects:
        key = (arch, v["space"])
        if byspace.get(key, 0) >= 2 or len(records) >= 4 or (records and time.time() - start > 300) or time.time() - start > 600 + 10 * (tier != "quick") * 600:
            continue
        hung = v["msg"].startswith("no result after")
        if hung and any(r["hung"] for r in records):
            continue
        rec = confirm(bins, prop, tier, arch, k, shards, v, tmp, reps=1 if hung else 2, env=env)
        if rec:
            rec["hung"] = hung
            byspace[key] = byspace.get(key, 0) + 1
            rec["env"] = {a: b for a, b in env.items() if a not in ("VERIF_NOTES", "VERIF_DIRTY")}
            if "VERIF_DIRTY" in env:
                rec["dirty"] = open(env["VERIF_DIRTY"]).read()
            records.append(rec)
        else:
            unconfirmed.append({"build": arch, **v})
    return finish(prop, tier, meta, start, records, cov, spaces, samples, complete and not unconfirmed, unconfirmed,
                  {"build_s": round(built, 1), "explore_s": round(explored, 1), **(extra or {})})


def finish(prop, tier, meta, start, records, cov, spaces, samples, exhaustive, unconfirmed, extra):
    known = known_findings(prop)
    fresh = []
    for rec in records:
        hit = [k for k in known if k[0] == rec["space"] and k[1] == rec["index"] and k[2] == rec["build"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][3]))
        else:
            fresh.append(rec)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": {**({k: v for k, v in cov.items() if meta["level"] != "fault_enumeration" or k in ("evaluations", "distinct_nontrivial")}), "rule": meta["rule"], "exhaustive": bool(exhaustive), "spaces": spaces, "samples": samples[:12] or ["none"],
                       "unconfirmed": unconfirmed, **extra},
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - start, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d evaluations, %d states, %d transitions, %d traces on the implementation, exhaustive=%s, %.0f s" % (
        prop, tier, cov.get("evaluations", 0), cov.get("states", 0), cov.get("transitions", 0), cov.get("traces_validated_against_impl", 0), exhaustive, time.time() - start))
    if unconfirmed:
        print("%d broken cases did not fail again in a fresh process and are not reported" % len(unconfirmed))
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, rec in enumerate(fresh):
            path = os.path.join(HERE, "replays", "%s.%d.json" % (prop, i))
            rec["how"] = "python3 /verif/check.py replay " + path
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  [%s %s case %s] %s" % (rec["build"], rec["space"], rec["index"], rec["what"].split("\n")[0][:500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def replay(path):
    rec = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif.replay.")
    try:
        b = build(tmp, rec["build"])
        out = os.path.join(tmp, "o.json")
        env = {**goenv("amd64"), **rec.get("env", {})}
        if "dirty" in rec:
            env["VERIF_DIRTY"] = os.path.join(tmp, "dirty")
            open(env["VERIF_DIRTY"], "w").write(rec["dirty"])
        rc, err = run([b, "-prop", rec["property"], "-tier", rec["tier"], "-out", out, *rec["args"]], 900, env)
        print(open(out).read() if os.path.exists(out) else err)
        return 1 if rc != 0 else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "setup":
        # fills the Go build cache; the checks build anew in any case
        tmp = tempfile.mkdtemp(prefix="verif.setup.")
        try:
            for arch in ("amd64", "386", "race", "racep", "instr", "instrp"):
                build(tmp, arch)
        except RuntimeError as e:
            print(e)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    meta = json.load(open(os.path.join(HERE, "meta.json")))[prop]
    try:
        if meta.get("kind") == "conc":
            import conc
            return conc.check(prop, tier, meta)
        return plain(prop, tier, meta)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
