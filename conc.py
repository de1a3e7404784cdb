"""C18: concurrent use.  Every operation is recorded alone, with the memory
goroutines share compared before every statement; then schedules of pairs (and
triples) are enumerated, around the statements that change or use what was
found to change; and the race detector's happens-before analysis judges one
execution of every operation with every other one."""
import os, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as c


def check(prop, tier, meta):
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif." + prop + ".")
    try:
        archs = ["instr", "instrp", "race", "racep"]
        with ThreadPoolExecutor(4) as ex:
            built = {a: ex.submit(c.build, tmp, a) for a in archs}
        bins, missing = {}, []
        for a in archs:
            try:
                bins[a] = built[a].result()
            except RuntimeError as e:
                missing.append(a)
                first = e
        # the library as it is must build; the transformed ones are left out
        # when the transformation does not fit
        if "race" in missing or len(missing) == 4:
            raise first
        t_built = time.time() - start
        thorough = tier != "quick"
        deadline = 110 if not thorough else meta.get("thorough_s", 1500) / 3
        shards = c.JOBS
        notes = {a: os.path.join(tmp, "notes." + a) for a in bins}
        jobs = []
        for a in archs:
            if a not in bins:
                continue
            env = {"VERIF_NOTES": notes[a]} if a.startswith("instr") else {
                "GORACE": "halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=7", "VERIF_SYNC_PROGRESS": "1"}
            jobs += [(a, k, env) for k in range(shards)]
        with ThreadPoolExecutor(c.JOBS) as ex:
            rs = list(ex.map(lambda j: c.shard(bins[j[0]], j[0], prop, tier, j[1], shards, deadline, tmp, j[2], ".a"), jobs))
        jobs, dirty = [], {}
        for a in bins:
            if a.startswith("instr"):
                f = os.path.join(tmp, "dirty." + a)
                txt = open(notes[a]).read() if os.path.exists(notes[a]) else ""
                dirty[a] = len(txt.splitlines())
                open(f, "w").write(txt)
                jobs += [(a, k, {"VERIF_DIRTY": f, "VERIF_THIN": "4" if a == "instrp" and not thorough else "1"}) for k in range(shards)]
        with ThreadPoolExecutor(c.JOBS) as ex:
            rs += list(ex.map(lambda j: c.shard(bins[j[0]], j[0], prop, tier, j[1], shards, deadline, tmp, j[2], ".b"), jobs))
        return c.judge(prop, tier, meta, start, t_built, bins, rs, shards, tmp,
                       {"operations_that_change_shared_state": dirty, "builds_left_out": missing})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
