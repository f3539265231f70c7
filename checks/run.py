#!/usr/bin/env python3
"""Runs the check of one property:  checks/run.py P07 quick|thorough

Every check is a set of jobs.  A job makes TLC produce behaviours of a specification (or explore it exhaustively), and
a driver, built from the current /repo tree, steps the implementation through them; the driver reports every deviation
with the properties it breaks.  Exit 0: nothing found.  Exit 1 with a VIOLATION line: a deviation that a second run of the
same behaviour confirms.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf, fcntl, json, os, re, shutil, signal, subprocess, sys, threading, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, os.path.join(HERE, "checks"))
import build as B
import plan

PROP, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
WORK = os.path.join(B.BUILD, "run", "%s-%d" % (PROP, os.getpid()))
REPLAYS = os.path.join(HERE, "replays")
CORES = int(os.environ.get("VERIF_CORES", str(os.cpu_count() or 8)))
DEADLINE = T0 + (780 if TIER == "quick" else 4 * 3600)

class CheckError(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------------------------------------------------------- TLC
def tlc(module, consts, mode, d, extra_cfg="", workers=1, args=(), timeout=600, heap="1g", env=None):
    """runs TLC on spec/<module>.tla in directory d; returns its output"""
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(HERE, "spec")):
        if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)): shutil.copy(os.path.join(HERE, "spec", f), d)
    cfg = ("CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()) if consts else "") + extra_cfg + "\nCHECK_DEADLOCK FALSE\n"
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    out = os.path.join(d, module + ".out")
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s -XX:+UseParallelGC -XX:ParallelGCThreads=2" % heap, **(env or {}))
    cmd = ["tlc", "-config", module + ".cfg", "-workers", str(workers), "-metadir", os.path.join(d, "states")] + list(mode) + list(args) + [module + ".tla"]
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try: rc = p.wait(timeout=min(timeout, max(10, DEADLINE - time.time())))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); raise CheckError("TLC timed out on %s" % module)
    txt = open(out, errors="replace").read()
    return rc, txt

def behaviours(txt, path, tag="BEH"):
    n = 0
    with open(path, "w") as f:
        for l in txt.splitlines():
            if l.startswith('<<"%s", ' % tag):
                f.write(json.loads(l[l.index('", ') + 3:l.rindex(">>")]) + "\n"); n += 1
    return n

def sim_stats(txt):
    m = re.findall(r"Progress: .*?([\d,]+) states", txt) + re.findall(r"The number of states generated: ([\d,]+)", txt)
    st = max([int(x.replace(",", "")) for x in m] + [0])
    return st

# ------------------------------------------------------------------------------------------------------------ drivers
def drive(exe, variant, args, outp, timeout, env=None):
    """runs a driver; returns (rc, list of messages, stderr tail, progress)"""
    prog = outp + ".progress"
    e = dict(os.environ, VERIF_DATA=os.path.join(HERE, "data"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=95:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0",
             TSAN_OPTIONS="exitcode=94:halt_on_error=1:second_deadlock_stack=1", UBSAN_OPTIONS="print_stacktrace=1")
    e.update(env or {})
    with open(outp, "w") as fo, open(outp + ".err", "w") as fe:
        p = subprocess.Popen(["./" + exe, "--progress", prog] + args, cwd=os.path.join(B.BUILD, variant), stdout=fo, stderr=fe, env=e, start_new_session=True)
        try: rc = p.wait(timeout=min(timeout, max(15, DEADLINE - time.time())))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = -9
    msgs = []
    for l in open(outp, errors="replace"):
        l = l.strip()
        if l.startswith("{"):
            try: msgs.append(json.loads(l))
            except ValueError: pass
    err = [l.rstrip() for l in open(outp + ".err", errors="replace") if " ERROR /" not in l and " WARN  /" not in l and " DEBUG " not in l]
    pg = open(prog, errors="replace").read().split() if os.path.exists(prog) else []
    return rc, msgs, err, pg

CRASH = {95: "memory error (AddressSanitizer)", 96: "crash", 97: "the call never returns", 94: "data race"}

class Result:
    def __init__(self): self.hits = []; self.other = []; self.cov = {}; self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []; self.exhaustive = []
    def add(self, k, v): self.cov[k] = self.cov.get(k, 0) + v

def concerns(m):
    return PROP in m.get("props", []) or PROP in m.get("also", [])

def run_job(job):
    """one job in one process; returns a Result"""
    r = Result(); d = os.path.join(WORK, job["name"]); os.makedirs(d, exist_ok=True)
    getattr(sys.modules[__name__], "job_" + job["kind"])(job, d, r)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r

def merge_done(r, m):
    for k, v in m.items():
        if isinstance(v, dict):
            for a, b in v.items(): r.add(k + "." + a, b)
        elif isinstance(v, (int, float)): r.add(k, v)

def job_replay(job, d, r):
    """TLC -simulate on a generator module -> behaviours -> driver"""
    beh = os.path.join(d, "beh.jsonl")
    # the behaviour budget is split so that a crash does not hide the rest
    rc, txt = tlc(job["module"], job["consts"], ["-simulate", "num=%d" % job["n"], "-depth", str(job["depth"]), "-seed", str(job["seed"])], d, "INIT Init\nNEXT Next\n")
    n = behaviours(txt, beh)
    if n < job["n"] * 0.9: raise CheckError("%s: TLC produced %d of %d behaviours\n%s" % (job["name"], n, job["n"], "\n".join(l[:400] for l in txt.splitlines()[-40:] if not l.startswith("<<"))))
    r.states += sim_stats(txt); r.transitions += max(0, sim_stats(txt) - n); 
    replay_file(job, d, r, beh, n)

TABLE = {"lock": threading.Lock(), "path": None, "stats": None}
def boundary_table(r):
    """the command boundary's cases, by TLC from Boundary.tla, which also checks the specification's own invariants over them"""
    with TABLE["lock"]:
        if TABLE["path"] is None:
            d = os.path.join(WORK, "boundary"); pairs = 60 if TIER == "quick" else 600; invs = ["HonestAccepted", "OnlyMemory", "Required"]
            # one path through all shapes: simulation, because only there the random pairs of deviations follow the seed
            rc, txt = tlc("Boundary", {"Pairs": pairs}, ["-simulate", "num=1", "-depth", "200", "-seed", str(SEED)], d, "INIT Init\nNEXT Next\n" + "".join("INVARIANT %s\n" % i for i in invs), timeout=900, heap="3g")
            p = os.path.join(d, "table.jsonl"); n = behaviours(txt, p)
            if "Error" in txt or n < 10: raise CheckError("Boundary: no table\n%s" % "\n".join(l[:300] for l in txt.splitlines() if not l.startswith("<<"))[-2000:])
            cases = sum(len(json.loads(l)["cases"]) for l in open(p))
            r.add("boundary_shapes", n); r.add("boundary_cases", cases); r.states += sim_stats(txt); r.transitions += cases
            r.exhaustive.append({"model": "boundary", "constants": {"Pairs": pairs}, "distinct_states": n, "cases": cases, "invariants": invs})
            TABLE["path"] = p
    return TABLE["path"]

def args_of(job): return job["args"] + (["--boundary", TABLE["path"]] if job.get("boundary") and TABLE["path"] else [])

def replay_file(job, d, r, beh, n):
    if job.get("boundary"): boundary_table(r)
    start, tries, lim = 0, 0, []
    while start < n and tries < 4:
        outp = os.path.join(d, "out%d" % tries)
        rc, msgs, err, pg = drive(job["exe"], job["variant"], args_of(job) + ["--seed", str(job["seed"]), "--from", str(start), beh], outp, job.get("timeout", 600))
        done = [m for m in msgs if m["t"] == "done"]
        for m in msgs:
            if m["t"] == "mismatch": (r.hits if concerns(m) else r.other).append(dict(m, job=job["name"], file=beh))
        if rc in (0, 1) and done:
            merge_done(r, done[0]); r.traces += done[0].get("behaviours", 0); break
        if rc in (98, 99) or rc in (126, 127): raise CheckError("%s: driver error %s\n%s" % (job["name"], rc, "\n".join(err[-15:])))
        if rc == -9 and time.time() > DEADLINE - 5: raise CheckError("%s: out of time" % job["name"])
        # a crash or hang inside a call
        b = int(pg[0]) if pg else start; step = int(pg[1]) if len(pg) > 1 else -1; op = pg[2] if len(pg) > 2 else "?"
        what = CRASH.get(rc, "killed by signal %d" % -rc if rc < 0 else "ended with status %d" % rc)
        if rc == -9: what = "the call does not return in time"
        line = next((l for l in err if "ERROR: AddressSanitizer" in l or "runtime error" in l or "STUCK" in l or "WARNING: ThreadSanitizer" in l), "")
        fr = [l.strip() for l in err if re.match(r"\s+#\d+ ", l) and "/repo/" in l][:3]
        m = {"t": "mismatch", "beh": b, "step": step, "props": job.get("crash_props", [PROP]), "also": [], "msg": "%s in step %d (%s): %s %s" % (what, step, op, line[:200], " | ".join(fr)), "crash": True, "job": job["name"], "file": beh}
        r.hits.append(m) if concerns(m) else r.other.append(m)
        r.traces += max(0, b - start); start = b + 1; tries += 1
    # a sample for the evidence
    with open(beh) as f:
        l = f.readline()
        if l and not r.samples:
            x = json.loads(l); r.samples.append({"job": job["name"], "behaviour": [compact(s) for s in (x if isinstance(x, list) else x.get("steps", [x]))[:12]]})

def compact(s):
    if not isinstance(s, dict): return s
    return {k: v for k, v in s.items() if k in ("op", "s", "u", "k", "c", "b", "n", "alg", "m", "t", "ok", "why", "q", "cd", "cv", "dg", "z")}

def explained(d, hist):
    """ConcTrace.tla on a file of histories: the indices (from 0) of those no order of the calls explains"""
    n = sum(1 for _ in open(hist))
    if not n: return [], 0, 0
    rc, txt = tlc("ConcTrace", {"Slots": 256}, [], d, "SPECIFICATION Spec\nINVARIANT Report\n", workers=2, timeout=900, heap="2g", env={"HISTORIES": hist})
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if "No error has been found" not in txt or not m: raise CheckError("ConcTrace: no result from TLC\n%s" % "\n".join(l[:300] for l in txt.splitlines() if not l.startswith("<<"))[-2500:])
    acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', txt)}
    return [i for i in range(n) if i + 1 not in acc], int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))

def story(h):
    """a history in words, for the report"""
    out = []
    for e, i in h["ev"]:
        o = h["ops"][i - 1]
        if o["t"]: out.append(("%d: %s(%s) starts" % (o["t"], o["op"], ", ".join("%s=%s" % (k, o[k]) for k in ("s", "u", "h", "h2", "c", "v", "iv", "d", "x") if k in o))) if e == 0 else "%d: %s ends: %s" % (o["t"], o["op"], json.dumps(o["r"])))
    return out

def job_conc(job, d, r):
    """programs of several threads (ConcGen.tla) run under many schedules; the recorded histories are judged by ConcTrace.tla"""
    beh = os.path.join(d, "beh.jsonl")
    rc, txt = tlc("ConcGen", job["consts"], ["-simulate", "num=%d" % job["n"], "-depth", str(job["consts"]["Threads"] * job["consts"]["Calls"] + 2), "-seed", str(job["seed"])], d, "INIT Init\nNEXT Next\n")
    n = behaviours(txt, beh)
    if n < job["n"] * 0.9: raise CheckError("%s: TLC produced %d of %d programs\n%s" % (job["name"], n, job["n"], txt[-2000:]))
    r.states += sim_stats(txt); r.transitions += max(0, sim_stats(txt) - n)
    start, tries = 0, 0
    while start < n and tries < 4:
        hist = os.path.join(d, "hist%d.jsonl" % tries); outp = os.path.join(d, "out%d" % tries)
        rc, msgs, err, pg = drive(job["exe"], job["variant"], job["args"] + ["--seed", str(job["seed"]), "--from", str(start), "--out", hist, beh], outp, job.get("timeout", 600))
        done = [m for m in msgs if m["t"] == "done"]
        for m in msgs:
            if m["t"] == "mismatch": (r.hits if concerns(m) else r.other).append(dict(m, job=job["name"], file=beh))
        if rc in (98, 99, 126, 127): raise CheckError("%s: driver error %s\n%s" % (job["name"], rc, "\n".join(err[-15:])))
        if os.path.exists(hist):
            if not done:            # the last line may be cut off
                ls = open(hist, errors="replace").read().split("\n"); open(hist, "w").write("".join(l + "\n" for l in ls[:-1]))
            bad, dis, gen = explained(os.path.join(d, "trace%d" % tries), hist); r.states += dis; r.transitions += gen; lines = open(hist).read().splitlines()
            for i in bad[:5]:
                h = json.loads(lines[i])
                r.hits.append({"t": "mismatch", "beh": h["beh"], "sched": h["k"], "step": h["k"], "props": ["P13"], "also": [], "msg": "no order of the calls explains what they returned (program %d, schedule %d, %d calls)" % (h["beh"], h["k"], len(h["ops"])), "history": story(h), "job": job["name"], "file": beh, "unexplained": True})
            r.add("unexplained", len(bad)); r.traces += len(lines)
        if done:
            nx = done[0].pop("next"); merge_done(r, done[0])
            if nx < 0: break
            start = nx; tries += 1; continue
        if rc == -9 and time.time() > DEADLINE - 5: raise CheckError("%s: out of time" % job["name"])
        b = int(pg[0]) if pg else start; k = int(pg[1]) if len(pg) > 1 else 0
        what = "the calls do not return in time" if rc == -9 else CRASH.get(rc, "killed by signal %d" % -rc if rc < 0 else "ended with status %d" % rc)
        line = next((l for l in err if "ERROR: AddressSanitizer" in l or "runtime error" in l or "STUCK" in l or "WARNING: ThreadSanitizer" in l), "")
        fr = [l.strip() for l in err if re.match(r"\s+#\d+ ", l) and "/repo/" in l][:3]
        m = {"t": "mismatch", "beh": b, "sched": k, "step": k, "props": ["P13"], "also": [], "msg": "%s in program %d under schedule %d: %s %s" % (what, b, k, line[:200], " | ".join(fr)), "crash": True, "job": job["name"], "file": beh}
        (r.hits if concerns(m) else r.other).append(m); start = b + 1; tries += 1
    with open(beh) as f:
        l = f.readline()
        if l: r.samples.append({"job": job["name"], "program": [[o["op"] for o in t] for t in json.loads(l)["threads"]]})

def job_mc(job, d, r):
    """exhaustive model checking of the specification itself"""
    rc, txt = tlc(job["module"], job["consts"], [], d, job["cfg"], workers=job.get("workers", 2), args=["-coverage", "1"] if job.get("coverage") else [], timeout=job.get("timeout", 700), heap=job.get("heap", "3g"))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if not m: raise CheckError("%s: no result from TLC\n%s" % (job["name"], txt[-2000:]))
    gen, dis = [int(x.replace(",", "")) for x in m[-1]]
    if "Model checking completed. No error has been found." not in txt:
        raise CheckError("%s: the specification itself fails its properties\n%s" % (job["name"], txt[-3000:]))
    r.states += dis; r.transitions += gen; r.exhaustive.append({"model": job["name"], "constants": job["consts"], "distinct_states": dis, "transitions": gen, "invariants": re.findall(r"(?:INVARIANT|PROPERTY)S?\s+(.*)", job["cfg"])})

def job_direct(job, d, r):
    """a driver that makes its own choices (schedules, faults) and prints mismatches; no TLC input"""
    drive_only(job, d, r)

def drive_only(job, d, r):
    outp = os.path.join(d, "out")
    rc, msgs, err, pg = drive(job["exe"], job["variant"], args_of(job) + ["--seed", str(job["seed"])], outp, job.get("timeout", 600))
    done = [m for m in msgs if m["t"] == "done"]
    for m in msgs:
        if m["t"] == "mismatch": (r.hits if concerns(m) else r.other).append(dict(m, job=job["name"], file=""))
    if rc in (0, 1) and done: merge_done(r, done[0]); r.traces += done[0].get("behaviours", 0); return
    if rc in (98, 99, 126, 127): raise CheckError("%s: driver error %s\n%s" % (job["name"], rc, "\n".join(err[-15:])))
    if rc == -9 and time.time() > DEADLINE - 5: raise CheckError("%s: out of time" % job["name"])
    what = CRASH.get(rc, "ended with status %d" % rc)
    line = next((l for l in err if "ERROR: AddressSanitizer" in l or "runtime error" in l or "STUCK" in l or "WARNING: ThreadSanitizer" in l), "")
    fr = [l.strip() for l in err if re.match(r"\s+#\d+ ", l) and "/repo/" in l][:4]
    m = {"t": "mismatch", "beh": -1, "step": -1, "props": job.get("crash_props", [PROP]), "also": [], "msg": "%s (%s): %s %s" % (what, " ".join(pg), line[:200], " | ".join(fr)), "crash": True, "job": job["name"], "file": ""}
    (r.hits if concerns(m) else r.other).append(m)

# ------------------------------------------------------------------------------------------------- confirming, reporting
def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m: out.append(m.groups())
    return out

def confirm(m, job):
    """run the same behaviour (or job) again; is the deviation there again?"""
    d = os.path.join(WORK, "confirm"); os.makedirs(d, exist_ok=True)
    a = args_of(job) + ["--seed", str(job["seed"])] + (["--only", str(m["beh"]), m["file"]] if m["file"] else ["--only", str(m.get("beh", -1))] if job.get("only") else [])
    if "sched" in m: a = ["--sched", str(m["sched"]), "--out", os.path.join(d, "hist")] + a
    rc, msgs, err, pg = drive(job["exe"], job["variant"], a, os.path.join(d, "out"), job.get("timeout", 600))
    if m.get("crash"): return rc not in (0, 1, 98, 99)
    if m.get("unexplained"):
        one = os.path.join(d, "one.jsonl"); open(one, "w").write("".join(l for l in open(os.path.join(d, "hist")) if json.loads(l)["k"] == m["sched"] or job.get("threads")))
        return bool(explained(d, one)[0])
    return any(x["t"] == "mismatch" and concerns(x) for x in msgs) or rc in CRASH

def save(m, job, i):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s-%d.json" % (PROP, TIER, i))
    beh = None
    if m["file"]:
        with open(m["file"]) as f:
            for k, l in enumerate(f):
                if k == m["beh"]: beh = json.loads(l)
    bp = p[:-5] + ".jsonl"
    if beh is not None: open(bp, "w").write(json.dumps(beh) + "\n")
    args = list(job["args"])
    if job.get("boundary"): shutil.copy(TABLE["path"], os.path.join(REPLAYS, "boundary-table.jsonl")); args += ["--boundary", os.path.join(REPLAYS, "boundary-table.jsonl")]
    if "sched" in m: args += ["--sched", str(m["sched"]), "--out", "/tmp/history.jsonl"]
    json.dump({"property": PROP, "history": m.get("history"), "message": m["msg"], "step": m["step"], "call": m.get("call"), "behaviour": beh, "driver_seed": job["seed"] , "beh_index": m["beh"],
               "reproduce": "cd /verif && python3 lib/build.py %s %s.cpp && cd build/%s && VERIF_DATA=/verif/data ./%s %s --seed %s --index %s %s" % (job["variant"], job["exe"], job["variant"], job["exe"], " ".join(args), job["seed"], m["beh"], bp if beh is not None else "")}, open(p, "w"), indent=1)
    return p

def main():
    P = plan.PLAN[PROP]; jobs = P["jobs"](TIER, SEED)
    os.makedirs(B.BUILD, exist_ok=True); os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(B.BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for v in sorted({j["variant"] for j in jobs if "variant" in j}):
            try: B.build(v, sorted({j["exe"] for j in jobs if j.get("variant") == v}))
            except Exception:       # a configuration the repository itself does not build: its jobs are left out when they are extras
                if not all(j.get("extra") for j in jobs if j.get("variant") == v): raise
                log("not built: variant %s; its jobs are left out" % v); jobs = [j for j in jobs if j.get("variant") != v]
    tb = time.time()
    R = Result(); byname = {j["name"]: j for j in jobs}; errors = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = {ex.submit(run_job, j): j for j in sorted(jobs, key=lambda j: -j.get("cost", 1))}
        for f in cf.as_completed(futs):
            try: r = f.result()
            except CheckError as e: errors.append(str(e)); continue
            except Exception: errors.append(traceback.format_exc()); continue
            R.hits += r.hits; R.other += r.other; R.states += r.states; R.transitions += r.transitions; R.traces += r.traces; R.exhaustive += r.exhaustive
            if len(R.samples) < 3: R.samples += r.samples[:1]
            for k, v in r.cov.items(): R.add(k, v)
    kf = known_findings(); seen = set(); viol = []; unconfirmed = 0
    for m in R.hits:
        hit = next((k for k in kf if k[0] == PROP and re.search(k[1], m["msg"])), None)
        if hit:
            if hit[1] not in seen: print("KNOWN-FINDING: property=%s %s" % (PROP, hit[2])); seen.add(hit[1])
            continue
        if len(viol) >= 3: viol.append(m); continue
        ok = any(confirm(m, byname[m["job"]]) for _ in range(3 if m.get("crash") or byname[m["job"]].get("threads") else 1))
        if ok: viol.append(dict(m, path=save(m, byname[m["job"]], len(viol))))
        else: unconfirmed += 1; log("not confirmed by a second run, not reported: %s %s" % (m["job"], m["msg"]))
    for m in viol[:3]:
        print("VIOLATION property=%s replay=%s" % (PROP, m["path"])); log("  %s behaviour %s step %s: %s" % (m["job"], m["beh"], m["step"], m["msg"]))
    if R.other: log("deviations that concern other properties only: %s" % sorted({(tuple(m["props"]), m["msg"][:90]) for m in R.other})[:6])
    cov = {"states": R.states, "transitions": R.transitions, "traces_validated_against_impl": R.traces, "samples": R.samples, "details": R.cov, "exhaustive_models": R.exhaustive, "unconfirmed": unconfirmed,
           "exhaustive": False, "build_s": round(tb - T0, 1), "jobs": len(jobs), "job_errors": errors}
    if P.get("level") == "fault_enumeration":
        cov["evaluations"] = int(R.cov.get("faults", 0)); cov["distinct_nontrivial"] = int(R.cov.get("fault_fired", 0)); cov["rule"] = P["rule"]
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": P.get("level", "model_checking"), "coverage": cov, "assumptions": plan.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    for e in errors: log("ERROR", e)
    shutil.rmtree(WORK, ignore_errors=True)
    if viol: return 1
    if errors: return 2
    print("OK property=%s behaviours=%d states=%d wall=%.0fs" % (PROP, R.traces, R.states, time.time() - T0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
