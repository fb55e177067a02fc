"""The runs the checks are made of.  Each returns a dict: name, states, transitions, traces, samples, violations
[(tag, data)], info."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
import vf
from vf import CheckError

ASSUMPTIONS = [
    "TLC 1.8.0 and the arithmetic overrides in java/NumOverrides.java evaluate the specifications correctly",
    "comparisons with results computed in doubles use relative tolerances of 1e-7..1e-9; decisions closer than that to a threshold are not judged",
    "g++ -O1 builds of /repo's sources behave like the shipped ones",
]


def run_harness(exe, args, timeout=600, ok=(0,), env=None):
    p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if p.returncode not in ok:
        raise CheckError("harness failed (%d): %s\n%s" % (p.returncode, args, p.stdout.decode(errors="replace")[-2000:]))
    return p.stdout.decode(errors="replace")


def only(ids):
    return None if ids is None else dict(os.environ, VF_ONLY="," + ",".join(map(str, ids)) + ",")


def judge(name, pid, v, regen, validate, info=None, sample_fn=None, shape=None):
    """Common end of a trace validation: keep the tags of this property, confirm them by a second recording.
    shape: the property that a trace breaks which the specification cannot even evaluate."""
    if shape == pid:
        for i in v.shapeless:
            v.rejects.setdefault(i, []).append((pid + ":shape", 0))
        inner = validate

        def validate(ls):
            w = inner(ls)
            for i in w.shapeless:
                w.rejects.setdefault(i, []).append((pid + ":shape", 0))
            return w
    missing = [i for i in v.traces if i not in v.done]
    viol, other = [], 0
    mine = {i: [t for t in ts if t[0].startswith(pid + ":")] for i, ts in v.rejects.items()}
    other = sum(1 for i, ts in v.rejects.items() for t in ts if not t[0].startswith(pid + ":"))
    mine = {i: ts for i, ts in mine.items() if ts}
    if mine:
        ids, per = [], {}                  # a few traces of every kind of rejection
        for i in sorted(mine):
            if any(per.get(t, 0) < 5 for t, _ in mine[i]) and len(ids) < 60:
                ids.append(i)
                for t, _ in mine[i]:
                    per[t] = per.get(t, 0) + 1
        again2 = {i: set() for i in ids}   # real threads and timers: a rejection need not come back at the first attempt
        for attempt in range(6):
            again = regen(ids)
            v2 = validate([again[i] for i in ids if i in again])
            for i in ids:
                again2[i] |= {t for t, _ in v2.rejects.get(i, [])}
            if any(t in again2[i] for i in ids for t, _ in mine[i]):
                break
        for i in ids:
            for t, at in mine[i]:
                if t in again2[i]:
                    viol.append((t, {"trace": i, "event": at, "rejected": v.rejects[i][:20], "json": v.traces[i][:200000]}))
        if not viol:
            raise CheckError("%s: rejections did not repeat: %r" % (name, {i: mine[i] for i in ids}))
    if v.errors and not viol:
        raise CheckError("%s: TLC could not evaluate %d traces, e.g. %s\n%s" % (name, len(v.errors), v.errors[0][1], v.errors[0][0]))
    if missing and not viol:
        raise CheckError("%s: %d traces without an answer, e.g. %s" % (name, len(missing), missing[:5]))
    inf = dict(info or {})
    inf["rejections_of_other_properties"] = other
    inf["notes"] = v.notes
    return {"name": name, "states": v.states, "transitions": v.transitions, "traces": len(v.done), "violations": viol, "info": inf,
            "samples": sample_fn(v) if sample_fn else [next(iter(v.traces.values()))[:600]]}


# ------------------------------------------------------------------------------------------------ solver traces
def solver_exe():
    return vf.build("solver", [("solver.cpp", ["-DPART=%d" % i]) for i in range(4)] + [("poison.cpp", [])])


def read_lines(prefix):
    out = []
    for f in sorted(glob.glob(prefix + ".*")):
        with open(f) as fh:
            out += [l.strip() for l in fh if l.strip()]
    return out


SOLVER_CFG = "VIEW View\nCHECK_DEADLOCK FALSE\n"


def solver(pid, tier, seed, profile="mix", count=200, thorough=4000):
    exe = solver_exe()
    n = count if tier == "quick" else thorough
    tmp = tempfile.mkdtemp(prefix="vf_sol_")
    try:
        def record(sub, ids=None):
            o = os.path.join(tmp, sub)
            run_harness(exe, [profile, seed, n, vf.NCPU, o], env=only(ids))
            return read_lines(o)

        def regen(ids):
            return {d: l for d, l in ((json.loads(l)["id"], l) for l in record("again", ids)) if d in ids}

        val = lambda ls: vf.validate("Solver", ls, SOLVER_CFG)
        lines = record("first")
        if len(lines) != n:
            raise CheckError("expected %d traces, got %d" % (n, len(lines)))
        v = val(lines)
        return judge("solver-" + profile, pid, v, regen, val, info={"profile": profile, "requested": n})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ concurrency
SCHED = ("sched.cpp", [])
SCHED_LINK = ("-ldl", "-lpthread", "-lfmt")


def conc_exe():
    tp = [(os.path.join(vf.REPO, "altro", f), ["-fsanitize=thread"]) for f in ("common/threadpool.cpp", "utils/assert.cpp", "common/threadsafe_queue.cpp")]
    tp = [t for t in tp if os.path.exists(t[0])]
    try:
        return vf.build("conc", [("conc.cpp", ["-fsanitize=thread"]), SCHED] + tp, link=SCHED_LINK, with_lib=False)
    except CheckError:   # the sources may have been split differently
        return vf.build("conc", [("conc.cpp", ["-fsanitize=thread"]), SCHED], libflags=("-O1", "-fsanitize=thread"), link=SCHED_LINK)


def exp_exe():
    return vf.build("exp", [("exp.cpp", ["-fsanitize=thread"]), SCHED], libflags=("-O1", "-fsanitize=thread"), link=SCHED_LINK)


def util_exe():
    us = sorted(os.path.basename(f) for f in glob.glob(os.path.join(vf.VERIF, "harness", "u_*.cpp")))
    return vf.build("util", [("util.cpp", []), ("poison.cpp", [])] + [(u, []) for u in us])


# the property a trace of these modules breaks that cannot be evaluated
SHAPE = {"Assign": "C03", "AlCost": "C11", "Problem": "C15", "Integ": "C16", "Traj": "C17", "Logger": "C18", "Timer": "C19", "Deriv": "C20",
         "Examples": "C21", "Misuse": "C22", "Stats": "C13"}


def traced(pid, tier, seed, exe, kind, module, count, thorough, missing=None, label=None, extra=()):
    """Record histories with a harness, check every one against a trace specification."""
    n = count if tier == "quick" else thorough
    binary = exe()
    tmp = tempfile.mkdtemp(prefix="vf_tr_")
    try:
        def record(sub, ids=None):
            o = os.path.join(tmp, sub)
            run_harness(binary, [kind, seed, n, vf.NCPU, o, *extra], timeout=850, env=only(ids))
            ls = read_lines(o)
            runs = sum(int(l[1:]) for l in ls if l[0] == "#")
            return [l for l in ls if l[0] == "{"], runs

        def regen(ids):
            return {d: l for d, l in ((json.loads(l)["id"], l) for l in record("again", ids)[0]) if d in ids}

        val = lambda ls: vf.validate(module, ls, "CHECK_DEADLOCK FALSE\n", missing=missing)
        lines, runs = record("first")
        if not lines:
            raise CheckError("no traces recorded")
        v = val(lines)
        return judge(label or kind, pid, v, regen, val, info={"kind": kind, "requested": n, "schedules": runs or len(lines)}, shape=SHAPE.get(module))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def Tr(exe, kind, module, count, thorough=None, **kw):
    return (traced, dict(exe=exe, kind=kind, module=module, count=count, thorough=thorough or count * 12, **kw))


def S(profile, count, thorough=None):
    return (solver, {"profile": profile, "count": count, "thorough": thorough or count * 12})


# ------------------------------------------------------------------------------------------------ behaviours of Control.tla
def replay_exe():
    return vf.build("replay", [("replay.cpp", []), ("poison.cpp", [])])


CONTROL_CFG = {   # name: (constants, view, exploration)
    "ilqr": ("OptIdx = {1,2,3,4,5,6,7}\nAls = {FALSE}\nMaxSolves = 2\nEmitMode = \"all\"\n", "View", "INVARIANT Inv\n"),
    "al": ("OptIdx = {1,2,3,4,5,6,7}\nAls = {TRUE}\nMaxSolves = 2\nEmitMode = \"all\"\n", "ViewAl", "INVARIANT Inv\n"),
}
SCR = re.compile(r'^<<"SCRIPT", (".*")>>$', re.M)
OPT_ORDER = ["maxTotal", "maxOuter", "maxInner", "costTol", "gradTol", "regFactor", "regInit", "regMax", "regMin", "regFail", "bounds", "stateMax", "controlMax",
             "lsMax", "lsLo", "lsHi", "lsFactor", "conTol", "maxPen", "initPen", "resetDuals"]


def generated(module, deps, cfg, name, parse, heap="10g", timeout=800):
    """All behaviours TLC prints while it checks a model (cached by the text of the specification)."""
    key = vf._sha(cfg, *[vf._read(os.path.join(vf.VERIF, "spec", m + ".tla")) for m in deps + (module,)])
    path = os.path.join(vf.BUILD, "scripts-%s-%s.json" % (name, key))
    if not os.path.exists(path):
        os.makedirs(vf.BUILD, exist_ok=True)
        for old in glob.glob(os.path.join(vf.BUILD, "scripts-%s-%s.json" % (name, "[0-9a-f]" * 24))):
            try:
                os.unlink(old)
            except FileNotFoundError:
                pass
        r = vf.tlc(module, cfg, workers=vf.NCPU, heap=heap, jit=True, timeout=timeout)
        if not r.complete:
            raise CheckError("%s.tla (%s): model checking failed\n%s" % (module, name, "\n".join(l for l in r.out.splitlines() if '"SCRIPT"' not in l)[-3000:]))
        scripts = sorted({json.dumps(parse(json.loads(json.loads(m))), sort_keys=True) for m in SCR.findall(r.out)})
        tmp = path + ".%d.tmp" % os.getpid()
        with open(tmp, "w") as f:
            json.dump({"states": r.distinct, "transitions": r.generated, "depth": r.depth, "scripts": scripts}, f)
        os.replace(tmp, path)
    with open(path) as f:
        return json.load(f)


def control_scripts(name):
    consts, view, inv = CONTROL_CFG[name]
    return generated("Control", ("Num", "Poly", "Riccati", "Decide"), "SPECIFICATION Spec\nVIEW %s\n%sCONSTANTS\n%s" % (view, inv, consts), name, lambda d: d)


def control(pid, tier, seed, name="ilqr", count=2500, thorough=40000):
    """Replays behaviours generated from Control.tla on the real solvers."""
    import random
    exe = replay_exe()
    gen = control_scripts(name)
    scripts = list(enumerate(gen["scripts"]))
    n = min(len(scripts), count if tier == "quick" else thorough)
    pick = sorted(random.Random("%s-%s-%d" % (pid, name, seed)).sample(scripts, n))
    tmp = tempfile.mkdtemp(prefix="vf_rep_")
    try:
        def record(sub, which):
            with open(os.path.join(tmp, "in-" + sub), "w") as f:
                for i, t in which:
                    d = json.loads(t)
                    w = [i, int(d["al"]), int(d["eq"]), len(d["tab"])]
                    for p in d["tab"]:
                        w += [p[k] for k in ("u", "x", "jt", "c", "lu", "luu")]
                    w.append(len(d["calls"]))
                    for c in d["calls"]:
                        w += [c["o"][k] for k in OPT_ORDER] + [c["zero"]]
                    f.write(" ".join(str(int(x)) if isinstance(x, bool) else str(x) for x in w) + "\n")
            o = os.path.join(tmp, sub)
            run_harness(exe, [os.path.join(tmp, "in-" + sub), vf.NCPU, o], timeout=850)
            by = dict(which)
            out = {}
            for l in read_lines(o):
                if not l[0].isdigit():
                    continue
                i, ev = l.split(" ", 1)
                d = json.loads(by[int(i)])
                out[int(i)] = '{"id":%s,"al":%s,"want":%s,"ev":%s}' % (i, json.dumps(d["al"]), json.dumps(d["want"]), ev)
            return out

        val = lambda ls: vf.validate("Replay", ls, "CHECK_DEADLOCK FALSE\n")
        first = record("first", pick)
        v = val([first[i] for i in sorted(first)])
        r = judge("control-" + name, pid, v, lambda ids: record("again", [p for p in pick if p[0] in set(ids)]), val,
                  info={"kind": "control-" + name, "generated_behaviours": len(scripts), "replayed": n, "model_depth": gen["depth"]})
        r["states"] += gen["states"]
        r["transitions"] += gen["transitions"]
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def Ctl(name, count=2500):
    return (control, {"name": name, "count": count})


# ------------------------------------------------------------------------------------------------ client programs
CLIENT_CFG = {   # name: module, what it extends, configuration, conc kind, trace specification, verdict on a history without a behaviour
    "queue-two": ("QueueImpl", ("QueueAbs",), "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS Mode = \"two\"\n", "qgen", "QueueTrace", "C02:linearizable"),
    "queue-three": ("QueueImpl", ("QueueAbs",), "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS Mode = \"three\"\n", "qgen", "QueueTrace", "C02:linearizable"),
    "queue-long": ("QueueImpl", ("QueueAbs",), "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS Mode = \"long\"\n", "qgen", "QueueTrace", "C02:linearizable"),
    "pool": ("PoolImpl", ("PoolAbs",), "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS MaxOps = 5\nMaxWorkers = 3\n", "pgen", "PoolTrace", None),
    "pool-live": ("PoolImpl", ("PoolAbs",), "SPECIFICATION Fair\nINVARIANT Inv\nPROPERTY Terminates\nCONSTANTS MaxOps = 4\nMaxWorkers = 3\n", "pgen", "PoolTrace", None),
    "pool-six": ("PoolImpl", ("PoolAbs",), "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS MaxOps = 6\nMaxWorkers = 3\n", "pgen", "PoolTrace", None),
}
QOPS = {"push": 1, "pop": 2, "empty": 3, "size": 4, "clear": 5}


def client_programs(name):
    mod, deps, cfg = CLIENT_CFG[name][:3]
    return generated(mod, deps, cfg, name, lambda d: d)


def client_line(text, n):
    """A generated program as a line for harness/conc.cpp; n varies what the model leaves open."""
    d = json.loads(text)
    if isinstance(d, dict):
        w = [n % 5, n // 5 % 3, d["pre"], len(d["th"])]
        for t in d["th"]:
            w += [len(t)] + [QOPS[o] for o in t]
    else:
        w = []
        for i, o in enumerate(d):
            v = (n >> i) ^ (n * 2654435761 >> (i + 7))
            w += {"add": [0, v % 3, v // 3 % 2], "gated": [0, 3, v % 2], "launch1": [1, 1, 0], "launch2": [1, 2, 0], "wait": [2, 0, 0], "stop": [3, 0, 0],
                  "num": [4, 0, 0], "open": [6, 0, 0], "move": [8, 0, 0] if v % 4 == 0 else [9, v % 3, 0], "destroy": [10, 0, 0], "last": [10, 0, 0]}[o]
    return " ".join(map(str, w))


def client(pid, tier, seed, name, count, reps, thorough, treps):
    """Runs client programs generated by a model on the real queue or pool, every history checked by the trace specification."""
    import random
    _, _, _, kind, module, missing = CLIENT_CFG[name]
    gen = client_programs(name)
    n = min(len(gen["scripts"]), count if tier == "quick" else thorough)
    rng = random.Random("%s-%s-%d" % (pid, name, seed))
    lines = [client_line(t, rng.getrandbits(30)) for t in rng.sample(gen["scripts"], n)]
    tmp = tempfile.mkdtemp(prefix="vf_cl_")
    try:
        prog = os.path.join(tmp, "programs")
        with open(prog, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = traced(pid, tier, seed, conc_exe, kind, module, reps, treps, missing=missing, label=name, extra=(prog,))
        r["info"].update({"generated_programs": len(gen["scripts"]), "programs_run": n, "model_depth": gen["depth"]})
        r["states"] += gen["states"]
        r["transitions"] += gen["transitions"]
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def Cl(name, count, reps, thorough=None, treps=None):
    return (client, {"name": name, "count": count, "reps": reps, "thorough": thorough or count * 10, "treps": treps or reps * 4})


PLAN = {
    "C01": lambda tier: [Tr(conc_exe, "pool", "PoolTrace", 1200), Tr(conc_exe, "pdfs", "PoolTrace", 2500, 40000), Cl("pool", 500, 20, 6702, 60)] + ([] if tier == "quick" else [Cl("pool-live", 1050, 40, 1050, 300), Cl("pool-six", 8000, 20, 8000, 20)]),
    "C02": lambda tier: [Tr(conc_exe, "queue", "QueueTrace", 1500, missing="C02:linearizable"), Tr(conc_exe, "qdfs", "QueueTrace", 2500, 40000, missing="C02:linearizable"),
                         Cl("queue-two", 300, 20, 1332, 300), Cl("queue-three", 200, 20, 1296, 200)] + ([] if tier == "quick" else [Cl("queue-long", 2130, 150, 2130, 150)]),
    "C03": lambda tier: [Tr(exp_exe, "default", "Assign", 60), Tr(exp_exe, "custom", "Assign", 80), Tr(exp_exe, "expand", "Assign", 500), S("threads", 120)],
    "C04": lambda tier: [S("budget", 300), S("long", 10), S("deep", 24), S("mix", 200), Ctl("al")],
    "C05": lambda tier: [S("budget", 250), S("long", 10), S("deep", 24), S("bounds", 150), S("reg", 100), Ctl("ilqr"), Ctl("al", 1500)],
    "C06": lambda tier: [S("mix", 250), S("long", 16), S("deep", 16), S("wild", 150)],
    "C07": lambda tier: [S("wild", 250), S("long", 12), S("deep", 24), S("bounds", 150), S("mix", 100), Ctl("ilqr")],
    "C08": lambda tier: [S("lq", 300), S("long", 16), S("deep", 24), S("mix", 150), S("reg", 150)],
    "C09": lambda tier: [S("reg", 300), S("deep", 24), S("wild", 150), Ctl("ilqr")],
    "C10": lambda tier: [S("al", 350), S("long", 12), S("deep", 24), Ctl("al"), Tr(util_exe, "alcost", "AlCost", 800)],
    "C11": lambda tier: [S("al", 350), S("long", 12), S("deep", 24), Tr(util_exe, "alcost", "AlCost", 1600), Tr(util_exe, "cones", "AlCost", 600)],
    "C12": lambda tier: [S("al", 350), S("long", 12), S("deep", 16), Tr(util_exe, "problem", "Problem", 800), Tr(util_exe, "alcost", "AlCost", 1000)],
    "C14": lambda tier: [S("resolve", 400), Ctl("ilqr", 1500), Ctl("al", 1500)],
    "C13": lambda tier: [S("mix", 250), S("long", 12), S("deep", 24), S("reg", 120), Tr(util_exe, "stats", "Stats", 1500), Ctl("ilqr"), Ctl("al")],
    "C15": lambda tier: [Tr(util_exe, "problem", "Problem", 1500), S("resolve", 100)],
    "C16": lambda tier: [Tr(util_exe, "integ", "Integ", 1500)],
    "C17": lambda tier: [Tr(util_exe, "traj", "Traj", 1500)],
    "C18": lambda tier: [Tr(util_exe, "logger", "Logger", 1500), Tr(util_exe, "solvelog", "Logger", 600)],
    "C19": lambda tier: [Tr(util_exe, "timer", "Timer", 1500), Tr(util_exe, "profile", "Timer", 400), S("resolve", 100)],
    "C20": lambda tier: [Tr(util_exe, "fd", "Deriv", 1500), Tr(util_exe, "check", "Deriv", 1200)],
    "C21": lambda tier: [Tr(util_exe, "examples", "Examples", 3000)],
    "C22": lambda tier: [Tr(util_exe, "misuse-" + k, "Misuse", n) for k, n in (("problem", 2000), ("ilqr", 2500), ("al", 2500), ("log", 1500), ("sized", 1500), ("pool", 600))],
}

EXES = [solver_exe, conc_exe, exp_exe, util_exe, replay_exe]

REC = "TLA+ trace specification (%s) checked with TLC against recorded executions of the real code"
GEN = "TLA+ transition system (%s) explored by TLC; its behaviours replayed on the real code; "
TECH = {
    "C01": GEN % "PoolImpl refining PoolAbs" + "histories under a controlled scheduler checked against PoolTrace",
    "C02": GEN % "QueueImpl refining QueueAbs" + "linearizability of histories under a controlled scheduler checked by TLC (QueueTrace)",
    "C03": REC % "Assign, Solver", "C06": REC % "Solver over Poly, exact rationals", "C08": REC % "Solver over Riccati, exact rationals",
    "C11": REC % "AlCost and Solver over Poly, exact rationals", "C12": REC % "AlCost, Problem and Solver", "C15": REC % "Problem, Solver", "C16": REC % "Integ, exact rationals",
    "C17": REC % "Traj", "C18": REC % "Logger", "C19": REC % "Timer, Solver", "C20": REC % "Deriv", "C21": REC % "Examples", "C22": REC % "Misuse",
}
TECH.update({p: GEN % "Control" + REC % "Solver" for p in ("C04", "C05", "C07", "C09", "C10", "C13", "C14")})
NOTE = {
    "C01": "Model exhaustive for all client programs of up to 5 (thorough 6) operations and 3 workers; the code is bound by sampled, PCT and depth-first schedules and by the generated programs.",
    "C02": "Model exhaustive for all programs of two threads with two operations and three threads (thorough: longer ones); the code is bound by sampled, PCT and depth-first schedules and by the generated programs.",
}
NOTE.update({p: "Model exhaustive over all choices of line-search, factorization, convergence and constraint outcomes for 7 option sets and two solves; the code is bound by replayed behaviours and by recorded random executions checked in exact arithmetic." for p in ("C04", "C05", "C07", "C09", "C10", "C13", "C14")})
