"""Shared machinery of all checks: content-addressed builds of /repo's sources with the harnesses, TLC runs, evidence."""
import concurrent.futures as cf
import threading
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
NCPU = 8


class CheckError(Exception):
    """The check itself could not give an answer."""


def sh(cmd, timeout=600, cwd=None, env=None, ok=(0,)):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode not in ok:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:400], p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


# ------------------------------------------------------------------------------------------------ build
def _files(root, exts):
    out = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "build"))
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    srcs = []
    for sub in ("altro", "examples"):
        for f in _files(os.path.join(REPO, sub), (".cpp", ".cc")):
            t = _read(f)
            if not re.search(rb"\bint\s+main\s*\(", t):
                srcs.append(f)
    return srcs


def header_hash():
    h = []
    for sub in ("altro", "examples"):
        for f in _files(os.path.join(REPO, sub), (".hpp", ".h", ".ipp", ".inl")):
            h += [os.path.relpath(f, REPO), _read(f)]
    for f in _files(os.path.join(VERIF, "harness"), (".hpp",)):
        h += [os.path.relpath(f, VERIF), _read(f)]
    return _sha(*h)


LOGDIR = "/tmp/vf_logs"
BASE_FLAGS = ["-std=c++14", "-g1", "-w", "-DFMT_DEPRECATED_OSTREAM", '-DLOGDIR="%s"' % LOGDIR, "-I" + REPO,
              "-I" + os.path.join(REPO, "examples"), "-I" + os.path.join(VERIF, "harness")]


def build(name, parts, variant="std", cxx="g++", flags=("-O1", "-ftrivial-auto-var-init=pattern"), libflags=None, link=("-lfmt", "-lpthread"), with_lib=True, cc_link=None):
    """Compile harness `name` from parts [(source, [flags])], linked with the objects of /repo's sources."""
    os.makedirs(LOGDIR, exist_ok=True)
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    hh = header_hash()
    jobs, objs = [], []

    def add(src, fl):
        o = os.path.join(odir, os.path.basename(src).rsplit(".", 1)[0] + "-" + _sha(cxx, " ".join(fl), hh, src, _read(src)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, fl, o))

    lf = BASE_FLAGS + list(libflags if libflags is not None else flags)
    pf = BASE_FLAGS + list(flags)
    for src, extra in parts:
        add(src if os.path.isabs(src) else os.path.join(VERIF, "harness", src), pf + list(extra))
    if with_lib:
        for src in repo_sources():
            add(src, lf)
    exe = os.path.join(BUILD, "bin", name + "-" + _sha(*(objs + list(link))))
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)

    def comp(j):
        src, fl, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        sh([cxx] + fl + ["-c", src, "-o", tmp], timeout=800)
        os.replace(tmp, o)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, jobs))
    tmp = exe + ".%d.tmp" % os.getpid()
    sh([cc_link or cxx] + objs + ["-o", tmp] + list(link))
    os.replace(tmp, exe)
    prune()
    return exe


def prune(limit=3 << 30):
    fs = [os.path.join(d, f) for d, _, x in os.walk(BUILD) for f in x]
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs if os.path.exists(f)), reverse=True)
    tot = 0
    for _, s, f in fs:
        tot += s
        if tot > limit and ("/obj/" in f or "/bin/" in f):
            os.unlink(f)


_java_lock = threading.Lock()


def java_overrides():
    with _java_lock:
        return _java_overrides()


def _java_overrides():
    d = os.path.join(BUILD, "java-" + _sha(_read(os.path.join(VERIF, "java", "NumOverrides.java"))))
    if not os.path.exists(os.path.join(d, "NumOverrides.class")):
        t = d + ".%d.tmp" % os.getpid()
        os.makedirs(t, exist_ok=True)
        sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", t, os.path.join(VERIF, "java", "NumOverrides.java")])
        if os.path.exists(d):
            shutil.rmtree(t)
        else:
            os.rename(t, d)
    return d


# ------------------------------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.complete = "Model checking completed. No error has been found" in out
        self.violated = re.search(r"(Invariant|Action property|Temporal propert\w+) .*violated|Temporal properties were violated|Deadlock reached", out) is not None


def tlc(module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=(), deadlock_ok=True, jit=False):
    """Run TLC on spec/<module>.tla; cfg is the text of the configuration or the name of a file in spec/."""
    sd = os.path.join(VERIF, "spec")
    tmp = tempfile.mkdtemp(prefix="vf_tlc_")
    try:
        if "\n" in cfg or " " in cfg:
            cfgp = os.path.join(tmp, "m.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(sd, cfg)
        cp = ":".join([java_overrides(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
        cmd = ["java"] + (["-XX:+UseParallelGC"] if jit else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"]) + ["-Xmx" + heap, "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides", "-cp", cp, "tlc2.TLC",
               "-config", cfgp, "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE", "-workers", str(workers)]
        if deadlock_ok:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(sd, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(tmp, "out")
        with open(outp, "wb") as f:
            try:
                rc = subprocess.run(cmd, cwd=tmp, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        return Tlc(_read(outp).decode(errors="replace"), rc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


REJ = re.compile(r'^<<"REJECT", "([^"]*)", (-?\d+), (-?\d+)>>', re.M)
DONE = re.compile(r'^<<"DONE", (-?\d+), (-?\d+)>>', re.M)


class Validation:
    def __init__(self):
        self.rejects = {}   # trace id -> [(tag, event index)]
        self.done = {}      # trace id -> events
        self.traces = {}    # trace id -> json text
        self.states = self.transitions = 0
        self.errors = []
        self.shapeless = []
        self.notes = {}

    def merge_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated
        for m in REJ.finditer(r.out):
            self.rejects.setdefault(int(m.group(2)), [])
            t = (m.group(1), int(m.group(3)))
            if t not in self.rejects[int(m.group(2))]:
                self.rejects[int(m.group(2))].append(t)
        for m in DONE.finditer(r.out):
            self.done[int(m.group(1))] = int(m.group(2))
        for m in re.finditer(r'^<<"NOTE", "([^"]*)"', r.out, re.M):
            self.notes[m.group(1)] = self.notes.get(m.group(1), 0) + 1


def validate(module, lines, consts="", chunks=NCPU, timeout=700, spec="Spec", env=None, heap="3g", missing=None):
    """Check traces (list of JSON texts, each with an integer "id") against a trace specification.  A trace whose
    events are all consumed prints DONE; every tag printed with REJECT names a broken property."""
    v = Validation()
    for l in lines:
        v.traces[json.loads(l)["id"]] = l
    tmp = tempfile.mkdtemp(prefix="vf_val_")
    try:
        n = max(1, min(chunks, len(lines)))
        files, parts, load = [], [[] for _ in range(n)], [0] * n
        for l in sorted(lines, key=len, reverse=True):     # equal work for every TLC
            i = load.index(min(load))
            parts[i].append(l)
            load[i] += len(l)
        for i in range(n):
            p = os.path.join(tmp, "t%d.ndjson" % i)
            part = parts[i]
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            files.append((p, part))

        def run(fp):
            e = {"TRACE": fp[0]}
            e.update(env or {})
            return tlc(module, "SPECIFICATION %s\n%s" % (spec, consts), env=e, timeout=timeout, heap=heap), fp

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, fp in ex.map(run, files):
                v.merge_tlc(r)
                if r.rc != 0:
                    # an evaluation error stops TLC: find the traces concerned one by one
                    left = [l for l in fp[1] if json.loads(l)["id"] not in v.done]
                    v.errors.append((r.out[-1500:], left))
        broken = v.errors
        v.errors = []

        def alone(ls):
            p = os.path.join(tmp, "some%d-%d.ndjson" % (json.loads(ls[0])["id"], len(ls)))
            with open(p, "w") as f:
                f.write("\n".join(ls) + "\n")
            return run((p, ls))[0]

        def search(ls):    # the traces TLC stops at: all of them when there are few, else one of them
            if len(ls) <= 16:
                res = [(alone([l]), l) for l in ls]
                return [r for r, _ in res], [(r.out, json.loads(l)["id"], r.rc) for r, l in res if r.rc != 0]
            for half in (ls[:len(ls) // 2], ls[len(ls) // 2:]):
                r = alone(half)
                if r.rc != 0:
                    rs, bad = search([l for l in half])
                    return [r] + rs, bad
            return [], []
        if broken:
            with cf.ThreadPoolExecutor(NCPU) as ex:
                few = sum(len(ls) for _, ls in broken) <= 400
                jobs = [[l] for _, ls in broken for l in ls] if few else [ls for _, ls in broken]
                for rs, bad in ex.map(search, jobs):
                    for r in rs:
                        v.merge_tlc(r)
                    for out, i, rc in bad:
                        v.errors.append((out[-1500:], i))
                        # evaluation failed (not memory, not time): the trace has a shape that no behaviour has
                        if rc in (75, 76) or "Attempted to" in out or "outside" in out:
                            v.shapeless.append(i)
            if not v.errors and any(i not in v.done for i in v.traces):
                raise CheckError("TLC failed:\n" + broken[0][0])
        if missing:   # a trace that no behaviour of the specification explains
            bad = {i for _, i in v.errors}
            for i in v.traces:
                if i not in v.done and i not in bad:
                    v.done[i] = 0
                    v.rejects.setdefault(i, []).append((missing, 0))
        return v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ evidence, replays
def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)


def write_replay(pid, name, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, name))
    with open(p, "w") as f:
        if isinstance(data, str):
            f.write(data)
        else:
            json.dump(data, f, indent=1)
    return p
