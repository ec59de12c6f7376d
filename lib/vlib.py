"""Shared machinery: build harnesses from /repo, run them over scripts, run TLC,
report violations, write evidence.  Everything is black-box: harnesses include only
public headers and are linked against objects compiled from /repo's working tree."""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")
TLCJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


# ---------------------------------------------------------------- building

GROUPS = {
    "mkvmuxer": (["mkvmuxer/*.cc"], ["*_main.cc", "*sample*"]),
    "mkvparser": (["mkvparser/*.cc"], ["*_main.cc", "*sample*"]),
    "common": (["common/*.cc"], []),
    "webm_parser": (["webm_parser/src/*.cc"], []),
    "m2ts": (["m2ts/*.cc"], ["*_main.cc"]),
    "webvtt": (["webvtt/*.cc"], []),
    "metadata": (["sample_muxer_metadata.cc"], []),
}


def repo_sources(groups):
    out = []
    for g in groups:
        pats, excl = GROUPS[g]
        for p in pats:
            for f in sorted(glob.glob(os.path.join(REPO, p))):
                b = os.path.basename(f)
                if any(fnmatch.fnmatch(b, e) for e in excl):
                    continue
                if re.search(r"_tests?\.cc$", b):
                    continue
                out.append(f)
    return out


def _headers_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".inc")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


BASEFLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]


class BuildError(Exception):
    pass


def build(name, groups, flags=None, cxx="g++", extra_src=(), libs=()):
    """Compile /repo groups + harness/<name>.cc and link; returns binary path."""
    flags = BASEFLAGS + (ASAN if flags is None else list(flags))
    inc = ["-I" + REPO, "-I" + REPO + "/webm_parser/include", "-I" + REPO + "/webm_parser",
           "-I" + VERIF + "/harness"]
    hd = _headers_digest()
    hh = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/harness/*.h")):
        hh.update(open(f, "rb").read())
    hh = hh.hexdigest()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    objs = []
    srcs = [(s, False) for s in repo_sources(groups)]
    srcs += [(os.path.join(VERIF, "harness", name + ".cc"), True)]
    srcs += [(os.path.join(REPO, s), False) for s in extra_src]
    for s, own in srcs:
        with open(s, "rb") as fh:
            key = sha(fh.read(), s, hd, " ".join([cxx] + flags), hh if own else "")
        o = os.path.join(objdir, os.path.basename(s)[:-3] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def comp(job):
        s, o = job
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + inc + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (s, r.stderr[-3000:]))
        os.rename(tmp, o)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, jobs))
    binp = os.path.join(BUILD, name + "-" + sha(*objs))
    if not os.path.exists(binp):
        tmp = binp + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + objs + list(libs) + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link failed: %s" % r.stderr[-3000:])
        os.rename(tmp, binp)
    return binp


# ---------------------------------------------------------------- running harnesses

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "max_allocation_size_mb=2000:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
}


def _run_shard(binp, scripts, args, timeout_each, env):
    """scripts: list of (id, text).  The harness reads scripts on stdin, each ended by a
    line 'END', and prints one JSON line per script.  A crash is charged to the script
    being executed; the run continues with the next one."""
    out = {}
    i = 0
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    while i < len(scripts):
        chunk = scripts[i:]
        inp = "".join(t.rstrip("\n") + "\nEND\n" for _, t in chunk)
        to = max(20, timeout_each * len(chunk))
        try:
            p = subprocess.run([binp] + list(args), input=inp.encode(), capture_output=True, env=e, timeout=to)
            so, rc, se = p.stdout, p.returncode, p.stderr
            timed = False
        except subprocess.TimeoutExpired as ex:
            so, rc, se = ex.stdout or b"", -999, ex.stderr or b""
            timed = True
        lines = so.split(b"\n")
        done = 0
        for ln in lines[:-1] if not so.endswith(b"\n") else lines:
            if not ln.strip():
                continue
            if done >= len(chunk):
                break
            try:
                out[chunk[done][0]] = json.loads(ln)
            except ValueError as ex:
                out[chunk[done][0]] = {"crash": "bad harness output: %s" % ln[:200]}
            done += 1
        if done < len(chunk):
            if rc == 0 and not timed:
                out[chunk[done][0]] = {"crash": "harness stopped early", "stderr": se.decode("latin1")[-2000:]}
            else:
                out[chunk[done][0]] = {"crash": "timeout" if timed else "exit %d" % rc,
                                       "stderr": se.decode("latin1")[-6000:]}
            done += 1
        i += done
    return out


def run_harness(binp, scripts, args=(), timeout_each=2.0, env=None, shards=None):
    n = shards or min(NCPU, max(1, len(scripts) // 4))
    parts = [scripts[k::n] for k in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda p: _run_shard(binp, p, args, timeout_each, env), parts):
            res.update(r)
    return res


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def run_tlc(module, cfg, env=None, workers=NCPU, extra=(), timeout=800, heap="8g", tag="", expect_deadlock=True):
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", TLCJARS + ":" + SPECS, "tlc2.TLC", "-metadir", work, "-noGenerateSpecTE",
               "-workers", str(workers)]
        if expect_deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + ["-config", os.path.join(SPECS, cfg), os.path.join(SPECS, module + ".tla")]
        t0 = time.time()
        r = TlcResult()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout + 60, cwd=work)
            r.out, r.rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as ex:
            r.out, r.rc = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -999
        r.wall = time.time() - t0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
        r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m[-1]) if m else 0
        r.violated = re.findall(r"Invariant (\S+) is violated|property (\S+) was violated", r.out)
        r.ok = r.rc == 0
        r.error = None
        if r.rc not in (0, 12, 13, 11, 10):
            r.error = r.out[-4000:]
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_prints(out, key):
    """Values printed with PrintT("KEY " \\o ToJson(x)) -> list of decoded JSON."""
    res = []
    pre = '"%s ' % key
    for ln in out.split("\n"):
        if ln.startswith(pre) and ln.endswith('"'):
            s = ln[len(pre):-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.extra = {}
        self.known_hits = []
        self.known = load_known(prop)

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violate(self, what, replay):
        """replay: dict or text written under replays/."""
        for k in self.known:
            if k["match"](what, replay):
                self.known_hits.append(k["desc"])
                return
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": dict({"states": self.states, "transitions": self.transitions,
                              "traces_validated_against_impl": self.traces,
                              "samples": self.samples}, **self.extra),
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for d in sorted(set(self.known_hits)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        for what, path in self.violations[:20]:
            print("# " + what[:600].replace("\n", " | "))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0,
            len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return res
    for k in json.load(open(p)).get("known", []):
        if k["property"] != prop:
            continue
        rx = re.compile(k["signature"])
        res.append({"desc": k["what"], "match": lambda what, rep, rx=rx: bool(rx.search(what))})
    return res


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def scratch(prefix="vchk-"):
    return tempfile.mkdtemp(prefix=prefix)


# ---------------------------------------------------------------- trace validation

def validate(ck, binp, scripts, module, cfg, nstates, args=(), post=None, env=None, timeout_each=2.0,
             batch=None, tlc_env=None, filt=None, timeout=800):
    """Run scripts through the harness, validate the resulting traces with TLC, confirm and
    report rejections.  post(trace, script_id) may enrich a trace before validation."""
    res = run_harness(binp, scripts, args=args, timeout_each=timeout_each, env=env)
    sc = dict(scripts)
    good, bad = [], []
    for sid, _ in scripts:
        t = res.get(sid)
        if t is None or "crash" in t:
            bad.append(sid)
        else:
            good.append(sid)
    for sid in bad:   # confirm
        t = run_harness(binp, [(sid, sc[sid])], args=args, timeout_each=20, env=env, shards=1)[sid]
        if "crash" in t:
            if len(ck.violations) < 30:
                ck.violate("harness died: %s: %s" % (t["crash"], summarize_crash(t.get("stderr", ""))),
                           {"script": sc[sid], "stderr": t.get("stderr", "")[-4000:]})
        else:
            res[sid] = t
            good.append(sid)
    traces = []
    ids = []
    for sid in good:
        t = res[sid]
        if post:
            t = post(t, sid)
        if t is None:
            continue
        traces.append(t)
        ids.append(sid)
    rej, dist, gen = tlc_traces(module, cfg, traces, nstates, tlc_env, timeout)
    ck.states += dist
    ck.transitions += gen
    ck.traces += len(traces)
    if scripts:
        for k in (0, len(scripts) // 2, len(scripts) - 1):
            ck.sample(scripts[k][1][:400])
    cand = [k for k in sorted(rej) if not filt or filt(rej[k])][:12]
    if cand:   # confirm by executing again
        t2s = []
        for k in cand:
            sid = ids[k]
            t2 = run_harness(binp, [(sid, sc[sid])], args=args, timeout_each=20, env=env, shards=1)[sid]
            t2s.append(None if "crash" in t2 else (post(t2, sid) if post else t2))
        live = [i for i, t in enumerate(t2s) if t is not None]
        r2, _, _ = tlc_traces(module, cfg, [t2s[i] for i in live], None, tlc_env, timeout)
        for n, i in enumerate(live):
            if n in r2:
                ck.violate("trace rejected by %s: %s" % (module, r2[n]),
                           {"script": sc[ids[cand[i]]], "trace": t2s[i], "why": r2[n]})
    return ids, traces, rej


def summarize_crash(se):
    m = re.search(r"(ERROR: \S+Sanitizer: .*|runtime error: .*|Assertion .* failed|terminate called.*)", se)
    fr = re.findall(r"#\d+ \S+ in (\S+)[^\n]*?(?:/repo/|\b)([\w./]*\.(?:cc|h)):(\d+)", se)
    fr = [f for f in fr if "harness" not in f[1]][:4]
    return (m.group(1)[:200] if m else se[-200:]) + " @ " + " < ".join("%s(%s)" % (f[0], f[1]) for f in fr)


class TlcError(Exception):
    pass


def tlc_traces(module, cfg, traces, nstates, tlc_env=None, timeout=800):
    """Validate traces in one TLC run.  Returns ({index: reason}, distinct, generated)."""
    if not traces:
        return {}, 0, 0
    d = scratch()
    try:
        p = os.path.join(d, "traces.ndjson")
        write_ndjson(p, traces)
        env = {"TRACES": p}
        if tlc_env:
            env.update(tlc_env)
        r = run_tlc(module, cfg, env=env, timeout=timeout)
        rej = {}
        for x in tlc_prints(r.out, "REJECT"):
            rej.setdefault(x["t"] - 1, "event %s: %s" % (x.get("k"), x["e"]))
        if r.violated or r.rc == 12:
            # an invariant that is not printed per trace
            m = re.search(r"tid = (\d+)", r.out)
            if m:
                rej.setdefault(int(m.group(1)) - 1, "invariant %s" % (r.violated,))
            else:
                raise TlcError(r.out[-3000:])
        elif r.rc != 0:
            raise TlcError("TLC failed on %s (rc %d): %s" % (module, r.rc, r.out[-3000:]))
        elif nstates == "accept":   # every trace must have been decided
            acc = {x["t"] - 1 for x in tlc_prints(r.out, "ACCEPT")}
            undecided = [i for i in range(len(traces)) if i not in acc and i not in rej]
            if undecided:
                raise TlcError("%s: %d traces undecided, first %s" % (module, len(undecided), json.dumps(traces[undecided[0]])[:1500]))
        elif not rej and nstates is not None:
            want = sum(nstates(t) for t in traces)
            if r.distinct != want:
                raise TlcError("%s: %d distinct states, expected %d" % (module, r.distinct, want))
        return rej, r.distinct, r.generated
    finally:
        shutil.rmtree(d, ignore_errors=True)
