"""Shared machinery of the checks: builds, TLC runs, replay, evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Infra(Exception):
    """The check itself could not run: never a violation."""


def scratch_root():
    base = os.environ.get("VERIF_SCRATCH", "/tmp")
    return tempfile.mkdtemp(prefix="vvf-", dir=base)


def go_env():
    """Environment of /opt/vp/env.sh."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE, check=True).stdout
    env = dict(e.split("=", 1) for e in out.decode().split("\0") if "=" in e)
    env["GOFLAGS"] = env.get("GOFLAGS", "-mod=mod")
    return env


def overlay(scratch):
    rep = {REPO + "/common/config/genesis_zz_standin.go": VERIF + "/harness/overlay/genesis_standin.go"}
    for root, _, files in os.walk(VERIF + "/harness"):
        rel = os.path.relpath(root, VERIF + "/harness")
        if rel == "overlay" or rel.startswith("overlay/"):
            continue
        for f in files:
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zz_verif", rel, f)] = os.path.join(root, f)
    p = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def build(scratch, cmd, race=False):
    ov = overlay(scratch)
    out = os.path.join(scratch, "bin-" + cmd + ("-race" if race else ""))
    env = go_env()
    args = ["go", "build", "-overlay", ov, "-o", out]
    if race:
        args.append("-race")
    args.append("./zz_verif/cmd/" + cmd)
    r = subprocess.run(args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise Infra("harness build failed:\n" + r.stdout.decode()[-4000:])
    return out


# ---------------------------------------------------------------- TLC
TLA_DIR = "/opt/veriftools/tla"


def cfg_with(src, dst, consts):
    """Copy a .cfg with some constants replaced."""
    s = open(src).read()
    for k, v in consts.items():
        s, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), s)
        if n == 0:
            raise Infra("no constant %s in %s" % (k, src))
    open(dst, "w").write(s)


def _spec_copy(scratch, spec):
    d = tempfile.mkdtemp(prefix="spec-", dir=scratch)
    for f in glob.glob(os.path.join(VERIF, "specs", spec, "*")):
        if os.path.isfile(f):
            shutil.copy(f, d)
    for f in glob.glob(os.path.join(VERIF, "specs", "common", "*.tla")):
        shutil.copy(f, d)
    return d


def _tlc(d, args, timeout, mem="4g"):
    env = dict(os.environ)
    env["JAVA_OPTS"] = "-Xmx%s -XX:+UseParallelGC" % mem
    env["JAVA_TOOL_OPTIONS"] = ""
    try:
        r = subprocess.run(["tlc"] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out: " + " ".join(args))
    return r.returncode, r.stdout.decode(errors="replace")


def tlc_check(scratch, spec, module, cfg=None, consts=None, workers=8, timeout=800, mem="8g", extra=()):
    """Exhaustive check; returns (states, distinct).  The model does not depend on /repo,
    so an error here is an error of the specification: Infra."""
    d = _spec_copy(scratch, spec)
    cfg = cfg or module + ".cfg"
    if consts:
        cfg_with(os.path.join(d, cfg), os.path.join(d, "x.cfg"), consts)
        cfg = "x.cfg"
    rc, out = _tlc(d, ["-workers", str(workers), "-metadir", d + "/meta", "-config", cfg] + list(extra) + [module + ".tla"], timeout, mem)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or not m:
        raise Infra("TLC found an error in specification %s/%s:\n%s" % (spec, module, out[-6000:]))
    return int(m[-1][0]), int(m[-1][1])


def _unescape(line):
    return json.loads(line)


def tlc_traces(scratch, spec, module, num, depth, seed, cfg=None, consts=None, procs=8, timeout=600, mem="2g"):
    """Generate num behaviours by simulation; returns a list of JSON strings.
    Split over procs single-worker TLC runs with their own seeds (deterministic)."""
    d = _spec_copy(scratch, spec)
    cfg = cfg or module + ".cfg"
    c = {"Depth": depth}
    c.update(consts or {})
    cfg_with(os.path.join(d, cfg), os.path.join(d, "x.cfg"), c)
    procs = max(1, min(procs, num // 5 or 1))
    ps = []
    env = dict(os.environ)
    env["JAVA_OPTS"] = "-Xmx%s -XX:+UseSerialGC -XX:TieredStopAtLevel=4" % mem
    for i in range(procs):
        n = num // procs + (1 if i < num % procs else 0)
        ps.append(subprocess.Popen(["tlc", "-workers", "1", "-simulate", "num=%d" % n, "-depth", str(depth + 1),
                                    "-seed", str(seed * 1000 + i), "-metadir", d + "/meta%d" % i, "-config", "x.cfg", module + ".tla"],
                                   cwd=d, env=env, stdout=open(d + "/out%d" % i, "w"), stderr=subprocess.STDOUT))
    traces = []
    t0 = time.time()
    for i, p in enumerate(ps):
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            raise Infra("trace generation timed out")
        out = open(d + "/out%d" % i).read()
        if "Error:" in out:
            raise Infra("trace generation of %s/%s failed:\n%s" % (spec, module, out[-5000:]))
        seen = None
        for l in out.splitlines():
            if l.startswith('"TRACE '):
                t = json.loads(l)[6:]
                # TLC prints every candidate for the last state: keep the first
                if seen is None or t[:len(seen)] != seen:
                    traces.append(t)
                    seen = t[:len(t) // 2]
    shutil.rmtree(d, ignore_errors=True)
    if not traces:
        raise Infra("no traces from %s/%s" % (spec, module))
    return traces


# ---------------------------------------------------------------- replay
class Failure:
    def __init__(self, trace, step, group, msg):
        self.trace, self.step, self.group, self.msg = trace, step, group, msg

    def __str__(self):
        return "%s: %s (behaviour %d, step %d)" % (self.group, self.msg.split("\n")[0][:400], self.trace, self.step)


def _run_shard(args, env, idle, total, stop=None):
    """Run one shard; returns (lines, how) with how in done/died/hung/late/stopped.  A shard hangs
    when it prints nothing for `idle` seconds."""
    import selectors
    p = subprocess.Popen(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    sel = selectors.DefaultSelector()
    sel.register(p.stdout, selectors.EVENT_READ)
    sel.register(p.stderr, selectors.EVENT_READ)
    buf, err = b"", b""
    last = t0 = time.time()
    how = None
    open_ = 2
    while open_:
        ev = sel.select(timeout=1.0)
        now = time.time()
        for k, _ in ev:
            d = os.read(k.fileobj.fileno(), 1 << 16)
            if not d:
                sel.unregister(k.fileobj)
                open_ -= 1
                continue
            if k.fileobj is p.stdout:
                buf += d
                last = now
            else:
                err = (err + d)[-20000:]
        if stop is not None and len(stop) >= 6:
            how = "stopped"
            p.kill()
            break
        if now - last > idle or now - t0 > total:
            how = "hung" if now - last > idle else "late"
            p.send_signal(6)  # goroutine dump
            try:
                e = p.communicate(timeout=10)[1]
                err = (err + (e or b""))[-20000:]
            except Exception:
                p.kill()
            break
    try:
        p.wait(timeout=10)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    lines = buf.decode(errors="replace").splitlines()
    if how is None:
        how = "done" if "END" in lines[-3:] else "died"
        for l in lines:
            if l.startswith("INFRA "):
                raise Infra("harness: " + l[6:])
    return lines, how, err.decode(errors="replace")


def _parse(lines):
    fails, done, notes, checks, cur, steps = [], 0, {}, 0, None, 0
    for l in lines:
        f = l.split(" ", 4)
        try:
            if f[0] == "START":
                cur = int(f[1])
            elif f[0] == "DONE":
                done += 1
                steps += int(f[2])
                checks += int(f[3])
                for k, v in json.loads(f[4]).items():
                    notes[k] = notes.get(k, 0) + v
                cur = None
            elif f[0] == "FAIL":
                fails.append(Failure(int(f[1]), int(f[2]), f[3], json.loads(f[4])))
                cur = None
        except (ValueError, IndexError):
            continue
    return fails, done, notes, checks, cur, steps


def replay(scratch, binary, traces, groups, seed=1, params="", shards=8, idle=120, total=700, max_fail=6, procs=2, tries=4):
    """Replay behaviours; returns a dict with the failures that were confirmed by a second run."""
    tf = tempfile.mkstemp(prefix="traces-", dir=scratch)[1]
    with open(tf, "w") as f:
        for t in traces:
            f.write(t + "\n")
    work = tempfile.mkdtemp(prefix="work-", dir=scratch)
    e = go_env()
    e["GOMAXPROCS"] = str(procs)
    e["GORACE"] = "halt_on_error=1"  # for the binaries built with the race detector
    base = [binary, "-traces", tf, "-work", work, "-seed", str(seed), "-groups", ",".join(groups)]
    if params:
        base += ["-params", params]
    shards = max(1, min(shards, len(traces)))
    import concurrent.futures as cf
    deadline = time.time() + total

    seen = []  # failures so far, over all shards

    def shard(i):
        start, res = 0, []
        while True:
            lines, how, err = _run_shard(base + ["-shard", str(i), "-of", str(shards), "-from", str(start)], e, idle,
                                         max(5, deadline - time.time()), seen)
            fails, done, notes, checks, cur, steps = _parse(lines)
            res.append((fails, done, notes, checks, steps))
            seen.extend([1] * len(fails))
            if how in ("done", "stopped"):
                return res
            if how == "late" or time.time() > deadline - 5:
                late.append(i)
                return res
            if cur is None:
                raise Infra("harness ended between behaviours (%s):\n%s" % (how, err[-3000:]))
            fails.append(Failure(cur, 0, "death", ("the node stops responding" if how == "hung" else "the node dies") + "\n" + err[-6000:]))
            seen.append(1)
            if len(seen) >= max_fail:
                return res
            start = cur + 1

    late = []
    out = {"fails": [], "done": 0, "notes": {}, "checks": 0, "steps": 0, "unconfirmed": []}
    with cf.ThreadPoolExecutor(shards) as ex:
        for res in ex.map(shard, range(shards)):
            for fails, done, notes, checks, steps in res:
                out["fails"] += fails
                out["done"] += done
                out["checks"] += checks
                out["steps"] += steps
                for k, v in notes.items():
                    out["notes"][k] = out["notes"].get(k, 0) + v
    if late and not out["fails"]:
        raise Infra("replay did not finish in time")

    def confirm(f):
        t0 = time.time()
        for _ in range(tries):
            lines, how, err = _run_shard(base + ["-only", str(f.trace)], e, idle, 200)
            fails = _parse(lines)[0]
            if fails:
                f.step, f.group, f.msg = fails[0].step, fails[0].group, fails[0].msg
                return True
            if how in ("hung", "died"):
                f.msg = ("the node stops responding" if how == "hung" else "the node dies") + "\n" + err[-6000:]
                f.group = "death"
                return True
            if time.time() - t0 > 150:
                break
        return False

    todo = sorted(out["fails"], key=lambda f: f.trace)[:max_fail]
    confirmed = []
    with cf.ThreadPoolExecutor(max(1, len(todo))) as ex:
        for f, ok in zip(todo, ex.map(confirm, todo)):
            (confirmed if ok else out["unconfirmed"]).append(f)
    out["fails"] = confirmed
    out["traces"] = tf
    return out


# ---------------------------------------------------------------- results
def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def write_evidence(pid, tier, level, coverage, wall, assumptions, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": coverage,
         "wall_s": round(wall, 2), "assumptions": assumptions, "violations": violations}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
