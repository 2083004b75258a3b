"""Machinery shared by all checks: build, TLC, replay, comparison, evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BFL_REPO", "/repo")
BUILD = os.environ.get("BFL_BUILD", os.path.join(VERIF, ".build"))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
BACKENDS = ("boost", "eigen")
NPROC = 8


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------------ build
SAN = "-O1 -g0 -fsanitize=address -D_GLIBCXX_ASSERTIONS"


def _newer(src, dst):
    return (not os.path.exists(dst)) or os.path.getmtime(src) > os.path.getmtime(dst)


def build_java():
    out = os.path.join(BUILD, "classes")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(VERIF, "spec", "Rat.java")
    if _newer(src, os.path.join(out, "Rat.class")):
        r = sh(["javac", "-cp", TLAJAR, "-d", out, src])
        if r.returncode:
            raise MachineryError("javac failed:\n" + r.stdout)
    return out


def tree_manifest():
    m = {}
    root = os.path.join(REPO, "orocos_bfl")
    for base, dirs, files in os.walk(root):
        for f in files:
            if f.endswith((".cpp", ".h", ".txt", ".cmake", ".in", ".hpp")):
                p = os.path.join(base, f)
                with open(p, "rb") as fh:
                    m[p] = hashlib.md5(fh.read()).hexdigest()
    return m


def check_stale(d):
    """ninja trusts modification times; a changed file that looks older than the
    last build would be missed, so wipe the build then."""
    mf = os.path.join(d, "manifest.json")
    new = tree_manifest()
    if os.path.exists(mf):
        old = json.load(open(mf))
        t = os.path.getmtime(mf)
        changed = [p for p in set(old) | set(new) if old.get(p) != new.get(p)]
        if any((p not in new) or (p not in old) or os.path.getmtime(p) <= t for p in changed):
            shutil.rmtree(d, ignore_errors=True)
    elif os.path.exists(d):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return new


def build_backend(b, fam):
    """Build the library of REPO's working tree with its own build files, then
    the harness of one family."""
    d = os.path.join(BUILD, b)
    new = check_stale(d)
    lib = os.path.join(d, "lib")
    os.makedirs(lib, exist_ok=True)
    json.dump(new, open(os.path.join(d, "manifest.json.new"), "w"))
    env = dict(os.environ, CC="gcc", CXX="g++")
    if not os.path.exists(os.path.join(lib, "build.ninja")):
        r = sh(["cmake", "-S", os.path.join(REPO, "orocos_bfl"), "-B", lib, "-G", "Ninja", "-DMATRIX_LIB=" + b,
                "-DGINAC_SUPPORT=ON", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + SAN,
                "-DLIBRARY_TYPE=shared", "-DBUILD_TESTS=OFF", "-DBUILD_EXAMPLES=OFF", "-Wno-dev"], env=env)
        if r.returncode:
            raise MachineryError("cmake failed (%s):\n%s" % (b, r.stdout[-4000:]))
    H = os.path.join(VERIF, "harness")
    inc = [os.path.join(REPO, "orocos_bfl", "src"), os.path.join(lib, "src"), os.path.join(lib, "src/wrappers/matrix"),
           os.path.join(lib, "src/wrappers/rng"), os.path.join(REPO, "orocos_bfl/src/wrappers/matrix"), H]
    if b == "eigen":
        inc.append("/usr/include/eigen3")
    nj = ["cxxflags = -std=c++11 -w %s %s" % (SAN, " ".join("-I" + i for i in inc)),
          "rule cc\n  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
          "rule ld\n  command = g++ $cxxflags -rdynamic $in -o $out -L%s/src -Wl,-rpath,%s/src -lorocos-bfl -lginac -lcln -ldl" % (lib, lib)]
    for f in sorted(os.listdir(H)):
        if f.endswith(".cpp"):
            nj.append("build %s/%s.o: cc %s/%s" % (d, f[:-4], H, f))
            if f != "main.cpp":
                nj.append("build %s/h_%s: ld %s/main.o %s/%s.o | %s/src/liborocos-bfl.so" % (d, f[:-4], d, d, f[:-4], lib))
    nj.append("build %s/src/liborocos-bfl.so: phony" % lib)
    text = "\n".join(nj) + "\n"
    nf = os.path.join(d, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = sh(["ninja", "-C", lib], env=env)
    if r.returncode:
        raise MachineryError("library build failed (%s):\n%s" % (b, r.stdout[-6000:]))
    exe = os.path.join(d, "h_" + fam)
    r = sh(["ninja", "-C", d, exe], env=env)
    if r.returncode:
        raise MachineryError("harness build failed (%s):\n%s" % (b, r.stdout[-6000:]))
    os.rename(os.path.join(d, "manifest.json.new"), os.path.join(d, "manifest.json"))
    return exe


def build_all(fam):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            res = list(ex.map(lambda b: build_backend(b, fam), BACKENDS))
    return dict(zip(BACKENDS, res))


# ------------------------------------------------------------------ TLC
def tla_cfg(run, tier, seed, sim):
    """MC module and cfg of one run."""
    par = dict(run.get("consts", {}))
    par.update(run.get(tier, {}).get("consts", {}))
    mod = run["module"]
    body = ["---- MODULE MC ----", "EXTENDS " + mod]
    cfg = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    if run["mode"] != "self":
        cfg += ["CONSTANTS", " Sim = %s" % ("TRUE" if sim else "FALSE")]
    for k, v in par.items():
        body.append("c_%s == %s" % (k, v))
        cfg.append(" %s <- c_%s" % (k, k))
    body.append("====")
    for i in run.get("inv", []):
        cfg.append("INVARIANT " + i)
    if run["mode"] == "bfs":
        cfg.append("VIEW View")
        cfg.append("ACTION_CONSTRAINT EmitT")
        for i in run.get("props", []):
            cfg.append("PROPERTY " + i)
    return "\n".join(body) + "\n", "\n".join(cfg) + "\n"


def run_tlc(run, tier, seed, workdir, shard=0, timeout=700):
    sim = run["mode"] == "sim"
    d = os.path.join(workdir, "%s_%d" % (run["name"], shard))
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    cls = os.path.join(BUILD, "classes")
    body, cfg = tla_cfg(run, tier, seed, sim)
    open(os.path.join(d, "MC.tla"), "w").write(body)
    open(os.path.join(d, "MC.cfg"), "w").write(cfg)
    out = os.path.join(d, "traces.jsonl")
    s = seed * 1000 + shard + int(hashlib.md5(run["name"].encode()).hexdigest()[:6], 16)
    t = run.get(tier, {})
    cmd = ["java", "-Xmx%dm" % t.get("mem", 2500), "-Xss64m", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-Drat.out=" + out, "-Drat.seed=%d" % s,
           "-cp", "%s:%s:%s" % (cls, TLAJAR, COMM), "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(d, "meta"),
           "-config", "MC.cfg", "-noGenerateSpecTE"]
    if sim:
        n = t.get("num", run.get("num", 200))
        cmd += ["-simulate", "num=%d" % n, "-depth", str(t.get("depth", run.get("depth", 1000))), "-seed", str(s)]
    cmd.append("MC.tla")
    t0 = time.time()
    try:
        r = sh(cmd, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % run["name"])
    txt = r.stdout
    ok = r.returncode == 0 and "Error:" not in txt and "override missing" not in txt
    if not ok:
        raise MachineryError("TLC failed on %s (rc %d):\n%s" % (run["name"], r.returncode, ("\n".join(l for l in txt.split("\n") if not l.startswith(("Loading", "Parsing", "Semantic", "Linting")))[:2500] + "\n...\n" + txt[-1500:])))
    st = {"wall_s": round(time.time() - t0, 2), "mode": run["mode"]}
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if m:
        st["generated"], st["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", txt)
        st["depth"] = int(m.group(1)) if m else None
    m = re.search(r"The number of states generated: ([\d,]+)", txt)
    if m:
        st["generated"] = int(m.group(1).replace(",", ""))
    traces = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                if line.strip():
                    traces.append(json.loads(line))
    shutil.rmtree(d, ignore_errors=True)
    return st, traces


def maximal(traces):
    """Drop duplicates and behaviours that are a prefix of another one."""
    seen, keys = set(), []
    for t in traces:
        h = hashlib.md5()
        pre = []
        for s in t:
            h.update(json.dumps([s["op"], s["a"]], sort_keys=True).encode())
            pre.append(h.hexdigest())
        keys.append(pre)
        seen.update(pre[:-1])
    res, done = [], set()
    for t, pre in zip(traces, keys):
        if pre[-1] in seen or pre[-1] in done:
            continue
        done.add(pre[-1])
        res.append(t)
    return res


# ------------------------------------------------------------------ values
RAT = re.compile(r"^-?\d+(/\d+)?$")


def tofloat(v):
    if isinstance(v, str) and RAT.match(v):
        f = Fraction(v)
        try:
            return float(f)
        except OverflowError:
            return float("inf") if f > 0 else float("-inf")
    if isinstance(v, list):
        return [tofloat(x) for x in v]
    if isinstance(v, dict):
        return {k: tofloat(x) for k, x in v.items()}
    return v


def largest(x):
    """Largest magnitude in a list (of lists) of numbers, None for anything else."""
    if isinstance(x, list):
        m = [largest(y) for y in x]
        return None if None in m else max(m, default=0.0)
    return abs(tofloat(x)) if isinstance(x, str) and RAT.match(x) else None


def diff(exp, obs, rtol, atol, path=""):
    """None when the observation agrees with the expectation."""
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            if exp == {} and obs == []:
                return None
            return "%s: expected object, got %r" % (path, obs)
        for k, v in exp.items():
            if k not in obs:
                if "~" in obs:
                    continue            # not looked at after this step
                return "%s.%s missing" % (path, k)
            if k.endswith("_any"):
                o = obs[k]
                if not isinstance(o, list) or len(o) != len(v):
                    return "%s.%s: expected %d values, got %r" % (path, k, len(v), o)
                for i, (choices, x) in enumerate(zip(v, o)):
                    if x not in choices:
                        return "%s.%s[%d]: got %r, allowed %r" % (path, k, i, x, choices)
                continue
            d = diff(v, obs[k], rtol, atol, path + "." + k)
            if d:
                return d
        return None
    if isinstance(atol, (list, tuple)):      # [a]: absolute tolerance relative to the largest element of a vector or matrix
        if isinstance(exp, list):
            top = largest(exp)
            if top is not None:
                atol = atol[0] + rtol * top
        elif isinstance(exp, str):
            atol = atol[0]
    if isinstance(exp, list):
        if obs is None or not isinstance(obs, list):
            return "%s: expected a list, got %r" % (path, obs)
        if len(exp) != len(obs):
            return "%s: expected %d elements, got %d" % (path, len(exp), len(obs))
        for i, (e, o) in enumerate(zip(exp, obs)):
            d = diff(e, o, rtol, atol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(exp, str) and RAT.match(exp):
        exp = tofloat(exp)
        if isinstance(obs, bool) or not isinstance(obs, (int, float)):
            return "%s: expected %r, got %r" % (path, exp, obs)
        if abs(exp - obs) > atol + rtol * abs(exp):
            return "%s: expected %.17g, got %.17g" % (path, exp, obs)
        return None
    if isinstance(exp, bool) or isinstance(obs, bool):
        return None if exp is obs or (exp == obs and type(exp) == type(obs)) else "%s: expected %r, got %r" % (path, exp, obs)
    if exp != obs:
        return "%s: expected %r, got %r" % (path, exp, obs)
    return None


# ------------------------------------------------------------------ replay
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=253:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0")


def feed(exe, fam, items, timeout):
    """Run the harness over items [(id, trace)]; returns {id: [(k, obs) | ('crash'/'exc'/'hang', k, text)]}."""
    res = {}
    pending = list(items)
    crashes = 0
    while pending:
        inp = "".join(json.dumps({"id": i, "fam": fam, "steps": [{"op": s["op"], "a": tofloat(s["a"])} for s in t]}) + "\n" for i, t in pending)
        hang = False
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
        try:
            out, _ = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            hang = True
        cur = None
        finished = set()
        for line in out.split("\n"):
            if not line:
                continue
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if "begin" in j:
                cur = j["begin"]
                res[cur] = []
            elif "end" in j:
                finished.add(j["end"])
                cur = None
            elif "err" in j or "harness" in j:
                raise MachineryError("harness: " + line)
            elif "exc" in j:
                res[j["id"]].append(("exc", j["k"], j["exc"]))
            else:
                res[j["id"]].append(("ok", j["k"], j["o"]))
        left = [x for x in pending if x[0] not in finished]
        if not left:
            break
        if cur is None:
            if len(left) == len(pending):
                raise MachineryError("harness made no progress (rc %r)" % p.returncode)
            pending = left
            continue
        res[cur].append(("hang" if hang else "crash", len(res[cur]), "exit code %r" % p.returncode))
        crashes += 1
        if hang or crashes >= 5:
            break                       # one hang or a few crashes are enough; the rest stays unjudged
        pending = [x for x in left if x[0] != cur]
    return res


def judge(trace, results, rtol, atol):
    """First disagreement of a trace, or None."""
    for r in results:
        k = r[1]
        if r[0] == "ok":
            d = diff(trace[k]["e"], r[2], rtol, atol)
            if d:
                return {"step": k, "op": trace[k]["op"], "args": trace[k]["a"], "why": d, "observed": r[2]}
        else:
            return {"step": k, "op": trace[k]["op"] if k < len(trace) else "end of behaviour", "args": trace[k]["a"] if k < len(trace) else None,
                    "why": "%s: %s" % (r[0], r[2])}
    if len(results) < len(trace):
        return {"step": len(results), "op": trace[len(results)]["op"], "args": trace[len(results)]["a"], "why": "no observation"}
    return None


def replay(exe, fam, traces, rtol, atol, jobs=4, timeout=240):
    """Replay all traces; disagreements are repeated alone before they count."""
    items = list(enumerate(traces))
    chunks = [items[i::jobs] for i in range(jobs)]
    bad = []
    with ThreadPoolExecutor(jobs) as ex:
        allres = {}
        for r in ex.map(lambda c: feed(exe, fam, c, timeout) if c else {}, chunks):
            allres.update(r)
    nops = 0
    for i, t in items:
        if i not in allres:
            continue
        nops += len(t)
        j = judge(t, allres.get(i, []), rtol, atol)
        if j:
            again = judge(t, feed(exe, fam, [(i, t)], 60).get(i, []), rtol, atol)
            if again:
                again["trace"] = t
                bad.append(again)
                if len(bad) >= 5 or again["why"].startswith("hang"):
                    break
    return nops, bad


# ------------------------------------------------------------------ known findings
def known_findings(pid, P, exes):
    """Probes of listed, unrepaired defects: a fixed history each."""
    f = os.path.join(VERIF, "known_findings.json")
    lines = []
    if os.path.exists(f):
        for e in json.load(open(f)):
            if e.get("status") != "known" or e["property"] != pid:
                continue
            fam, t = e["probe"]["fam"], e["probe"]["trace"]
            hit = []
            for b in e["probe"].get("backends", BACKENDS):
                exe = exes[fam][b] if fam in exes else build_all(fam)[b]
                if judge(t, feed(exe, fam, [(0, t)], 60).get(0, []), 1e-8, 1e-10):
                    hit.append(b)
            if hit:
                lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, e["what"], ",".join(hit)))
    return {"lines": lines}


SELF = [dict(name="rat_self", module="RatSelf", mode="self", inv=["Canon", "Order", "Ring", "Sums", "Roots", "Exps", "Trig", "Mats"])]
ASSUMPTIONS = [
    "IEEE double arithmetic; observations are compared with exact rational expectations within the tolerance stated per run",
    "sources of randomness are the library's runif/rnorm entry points, which the harness scripts",
]
