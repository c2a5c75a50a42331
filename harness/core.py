"""Runs the cases of a property on the code in /repo, and has TLC judge what was
recorded against the specification in /verif/spec.

A property module (harness/props/cXX.py) defines
  MODULE       the trace specification (spec/<MODULE>.tla, with spec/<MODULE>.cfg)
  models(tier) the models TLC explores exhaustively beforehand (optional)
  cases(ctx)   the list of (label, function): each function executes the real
               code and records what it does.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = ["/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar"]
NWORKERS = 8


class Skip(Exception):
    """The case turned out to be outside of the domain of the property."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def java(args, workdir, env=None, timeout=800, heap="2g"):
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + workdir, "-cp", ":".join(JARS), "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


class MachineryError(Exception):
    pass


def tlc_counts(out):
    gen = dist = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return gen, dist


def judge(module, records, workdir, name):
    """Have TLC judge the records. Returns (verdicts, generated, distinct):
    verdicts is a list of (record index, [clauses])."""
    verdicts, gen, dist = [], 0, 0
    start = 0
    skipped = 0
    while start < len(records):
        path = os.path.join(workdir, f"trace-{name}-{start}.json")
        with open(path, "w") as fh:
            json.dump(records[start:], fh)
        meta = os.path.join(workdir, f"meta-{name}-{start}")
        code, out = java(["-workers", "1", "-metadir", meta, "-noGenerateSpecTE",
                          "-config", module + ".cfg", module + ".tla"],
                         workdir, {"VTRACE": path})
        g, d = tlc_counts(out)
        gen, dist = gen + g, dist + d
        for line in re.findall(r'^"VERDICT (.*)"$', out, re.M):
            v = json.loads(line.replace('\\"', '"'))
            verdicts.append((start + v["n"] - 1, sorted(v["f"])))
        shutil.rmtree(meta, ignore_errors=True)
        os.unlink(path)
        n = len(records) - start
        if "No error has been found" in out and d >= n + 1:
            break
        # The evaluation of a record failed (overflow, missing element): what
        # was recorded is so far off that the specification has no value for it.
        reached = re.findall(r"^(?:/\\ )?recno = (\d+)\s*$", out, re.M)
        evalerr = re.search(r"(Overflow|overflow|evaluat|Attempted|undefined)", out)
        if not evalerr or "CERTIFICATE" in out or "Parsing or semantic analysis failed" in out \
           or "OutOfMemory" in out or "StackOverflow" in out:
            raise MachineryError("TLC failed on %s:\n%s" % (module, out[-4000:]))
        bad = int(reached[-1]) if reached else 0
        verdicts = [v for v in verdicts if v[0] != start + bad]
        msg = re.findall(r"^Error: (.*)$", out, re.M)
        verdicts.append((start + bad, ["unevaluable: recorded values have no meaning in the specification"]))
        records[start + bad].setdefault("_tlc", out[-1500:])
        start = start + bad + 1
        skipped += 1
        if skipped > 25:
            break
    return verdicts, gen, dist


class Ctx:
    """Given to the cases: records what the code does."""

    def __init__(self, prop, tier, seed, workdir):
        self.prop, self.tier, self.seed, self.workdir = prop, tier, seed, workdir
        self.records = []
        self.label = ""
        self.thorough = tier == "thorough"

    def rng(self, *key):
        import numpy as np
        return np.random.default_rng(
            [self.seed, zlib.crc32((self.label + "/" + "/".join(map(str, key))).encode())])

    def rec(self, kind, inp, fn, timeout=30):
        """Execute fn, which returns the observed outcome, and record it.
        The record is [kind, case, exc, the fields of inp, out]."""
        r = {"kind": kind, "case": self.label, "exc": "", "out": {}}
        r.update(inp)
        result = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            result = fn()
            signal.alarm(0)
            r["out"] = result
        except Skip:
            signal.alarm(0)
            return None
        except CaseTimeout:
            r["exc"] = "Timeout"
        except (KeyboardInterrupt, MemoryError):
            signal.alarm(0)
            r["exc"] = "MemoryError"
        except BaseException as e:
            signal.alarm(0)
            r["exc"] = type(e).__name__
            r["msg"] = str(e)[:300]
            r["tb"] = traceback.format_exc()[-1500:]
        finally:
            signal.alarm(0)
        self.records.append(r)
        return result if r["exc"] == "" else None


def worker(mod, prop, tier, seed, workdir, k, n, only):
    """Execute a share of the cases, judge them, write the outcome."""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2) if not os.environ.get("VERIF_DEBUG") else None
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    ctx = Ctx(prop, tier, seed, workdir)
    prog = open(os.path.join(workdir, f"progress-{k}"), "a", buffering=1)
    skip = set()
    skipfile = os.path.join(workdir, f"skip-{k}")
    if os.path.exists(skipfile):
        skip = set(open(skipfile).read().split("\n"))
    ncases = 0
    out = open(os.path.join(workdir, f"records-{k}.jsonl"), "w")
    cases = mod.cases(ctx)
    labels = [c[0] for c in cases]
    if len(set(labels)) != len(labels):
        dup = sorted(l for l in set(labels) if labels.count(l) > 1)
        raise MachineryError("duplicate case labels: %s" % dup[:5])
    for j, (label, fn) in enumerate(cases):
        if j % n != k or label in skip or (only and label not in only):
            continue
        prog.write(label + "\n")
        ctx.label = label
        ncases += 1
        try:
            signal.signal(signal.SIGALRM, _alarm)
            fn(ctx)
        except CaseTimeout:
            ctx.records.append({"kind": "escaped", "case": label, "exc": "Timeout", "out": {}})
        except BaseException as e:
            signal.alarm(0)
            if isinstance(e, (MachineryError, SystemError)) and isinstance(e, MachineryError):
                raise
            ctx.records.append({"kind": "escaped", "case": label,
                                "exc": type(e).__name__, "out": {}, "msg": str(e)[:300],
                                "tb": traceback.format_exc()[-1500:]})
    prog.write("#done\n")
    for r in ctx.records:
        out.write(json.dumps(r, default=str) + "\n")
    out.close()
    strip = [{a: b for a, b in r.items() if a not in ("tb", "msg", "_tlc")}
             for r in ctx.records]
    verdicts, gen, dist = judge(mod.MODULE, strip, workdir, str(k))
    with open(os.path.join(workdir, f"result-{k}.json"), "w") as fh:
        json.dump(dict(verdicts=verdicts, gen=gen, dist=dist, ncases=ncases,
                       nrecords=len(ctx.records)), fh)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) clause=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4).strip()))
    return res


def run_check(prop, tier, seed, only=None, keep=False):
    import importlib
    t0 = time.time()
    mod = importlib.import_module("harness.props." + prop.lower())
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        return _run(mod, prop, tier, seed, only, workdir, t0)
    finally:
        if not keep:
            shutil.rmtree(workdir, ignore_errors=True)
        else:
            print("kept", workdir)


def run_model(m, workdir):
    """Explore a model exhaustively with TLC. m: dict(module, cfg, dump, timeout)."""
    name = m.get("cfg", m["module"])
    args = ["-workers", str(m.get("workers", NWORKERS)), "-metadir", os.path.join(workdir, "meta-" + name),
            "-noGenerateSpecTE", "-deadlock"]
    dump = None
    if m.get("dump"):
        dump = os.path.join(workdir, name + ".dot")
        args += ["-dump", "dot,actionlabels", dump]
    args += ["-config", name + ".cfg", m["module"] + ".tla"]
    code, out = java(args, workdir, {"VWORK": workdir}, timeout=m.get("timeout", 600), heap="8g")
    if "No error has been found" not in out:
        raise MachineryError("model %s:\n%s" % (name, out[-3000:]))
    gen, dist = tlc_counts(out)
    prints = re.findall(r'^"(.*)"$', out, re.M)
    return dict(name=name, gen=gen, dist=dist, dump=dump,
                prints=[p.replace('\\"', '"') for p in prints])


def _run(mod, prop, tier, seed, only, workdir, t0):
    models = []
    for m in (mod.models(tier) if hasattr(mod, "models") else []):
        res = run_model(m, workdir)
        models.append(res)
        if hasattr(mod, "use_model"):
            mod.use_model(m, res, workdir)
    n = NWORKERS
    limit = 780 if tier == "quick" else 6 * 3600
    env = dict(os.environ)
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), HOME=workdir, LANG="C.UTF-8",
               PYTHONPATH=VERIF + ":" + REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               OPENBLAS_CORETYPE="Haswell", MPLCONFIGDIR=workdir, TMPDIR=workdir)

    def spawn(k):
        cmd = [sys.executable, os.path.join(VERIF, "check.py"), prop, "--worker",
               str(k), str(n), workdir]
        if only:
            cmd += ["--only", json.dumps(only)]
        logf = open(os.path.join(workdir, f"log-{k}"), "a")
        return subprocess.Popen(cmd, env=env, stdout=logf, stderr=logf,
                                cwd=workdir, start_new_session=True)

    procs = {k: spawn(k) for k in range(n)}
    crashes, tries = [], {k: 0 for k in range(n)}
    while procs:
        time.sleep(0.05)
        for k, p in list(procs.items()):
            rc = p.poll()
            over = time.time() - t0 > limit
            if rc is None and not over:
                continue
            if rc is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            del procs[k]
            if rc == 0 and os.path.exists(os.path.join(workdir, f"result-{k}.json")):
                continue
            log = open(os.path.join(workdir, f"log-{k}")).read()
            prog = open(os.path.join(workdir, f"progress-{k}")).read().split("\n") \
                if os.path.exists(os.path.join(workdir, f"progress-{k}")) else []
            prog = [x for x in prog if x]
            if rc == 3 or not prog or prog[-1] == "#done":
                raise MachineryError("worker %d (exit %s): %s" % (k, rc, log[-4000:]))
            # The code under test took the process down, or never returned.
            crashes.append(dict(kind="crash", case=prog[-1], exc="process exit %s" % rc if rc is not None else "no return",
                                out={}, msg=log[-1000:]))
            tries[k] += 1
            if tries[k] <= 3 and not over:
                with open(os.path.join(workdir, f"skip-{k}"), "a") as fh:
                    fh.write(prog[-1] + "\n")
                procs[k] = spawn(k)
    fails, gen, dist, ncases, nrec, samples, kinds = [], 0, 0, 0, 0, [], {}
    for k in range(n):
        rp = os.path.join(workdir, f"result-{k}.json")
        if not os.path.exists(rp):
            continue
        res = json.load(open(rp))
        recs = [json.loads(l) for l in open(os.path.join(workdir, f"records-{k}.jsonl"))]
        gen += res["gen"]
        dist += res["dist"]
        ncases += res["ncases"]
        nrec += res["nrecords"]
        for r in recs:
            kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
        if recs:
            s = json.dumps(recs[(seed * 7) % len(recs)])
            samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
        for i, f in res["verdicts"]:
            fails.append((recs[i], f))
    for c in crashes:
        fails.append((c, ["the process died or never returned: " + c["exc"]]))
    known = known_findings(prop)
    reported, new = set(), []
    for r, f in fails:
        rest = []
        for clause in f:
            hit = [x for x in known if x[0] == r["case"] and x[1] == clause]
            if hit:
                reported.add(hit[0])
            else:
                rest.append(clause)
        if rest:
            new.append((r, rest))
    for case, clause, what in sorted(reported):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    mg = sum(m["gen"] for m in models)
    md = sum(m["dist"] for m in models)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=dist + md, transitions=max(gen + mg - (len(models) + NWORKERS), 0),
            traces_validated_against_impl=ncases,
            records_judged=nrec, records_by_kind=kinds,
            models=[{a: m[a] for a in ("name", "gen", "dist")} for m in models],
            samples=samples[:4]),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if nrec == 0 and not only:
        raise MachineryError("no record was judged")
    for old in os.listdir(os.path.join(VERIF, "evidence")):
        if old.startswith("replay-%s-" % prop):
            os.unlink(os.path.join(VERIF, "evidence", old))
    if new:
        new.sort(key=lambda x: len(json.dumps(x[0])))
        for j, (r, f) in enumerate(new[:20]):
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (prop, j))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, case=r["case"],
                               clauses=f, record=r,
                               rerun="python check.py %s --replay %s" % (prop, path)), fh, indent=1)
            if j < 5:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  case %s (%s): %s%s" % (r["case"], r["kind"], "; ".join(f),
                      " [%s %s]" % (r["exc"], r.get("msg", "")[:150]) if r["exc"] else ""))
        print("%s: %d of %d records break the specification (%.1f s)" % (prop, len(new), nrec, time.time() - t0))
        return 1
    print("%s: held on %d cases, %d records, %d states (%.1f s)" % (prop, ncases, nrec, dist + md, time.time() - t0))
    return 0
