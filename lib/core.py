"""Running checks: dumping the program, collecting verdicts, writing evidence."""
import glob
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

import dom
import spec
from dom import Unsupported
from world import Missing, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FM_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
DRIVER = os.path.join(HERE, "driver", "target", "release", "fm-mir-driver")

CONFIGS = {
    # label: (cargo flags, extra rustc flags)
    "std": ([], ""),
    "nostd": (["--no-default-features"], ""),
    "release": ([], "-Cdebug-assertions=off -Coverflow-checks=off"),
}

class Broken(Exception):
    """The machinery itself cannot run."""

def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build_driver():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    rc, out = sh(["cargo", "build", "--release", "--offline", "-q"], env, os.path.join(HERE, "driver"))
    if rc or not os.path.exists(DRIVER):
        raise Broken("the MIR driver does not build:\n" + out[-3000:])

def dump(label, out):
    """Dump the MIR of /repo's current working tree into directory out."""
    flags, rf = CONFIGS[label]
    build_driver()
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"])
    root = root.strip().splitlines()[-1]
    target = os.path.join(WORK, "target-" + label)
    shutil.rmtree(out, ignore_errors=True)
    for g in ("build/fuel-merkle", ".fingerprint/fuel-merkle-*"):
        for p in glob.glob(os.path.join(target, "debug", g)):
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "FM_ROOTS"):
        env.pop(k, None)
    env.update(LD_LIBRARY_PATH=os.path.join(root, "lib"), RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=target, FM_OUT=out,
               RUSTFLAGS=("-Zmir-opt-level=0 -Zub-checks=no " + rf).strip())
    rc, txt = sh(["cargo", "+nightly", "check", "--offline", "--lib"] + flags, env, REPO)
    if rc or not os.path.exists(os.path.join(out, "index.json")):
        raise Broken("the repository does not build for analysis (%s):\n%s" % (label, txt[-3000:]))

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viols = {}
        self.counts = {}
        self.samples = []
        self.worlds = {}
        self.t0 = time.time()
        self.outdir = os.path.join(WORK, "dump-%d" % os.getpid())
        self.known = known_findings()
        self.cut = None  # when to stop: some time after the first violation
        self.deadline = self.t0 + (720 if tier != "thorough" else 6 * 3600)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def world(self, label="std"):
        w = self.worlds.get(label)
        if w is None:
            d = os.path.join(self.outdir, label)
            dump(label, d)
            w = self.worlds[label] = World(d, label)
        return w

    def variant(self, label):
        """The program in another configuration; None when only the default one builds."""
        try:
            return self.world(label)
        except Broken as e:
            if label == "std":
                raise
            self.world("std")
            self.count("configurations that do not build: " + label)
            print("NOTE: configuration %s does not build and is not analysed: %s" % (label, str(e).strip().splitlines()[-1][:200]))
            return None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def viol(self, key, text):
        self.viols.setdefault(key, text)

    def expect(self, ok, key, text):
        """One obligation."""
        self.count("obligations")
        if ok:
            self.count("discharged")
        else:
            self.viol(key, text() if callable(text) else text)
        return ok

    def floor(self, k, n):
        """A count that must not shrink silently."""
        if self.counts.get(k, 0) < n and self.cut is None:
            self.viol("floor:" + k, "only %d instances of %s were analysed, at least %d are known to exist" % (self.counts.get(k, 0), k, n))

    def guard(self, key, f, *a):
        """Run one instance; what cannot be decided is reported."""
        try:
            return f(*a)
        except Missing as e:
            self.viol(key + ":missing", "%s: the function %s does not exist in the analysed program" % (key, e))
        except Unsupported as e:
            self.viol(key + ":undecided", "%s: cannot be decided: %s at %s" % (key, e, getattr(e, "at", "?")))
        except RecursionError:
            self.viol(key + ":undecided", "%s: cannot be decided: recursion" % key)
        return None

    def pmap(self, rule, items, label="std", limit=None, name=None):
        """Run rule(c, world, *item) for every item, on all cores."""
        global _job
        items = [i if type(i) is tuple else (i,) for i in items]
        if self.late():
            return
        W = self.world(label)
        limit = limit or (300 if not self.thorough else 900)
        _job = (self, W, rule, items, limit, name or rule.__name__)
        if len(items) < 4 or os.environ.get("FM_SERIAL"):
            for n in range(len(items)):
                if self.late():
                    return
                self.merge(W, _task(n))
            return
        with multiprocessing.get_context("fork").Pool(min(os.cpu_count() or 1, 8, len(items)), maxtasksperchild=25) as pool:
            it = pool.imap_unordered(_task, range(len(items)))
            while not self.late():
                try:
                    self.merge(W, it.next(timeout=1))
                except multiprocessing.TimeoutError:
                    pass
                except StopIteration:
                    return
            pool.terminate()

    def late(self):
        """Whether to look no further: a violation is known, or time is up."""
        now = time.time()
        if self.cut is None and any("property=%s %s" % (self.prop, k) not in self.known for k in self.viols):
            self.cut = now + (12 if not self.thorough else 120)
        if now > self.deadline:
            self.viol("time", "the analysis does not finish in its time: what is left is undecided")
            self.cut = self.cut or now
        return self.cut is not None and now > min(self.cut, self.deadline)

    def merge(self, W, r):
        counts, viols, samples, stats, fns = r
        for k, n in counts.items():
            self.count(k, n)
        for k, t in viols.items():
            self.viols.setdefault(k, t)
        for s in samples:
            self.sample(s)
        for k, n in stats.items():
            setattr(W, k, getattr(W, k) + n)
        for k, n in fns.items():
            W.fns[k] = W.fns.get(k, 0) + n

_job = None
STATS = ("steps", "joins", "forks", "runs")

class Expired(Exception):
    pass


def _expired(*_):
    raise Expired("time limit of one analysis exceeded")

def _task(n):
    c, W, rule, items, limit, name = _job
    d = Ctx(c.prop, c.tier, c.seed)
    d.worlds = c.worlds
    old = {k: getattr(W, k) for k in STATS}
    fns = W.fns
    W.fns = {}
    signal.signal(signal.SIGALRM, _expired)
    signal.alarm(limit)
    key = "%s:%s" % (name, ":".join(str(x) for x in items[n]))
    try:
        d.guard(key, rule, d, W, *items[n])
    except Exception as e:  # a failure of the machinery on this instance
        if os.environ.get("FM_DEBUG"):
            traceback.print_exc()
        d.viol(key + ":undecided", "%s: cannot be decided: %s: %s" % (key, type(e).__name__, e))
    finally:
        signal.alarm(0)
    stats = {k: getattr(W, k) - old[k] for k in STATS}
    for k, v in old.items():
        setattr(W, k, v)
    got, W.fns = W.fns, fns
    return d.counts, d.viols, d.samples, stats, got

def known_findings():
    out = set()
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding: "):
            out.add(l[len("finding: "):].split(" -- ")[0].strip())
    return out

def main(prop, tier, rules):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Ctx(prop, tier, seed)
    fn, level, expl = rules[prop]
    status = 0
    try:
        c.guard(prop, fn, c)
        known = c.known
        fresh = []
        for k, t in c.viols.items():
            if "property=%s %s" % (prop, k) in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, t))
            else:
                fresh.append((k, t))
        ev = evidence(c, level, expl, fresh)
        rep = os.path.join(HERE, "evidence", "replay")
        if fresh:
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, prop + ".txt")
            with open(path, "w") as f:
                for k, t in fresh:
                    f.write("%s\n    %s\n" % (k, t))
            for k, t in fresh[:25]:
                print("  [%s] %s" % (k, t))
            if len(fresh) > 25:
                print("  ... and %d more" % (len(fresh) - 25))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
        else:
            print("OK property=%s %s" % (prop, json.dumps(c.counts, sort_keys=True)))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    except Broken as e:
        print("ERROR property=%s %s" % (prop, e))
        status = 2
    except Exception:
        traceback.print_exc()
        status = 3
    finally:
        shutil.rmtree(c.outdir, ignore_errors=True)
    return status

def evidence(c, level, expl, fresh):
    cov = dict(c.counts)
    cov["explanation"] = expl
    cov["samples"] = c.samples
    fns = {}
    for lab, w in c.worlds.items():
        cov["mir_steps_" + lab] = w.steps
        cov["path_joins_" + lab] = w.joins
        cov["case_splits_" + lab] = w.forks
        cov["analysed_calls_" + lab] = w.runs
        for k, n in w.fns.items():
            fns[k] = fns.get(k, 0) + n
    cov["functions_analysed"] = len(fns)
    cov["functions"] = sorted(fns)
    cov["violations"] = len(fresh)
    return {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level,
            "coverage": cov, "wall_s": round(time.time() - c.t0, 2),
            "assumptions": ["SHA-256 is treated as an ideal (injective, constant-free) function of its input bytes",
                            "rustc's MIR and the models of the standard library in lib/models.py describe the program",
                            "std crates' own code is analysed from its MIR where available, and modelled otherwise"]}
