"""Command line driver: builds the facts from /repo's current working tree and runs one check."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT6_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DRIVER = os.path.join(VERIF, "driver")
DRIVER_BIN = os.path.join(DRIVER, "target", "release", "vt6facts")


class ToolError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, timeout=timeout)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()[:24]


def build_driver():
    src = glob.glob(DRIVER + "/src/*.rs") + [DRIVER + "/Cargo.toml"]
    key = file_hash(src)
    stamp = os.path.join(DRIVER, "target", "release", "stamp")
    if os.path.exists(DRIVER_BIN) and os.path.exists(stamp) and open(stamp).read() == key:
        return key
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER)
    if r.returncode != 0 or not os.path.exists(DRIVER_BIN):
        raise ToolError("the fact exporter does not build:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return key


def sources():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            out.append(os.path.join(d, f))
    return out


# name -> (cargo arguments, crates, target directory, harness)
CONFIGS = {
    "full": (["--workspace"], ["vt6", "vt6_example_server"], "full", False),
    "nostd": (["-p", "vt6", "--no-default-features"], ["vt6"], "nostd", False),
    "harness": (["--workspace"], ["vt6", "vt6_example_server"], "full", True),
}
HARNESS = os.path.join(VERIF, "harness")


def facts_dir(config):
    """export facts for a configuration of the crate; returns (dir, None) or (None, compiler output)"""
    with Lock():
        dkey = build_driver()
        skey = file_hash(sources())
        out = os.path.join(BUILD, "facts-" + config)
        stamp = os.path.join(out, "stamp")
        args, crates, tname, harness = CONFIGS[config]
        want = dkey + skey + REPO + (file_hash(glob.glob(HARNESS + "/*.rs")) if harness else "")
        if os.path.exists(stamp) and open(stamp).read() == want:
            return out, None
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        tgt = os.path.join(BUILD, "cargo-" + tname)
        # cargo would skip the wrapper if it thinks that the crate is fresh
        for p in glob.glob(tgt + "/debug/.fingerprint/vt6-*") + glob.glob(tgt + "/debug/build/vt6*"):
            shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ)
        root = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]
        env.pop("RUSTFLAGS", None)
        env.update(LD_LIBRARY_PATH=root + "/lib", CARGO_TARGET_DIR=tgt, VT6FACTS_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=DRIVER_BIN, CARGO_TERM_COLOR="never")
        env.pop("VT6FACTS_HARNESS", None)
        if harness:
            env["VT6FACTS_HARNESS"] = HARNESS
        r = sh(["cargo", "+nightly", "check", "--offline"] + args, env=env, cwd=REPO)
        if r.returncode != 0:
            return None, r.stdout[-4000:]
        for c in crates:
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise ToolError("no facts were exported for crate %s\n%s" % (c, r.stdout[-2000:]))
        with open(stamp, "w") as f:
            f.write(want)
        return out, None


class Ctx:
    """collects the results of one check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.violations = []      # (key, text)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.cov = {}
        self.assumptions = []
        self.level = "other"
        self.rule = ""
        self._facts = {}
        self.funcs = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def facts(self, crate="vt6", config="harness"):
        from .facts_db import Facts
        k = (crate, config)
        if k not in self._facts:
            d, errtxt = facts_dir(config)
            if d is None:
                raise ToolError("the crate does not build (%s):\n%s" % (config, errtxt))
            self._facts[k] = Facts(os.path.join(d, crate + ".json"))
        return self._facts[k]

    def violation(self, key, text, **detail):
        for v in self.violations:
            if v["key"] == key:
                return
        d = {"key": key, "what": text}
        d.update(detail)
        self.violations.append(d)

    def oblige(self, good, key, text, undecided=False, **detail):
        """count one obligation; `good` is True, False or None (not decided)"""
        self.obligations += 1
        if good:
            self.discharged += 1
        elif good is None or undecided:
            self.undecided.append({"key": key, "what": text})
        else:
            self.violation(key, text, **detail)
        return good

    def floor(self, what, n, least):
        """fail closed when fewer instances of something are found than were counted by hand, unless the analysis
        said already what it does not understand"""
        self.cov[what] = n
        if n < least and not self.undecided:
            raise ToolError("only %d %s found, expected at least %d: the analysis would be vacuous" % (n, what, least))


def known_findings():
    out = set()
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                # known: property=<id> key=<exact key> :: <text>
                head, _, text = l[7:].partition(" :: ")
                pid, _, key = head.partition(" key=")
                out.add((pid.replace("property=", ""), key))
    return out


def main(argv):
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main2(argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)


def main2(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import checks
    ctx = Ctx(pid, tier, seed)
    try:
        fn = checks.get(pid)
        fn(ctx)
    except Exception as e:
        if not isinstance(e, ToolError):
            traceback.print_exc(file=sys.stdout)
            e = "internal error"
        print("ERROR property=%s %s" % (pid, e))
        if not any((pid, v["key"]) not in known_findings() for v in ctx.violations):
            return 3
    known = known_findings()
    bad = []
    for v in ctx.violations:
        if (pid, v["key"]) in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, v["what"]))
        else:
            bad.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"explanation": ctx.rule or fn.__doc__ or "", "obligations": ctx.obligations,
           "discharged": ctx.discharged, "undecided": len(ctx.undecided),
           "undecided_items": ctx.undecided[:40],
           "functions_analysed": len(ctx.funcs), "functions": sorted(ctx.funcs)[:400]}
    cov.update(ctx.cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
    if os.path.exists(rp):
        os.remove(rp)
    if bad:
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": bad}, f, indent=1, default=str)
        for v in bad[:20]:
            print("%s: %s" % (pid, v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs" % (
        pid, ctx.obligations, ctx.discharged, len(ctx.undecided), time.time() - t0))
    return 0
