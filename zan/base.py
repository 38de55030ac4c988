"""Shared plumbing of the checks: extraction of /repo's current source, obligations, verdicts,
evidence files, known findings."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZIPPITY_REPO", "/repo")
BUILD = os.environ.get("ZIPPITY_BUILD", os.path.join(VERIF, ".build"))


class CheckFailed(Exception):
    """The analysis itself could not be carried out (fail closed)."""


class Unidentified(CheckFailed):
    """A private part of the code was not recognised by what it does: nothing is claimed about it (reported, not an alarm)."""


def sh(cmd, env=None, cwd=None, timeout=840):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return r.returncode, r.stdout


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise CheckFailed("no nightly toolchain: " + out[-400:])
    return out.strip().splitlines()[-1]


def driver():
    tgt = os.path.join(BUILD, "driver")
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")],
                 env={"CARGO_TARGET_DIR": tgt})
    exe = os.path.join(tgt, "debug", "zdriver")
    if rc or not os.path.exists(exe):
        raise CheckFailed("the MIR extractor does not build: " + out[-1500:])
    return exe


def source_digest():
    h = hashlib.sha256()
    for base, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def forget(tgt):
    """makes cargo compile the crate again (its dependencies stay)"""
    for pat in ("debug/.fingerprint/zippity-*", "debug/build/zippity", "debug/build/zippity-*"):
        for d in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(d, ignore_errors=True)


def extract(features="--all-features", family=""):
    """MIR, types and items of /repo's library as the compiler sees it now."""
    from .mir import Program
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        tgt = os.path.join(BUILD, "target")
        dump = os.path.join(BUILD, "dump%s.json" % family)
        stamp = os.path.join(BUILD, "dump%s.stamp" % family)
        dig = source_digest() + hashlib.sha256(open(exe, "rb").read()).hexdigest()
        if not (os.path.exists(dump) and os.path.exists(stamp) and open(stamp).read() == dig):
            for f in (dump, stamp):
                if os.path.exists(f):
                    os.unlink(f)
            forget(tgt)
            rc, out = sh(["cargo", "+nightly", "check", "--lib", features, "--offline"], cwd=REPO, env={
                "LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WORKSPACE_WRAPPER": exe, "ZDUMP_OUT": dump, "ZFAMILY": family, "ZDUMP_CRATE": "zippity",
                "CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0", "RUSTFLAGS": "-Zalways-encode-mir"})
            if rc or not os.path.exists(dump):
                raise CheckFailed("extraction of %s failed: %s" % (REPO, out[-3000:]))
            with open(stamp, "w") as f:
                f.write(dig)
        return Program(dump)


class Report:
    """Obligations of one property on this run."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.ob = {}          # (rule, construct) -> [status, detail]
        self.counts = {}
        self.info = {}
        self.samples = []
        self.floors = []
        self.explanation = ""
        self.analysed = set()

    def _put(self, rule, construct, status, detail):
        k = (rule, str(construct))
        rank = {"ok": 0, "undecided": 1, "bad": 2}
        cur = self.ob.get(k)
        if cur is None or rank[status] > rank[cur[0]]:
            self.ob[k] = [status, detail, 1 if cur is None else cur[2] + 1]
        else:
            cur[2] += 1

    def ok(self, rule, construct, detail=""):
        self._put(rule, construct, "ok", detail)

    def bad(self, rule, construct, detail):
        self._put(rule, construct, "bad", detail)

    def undecided(self, rule, construct, detail=""):
        self._put(rule, construct, "undecided", detail)

    def judge(self, verdict, rule, construct, detail=""):
        {True: self.ok, False: self.bad, None: self.undecided}[verdict](rule, construct, detail)

    def adopt(self, sub, rules):
        """takes over obligations another property's rules decided: {their rule: rule here}"""
        self.analysed |= sub.analysed
        for (rule, what), (status, detail, n) in sub.ob.items():
            if rule in rules:
                self._put(rules[rule], what, status, detail)

    def floor(self, what, n, least):
        """fewer rule instances than confirmed by hand: the analysis lost its anchors"""
        self.floors.append((what, n, least))
        if n < least:
            self.bad("floor", what, "only %d instance(s) of '%s' found, at least %d expected" % (n, what, least))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n


def known_findings(prop):
    """exact (rule, construct) keys of recorded findings of this property"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if not line.startswith("finding: "):
                continue
            head, _, what = line[len("finding: "):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split(" | "))
            if d.get("property") == prop:
                res[(d["rule"], d["construct"])] = what
    return res


def finish(rep, level="other"):
    bad = {k: v for k, v in rep.ob.items() if v[0] == "bad"}
    known = known_findings(rep.prop)
    new = {k: v for k, v in bad.items() if k not in known}
    n_ok = sum(1 for v in rep.ob.values() if v[0] == "ok")
    und = [k for k, v in rep.ob.items() if v[0] == "undecided"]
    cov = {
        "explanation": rep.explanation,
        "rules": sorted({k[0] for k in rep.ob}),
        "obligations": len(rep.ob),
        "discharged": n_ok,
        "undecided": [{"rule": k[0], "construct": k[1], "why": rep.ob[k][1][:300]} for k in und[:40]],
        "violated": [{"rule": k[0], "construct": k[1], "what": v[1][:600]} for k, v in list(new.items())[:40]],
        "known_findings": [{"rule": k[0], "construct": k[1], "what": known[k]} for k in bad if k in known],
        "occurrences": sum(v[2] for v in rep.ob.values()),
        "floors": [{"what": a, "found": b, "least": c} for a, b, c in rep.floors],
        "samples": [{"rule": k[0], "construct": k[1], "detail": v[1][:300]} for k, v in list(rep.ob.items())[:12]],
        "functions_analysed": sorted(rep.analysed)[:200],
    }
    cov.update(rep.counts)
    cov.update(rep.info)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - rep.t0, 3)}
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in bad:
        if k in known:
            print("KNOWN-FINDING: property=%s %s (%s: %s)" % (rep.prop, known[k], k[0], k[1]))
    path = os.path.join(VERIF, "evidence", rep.prop + ".report.txt")
    with open(path, "w") as f:
        f.write("property %s: %d obligation(s), %d discharged, %d undecided, %d violated\n" % (rep.prop, len(rep.ob), n_ok, len(und), len(new)))
        for k, v in new.items():
            f.write("\nVIOLATED  rule: %s\n  construct: %s\n  %s\n" % (k[0], k[1], v[1]))
        for k in und:
            f.write("\nundecided rule: %s\n  construct: %s\n  %s\n" % (k[0], k[1], rep.ob[k][1]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (
        rep.prop, len(rep.ob), n_ok, len(und), len(new), time.time() - rep.t0))
    if new:
        for k, v in list(new.items())[:12]:
            print("  violated [%s] %s: %s" % (k[0], k[1], v[1][:700]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, path))
        return 1
    return 0
