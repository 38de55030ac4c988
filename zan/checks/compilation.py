"""C29, C30: what the compiler accepts: auto traits of the public types, feature combinations, platform families."""
import fcntl
import json
import os
import re
import shutil
import tomllib

from ..base import BUILD, REPO, VERIF, CheckFailed, driver, forget, sh, sysroot
from . import rule

# items of the standard library and of tokio that exist on one platform family only
ONE_FAMILY = re.compile(r"^(std|core)::os::(?!raw)|^tokio::(net::[uU]nix|net::Unix|net::windows|signal::(unix|windows))|^tokio::fs::(symlink$|symlink_(dir|file)$|symlink::)|"
                        r"^tokio::fs::(OpenOptions|DirBuilder)::(mode|custom_flags|access_mode|share_mode|attributes|security_qos_flags)$|^tokio::fs::DirEntry::ino$|"
                        r"^std::(process::CommandExt|path::.*windows)|^(libc|nix|rustix|winapi|windows(_sys)?)::")


def feature_sets(manifest):
    feats = dict(manifest.get("features", {}))
    deps = {k for k, v in manifest.get("dependencies", {}).items() if isinstance(v, dict) and v.get("optional")}
    explicit = {x[4:] for v in feats.values() for x in v if x.startswith("dep:")}
    for d in deps - explicit:
        feats.setdefault(d, [])

    def close(s):
        s = set(s)
        while True:
            t = s | {x for f in s for x in feats.get(f, []) if x in feats}
            if t == s:
                return s
            s = t
    names = sorted(f for f in feats if f != "default")
    seen, res = {}, []
    for m in range(1 << len(names)):
        s = [n for i, n in enumerate(names) if m >> i & 1]
        k = frozenset(close(s))
        if k not in seen:
            seen[k] = s
            res.append((s, sorted(k)))
    return names, res


def compile_crate(exe, tgt, feats, family, mentions):
    forget(tgt)
    if os.path.exists(mentions):
        os.unlink(mentions)
    env = {"LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WORKSPACE_WRAPPER": exe, "ZDUMP_CRATE": "zippity", "ZMENTIONS_OUT": mentions,
           "CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0", "ZFAMILY": family}
    env["ZDUMP_OUT"] = ""
    env.pop("ZDUMP_OUT")
    rc, out = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--no-default-features", "--features", ",".join(feats)], cwd=REPO, env=env)
    return rc, out


def first_error(out):
    m = re.search(r"^error.*?(?=^(error|warning)|\Z)", out, re.M | re.S)
    return (m.group(0) if m else out)[-900:]


@rule("C30")
def combinations(ctx, rep):
    rep.explanation = (
        "The compiler's front end (parsing, name resolution, type, borrow and privacy checks) decides every distinct subset of the optional features, each as unix and as a platform that is "
        "neither unix nor windows (the family switches of the crate's own conditional compilation are turned off inside the compiler; dependencies are those of this machine). In the "
        "non-unix pass every item of another crate the library mentions is compared with the operations that exist on one family only.")
    manifest = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    names, sets = feature_sets(manifest)
    exe = driver()
    tgt = os.path.join(BUILD, "combos")
    n = total = 0
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for feats, closed in sets:
            for family in ("unix", "nonunix"):
                men = os.path.join(BUILD, "mentions.txt")
                rc, out = compile_crate(exe, tgt, feats, family, men)
                what = "%s, %s" % ("+".join(feats) or "no features", "unix" if family == "unix" else "non-unix")
                if rc == 0 and not os.path.exists(men):
                    raise CheckFailed("compiling %s left no record" % what)
                n += 1
                if rc:
                    # only errors of this crate count; a dependency that fails to build decides nothing
                    if re.search(r"could not compile `zippity`", out):
                        rep.bad("every feature combination type-checks", what, first_error(out))
                    else:
                        raise CheckFailed("dependencies for %s do not build: %s" % (what, out[-600:]))
                    continue
                rep.ok("every feature combination type-checks", what)
                if family == "nonunix":
                    for line in open(men):
                        own, item = line.rstrip("\n").split("\t")
                        total += 1
                        if ONE_FAMILY.search(item):
                            rep.bad("code outside platform conditions uses only operations of every platform", own, "%s (with %s)" % (item, what))
                rep.ok("code outside platform conditions uses only operations of every platform", what)
    rep.count("feature combinations compiled (times families)", n)
    rep.count("mentions of foreign items compared", total)
    rep.floor("optional features", len(names), 4)
    rep.floor("mentions of foreign items compared", total, 500)
    d = manifest.get("features", {})
    rep.samples.append("features: " + ", ".join(names))


# ---------------------------------------------------------------- C29
BOUNDS = {
    "Send": "D: EntryData + Send + 'static, D::Reader: Send, D::Future: Send",
    "Unpin": "D: EntryData + Unpin + 'static, D::Reader: Unpin, D::Future: Unpin",
}
GENERIC = {"a reader": "zippity::Reader<D>", "a byte stream": "zippity::BytesStream<D>", "a responder": "zippity::ActixWebAdapter<D>"}
KINDS = {"a filesystem entry": "zippity::FilesystemEntry", "a slice entry": "&'static [u8]", "a vector entry": "Vec<u8>", "a string entry": "String", "a bytes entry": "bytes::Bytes"}
ERRORS = {"ReadError": "zippity::ReadError", "AddEntryError": "zippity::AddEntryError", "AddFilesystemEntryError": "zippity::AddFilesystemEntryError",
          "AddDirectoryRecursiveError": "zippity::AddDirectoryRecursiveError"}


def witnesses():
    """(name of the function, rule, construct, source)"""
    w = []

    def add(rule_, construct, where, body):
        n = "w%d" % len(w)
        w.append((n, rule_, construct, "pub fn %s%s { %s }" % (n, where, body)))
    for tr, b in BOUNDS.items():
        for nm, ty in GENERIC.items():
            add("sendable when the sources are" if tr == "Send" else "unpinned when the sources are", "%s is %s" % (nm, tr), "<D>() where %s" % b, "%s::<%s>()" % (tr.lower(), ty))
    for nm, ty in KINDS.items():
        for tr in ("Send", "Unpin"):
            r = "built-in entry kinds qualify"
            add(r, "%s is %s" % (nm, tr), "()", "%s::<%s>()" % (tr.lower(), ty))
            add(r, "the reader of %s is %s" % (nm, tr), "()", "%s::<<%s as EntryData>::Reader>()" % (tr.lower(), ty))
            add(r, "the future of %s is %s" % (nm, tr), "()", "%s::<<%s as EntryData>::Future>()" % (tr.lower(), ty))
            for g, t in GENERIC.items():
                add(r, "%s over %s is %s" % (g, nm, tr), "()", "%s::<%s>()" % (tr.lower(), t.replace("<D>", "<%s>" % ty)))
    r = "error types are shareable and standard errors"
    for nm, ty in ERRORS.items():
        for tr in ("Send", "Sync"):
            add(r, "%s is %s" % (nm, tr), "()", "%s::<%s>()" % (tr.lower(), ty))
        add(r, "%s is an Error" % nm, "()", "error::<%s>()" % ty)
    add(r, "read errors come out of a reader as io::Error", "(e: zippity::ReadError)", "let _ = std::io::Error::other(e);")
    return w


def build_witness():
    w = witnesses()
    d = os.path.join(BUILD, "witness")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "witness"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nzippity = { path = "%s", features = ["tokio-file", "bytes", "actix-web", "chrono"] }\nbytes = "1"\n[workspace]\n' % REPO)
    src = ["//! each function type-checks exactly when its obligation holds", "#![allow(unused)]", "use zippity::EntryData;", "fn send<T: Send>() {}", "fn sync<T: Sync>() {}",
           "fn unpin<T: Unpin>() {}", "fn error<T: std::error::Error + 'static>() {}", "fn is_send<T: Send>(_: T) {}"]
    first = len(src) + 1
    src += [x[3] for x in w]
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write("\n".join(src) + "\n")
    return d, w, first


@rule("C29")
def auto_traits(ctx, rep):
    rep.explanation = (
        "A crate of witness functions against the current library: each is one obligation, a call of a function bounded by Send, Sync, Unpin or Error at a public type, for every entry data type "
        "with the stated bounds or for a built-in kind; the type checker accepts it exactly when the obligation holds.")
    with open(os.path.join(BUILD, "lock") if os.path.isdir(BUILD) else os.devnull, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d, w, first = build_witness()
        forget(os.path.join(BUILD, "wtarget"))
        rc, out = sh(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=d, env={"CARGO_TARGET_DIR": os.path.join(BUILD, "wtarget"), "CARGO_INCREMENTAL": "0"})
    bad, other, lib = {}, [], []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or m["message"]["message"].startswith("aborting"):
            continue
        if m["target"]["name"] != "witness":
            lib.append(m["message"]["rendered"] or "")
            continue
        prim = [s for s in m["message"]["spans"] if s["is_primary"]]
        ln = prim[0]["line_start"] - first if prim and prim[0]["file_name"].endswith("lib.rs") else -1
        if 0 <= ln < len(w):
            code = (m["message"].get("code") or {}).get("code") or ""
            bad.setdefault(ln, []).append((code, m["message"]["rendered"] or ""))
        else:
            other.append(m["message"]["rendered"] or "")
    if lib or other or rc and not bad:
        raise CheckFailed("the witnesses could not be decided: %s" % ("".join(lib + other) or out)[-1200:])
    for i, (n, rule_, construct, src) in enumerate(w):
        if i not in bad:
            rep.ok(rule_, construct)
            continue
        # an unsatisfied trait bound is a violation; anything else means the witness no longer fits the interface
        tr = [r for c, r in bad[i] if c in ("E0277", "") and re.search(r"cannot be (sent|shared|unpinned)|is not (Send|Sync)|the trait bound|`[^`]*` cannot be|future cannot be sent|not (implemented|satisfied)|doesn't implement", r)]
        if tr:
            rep.bad(rule_, construct, tr[0][:900])
        else:
            rep.bad("public interface of the witnesses", construct, bad[i][0][1][:700])
    rep.count("witness functions type-checked", len(w))
    rep.floor("witness functions", len(w), 75)
