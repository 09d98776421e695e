"""Build the analyser and run it over the witness crate against /repo."""
import json, os, re, subprocess, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FM_REPO", "/repo")
TARGET = os.path.join(V, "target")


class Fatal(Exception):
    """The check cannot give an answer (exit 2)."""


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Fatal("timeout: " + " ".join(cmd))
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        rc, out, err = sh(["rustc", "+nightly", "--print", "sysroot"])
        if rc:
            raise Fatal("no nightly toolchain: " + err)
        _sysroot = out.strip()
    return _sysroot


def driver():
    rc, out, err = sh(
        ["cargo", "+nightly", "build", "--offline", "--release", "-q", "--target-dir", TARGET + "/fmlint"],
        cwd=V + "/fmlint",
    )
    exe = TARGET + "/fmlint/release/fmlint"
    if rc or not os.path.exists(exe):
        raise Fatal("building the analyser failed:\n" + err[-3000:])
    return exe


def messages(out):
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                yield json.loads(line)
            except ValueError:
                pass


def errors(out):
    """(package id, rendered error, [spans]) of every error in cargo's JSON output."""
    r = []
    for m in messages(out):
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            t = m["message"].get("rendered") or m["message"]["message"]
            if m["message"]["message"].startswith("aborting due to"):
                continue
            r.append((m["package_id"], t, m["message"].get("spans") or [], m["message"]))
    return r


def repo_compiles():
    rc, out, err = sh(
        ["cargo", "+nightly", "check", "--offline", "--all-features", "--message-format=json", "--target-dir", TARGET + "/repo"],
        cwd=REPO,
    )
    return rc == 0, "\n".join(e[1] for e in errors(out)) or err


class Outcome:
    def __init__(self):
        self.obs = []        # analyser records
        self.broken = []     # type errors in the witness: (label, text)
        self.fns = []        # with cover: the repository's functions
        self.hash = True
        self.notes = []
        self.prints = {}     # fingerprints of the repository's items
        self.since = None    # what differs from the configuration analysed before


def analyse(cfgs, only="", tag="w", budget=None, secs=None, hash=True, cover=False, flags="", total=None, features=None, since=None, crowd=False):
    """`features`: those of the witness crate, None for all.  `since`: where the outcome under another
    configuration will be (see `base`); only what reaches code that differs from it is analysed.
    `crowd`: the obligations over hundreds of hashed keys instead."""
    if crowd:
        cfgs, only, tag = list(cfgs) + ["crowd"], "crowd", tag + "c"
    exe = driver()
    os.makedirs(TARGET, exist_ok=True)
    outf = os.path.join(TARGET, "out.%s.%d.jsonl" % (tag, os.getpid()))
    env = {
        "LD_LIBRARY_PATH": sysroot() + "/lib",
        "RUSTC_WORKSPACE_WRAPPER": exe,
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
        "FMLINT_CFG": ",".join(cfgs),
        "FMLINT_ONLY": only,
        "FMLINT_OUT": outf,
        "CARGO_INCREMENTAL": "0",
        "FMLINT_JOBS": str(min(8, os.cpu_count() or 1)),
        "FM_NONCE": "%d.%d" % (os.getpid(), time.time_ns()),
    }
    if cover:
        env["FMLINT_COVER"] = "1"
    if crowd:
        env["FM_CROWD"] = "1"
    if flags:
        env["RUSTFLAGS"] += " " + flags
    if budget:
        env["FMLINT_BUDGET"] = str(budget)
    if secs:
        env["FMLINT_SECS"] = str(secs)
    if total:
        env["FMLINT_TOTAL"] = str(total)
    cmd = ["cargo", "+nightly", "check", "--offline", "--message-format=json", "--target-dir", TARGET + "/" + tag]
    if not hash:
        features = [f for f in (["std", "ser"] if features is None else features) if f != "hash"]
    if features is not None:
        cmd += ["--no-default-features", "--features", ",".join(features)]
    if since:
        env["FMLINT_SINCE"] = since
    o = Outcome()
    o.hash = hash
    rc, out, err = sh(cmd, cwd=V + "/witness", env=env, timeout=8000 if total else 800)
    if rc:
        es = errors(out)
        mine = [e for e in es if "witness" in e[0]]
        other = [e for e in es if "witness" not in e[0]]
        if other or not mine:
            ok, why = repo_compiles()
            if not ok:
                raise Fatal("/repo does not compile:\n" + why[-4000:])
            if crowd:
                o.notes.append("the hash table model does not offer what /repo uses; crowds of hashed keys were left out")
                return o
            if hash:
                # It compiles against the real hash table, only not against the model.
                o = analyse(cfgs, only, tag + "n", budget, secs, hash=False, cover=cover, flags=flags, total=total, features=features, since=since)
                o.notes.append("the hash table model does not offer what /repo uses; hashed keys were left out")
                return o
            raise Fatal("the witness crate does not build:\n" + "\n".join(e[1] for e in other)[-4000:] + err[-2000:])
        ok, why = repo_compiles()
        if not ok:
            raise Fatal("/repo does not compile:\n" + why[-4000:])
        for e in mine:
            o.broken.append(("the public interface the property is stated over no longer type-checks", e[1]))
        return o
    seen = {}
    if not os.path.exists(outf):
        return o
    with open(outf) as f:
        for line in f:
            r = json.loads(line)
            if "ob" in r:
                o.obs.append(r)
            elif "prints" in r:
                o.prints = r["prints"]
            elif "since" in r:
                o.since = r["since"]
            elif "visited" in r:
                for k, bbs in r["visited"]:
                    seen.setdefault(k, set()).update(bbs)
            else:
                o.fns.append(r)
    o.obs.sort(key=lambda r: r["ob"])
    for r in o.fns:
        r["visited"] = seen.get(r["id"], set())
    os.remove(outf)
    return o


def base(path, o):
    """Tell the analyses waiting for `path` what this one found (nothing: they need not go on)."""
    with open(path + ".new", "w") as f:
        for k, v in o.prints.items() if o else ():
            f.write("P\t%s\t%s\n" % (k, v))
        for r in o.obs if o else ():
            f.write("O\t%s\t%s\n" % (r["ob"], "\x1f".join(r["reach"])))
    os.rename(path + ".new", path)
