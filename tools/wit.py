"""Witness programs: small programs the compiler must accept, or must reject at
the marked lines.  Nothing is ever run."""
import json, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from engine import V, REPO, TARGET, Fatal, sh, errors, messages

FEATS = {"full": ["--features", "hashbrown,std,serde"], "core": ["--no-default-features"], "serde": ["--no-default-features", "--features", "serde"],
         "std": ["--no-default-features", "--features", "std"], "hash": ["--no-default-features", "--features", "hashbrown"],
         "hashserde": ["--no-default-features", "--features", "hashbrown,serde"], "hashstd": ["--no-default-features", "--features", "hashbrown,std"],
         "stdserde": ["--no-default-features", "--features", "std,serde"]}
# (feature set, are keys hashed, is there serde)
ALL_FEATS = [("full", True, True), ("core", False, False), ("serde", False, True), ("std", False, False), ("hash", True, False), ("hashserde", True, True), ("hashstd", True, False), ("stdserde", False, True)]


class Lib:
    """The crate compiled with one set of features, ready to be linked against."""

    def __init__(self, name="full", feats=None):
        feats = FEATS[name] if feats is None else feats
        d = TARGET + "/lib." + name
        cmd = ["cargo", "check", "--offline", "--message-format=json", "--lib", "--target-dir", d] + feats
        rc, out, err = sh(cmd, cwd=REPO)
        self.ok = rc == 0
        self.errors = "\n".join(e[1] for e in errors(out)) or err[-2000:]
        self.rmeta = None
        self.deps = set()
        self.artifacts = []
        for m in messages(out):
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rmeta") or f.endswith(".so"):
                        self.deps.add(os.path.dirname(f))
                        self.artifacts.append((m["target"]["name"], f))
                    if f.endswith(".rmeta") and m["target"]["name"].replace("-", "_") == "fixed_map":
                        self.rmeta = f
        if self.ok and not self.rmeta:
            raise Fatal("no metadata was produced for fixed-map")
        self.serde = [f for n, f in self.artifacts if n == "serde" and f.endswith(".rmeta")]


class Prog:
    def __init__(self, name, text, lib="full"):
        self.name, self.text, self.lib = name, text, lib
        self.edition = "2021"
        self.hidden = False  # about the crate's undocumented parts: they may go
        self.lines = text.split("\n")
        self.marks = {}
        for i, l in enumerate(self.lines, 1):
            m = re.search(r"//~ (\S+)(.*)$", l)
            if m:
                self.marks[i] = m.group(1).split("|")
            m = re.match(r"\s*//@ (\w+): (\S+)", l)
            if m and m.group(1) == "edition":
                self.edition = m.group(2)
            if m and m.group(1) == "lib":
                self.lib = m.group(2)
            if m and m.group(1) == "hidden":
                self.hidden = True

    def twin(self, but=0):
        """The same program without the lines that must not compile (`but` one)."""
        return "\n".join("" if i in self.marks and i != but else l for i, l in enumerate(self.lines, 1))


def compile(lib, name, text, edition, tag):
    d = TARGET + "/wit"
    os.makedirs(d, exist_ok=True)
    src = "%s/%s.%d.rs" % (d, re.sub(r"\W", "_", name) + tag, os.getpid())
    with open(src, "w") as f:
        f.write(text)
    cmd = ["rustc", "--edition", edition, "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", src, "-o", src[:-3] + ".rmeta",
           "--error-format=json", "--extern", "fixed_map=" + lib.rmeta, "-Awarnings" if "deny(warnings)" not in text else "-Wwarnings"]
    if edition != "2015":
        pass
    for s in lib.serde[:1]:
        cmd += ["--extern", "serde=" + s]
    for p in sorted(lib.deps):
        cmd += ["-L", "dependency=" + p]
    rc, out, err = sh(cmd, timeout=300)
    for p in (src, src[:-3] + ".rmeta"):
        if os.path.exists(p):
            os.remove(p)
    es = []
    ice = rc != 0 and ("internal compiler error" in err)
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and not m["message"].startswith("aborting due to"):
                lines = set()
                for s in m["spans"]:
                    if not s["is_primary"]:
                        continue
                    s0 = s
                    while s0 is not None:
                        if s0["file_name"].endswith(os.path.basename(src)):
                            lines.update(range(s0["line_start"], s0["line_end"] + 1))
                        s0 = (s0.get("expansion") or {}).get("span")
                es.append({"code": (m.get("code") or {}).get("code") or "", "message": m["message"], "lines": lines, "rendered": (m.get("rendered") or m["message"]).replace(src, name),
                           "spans": m["spans"]})
    return rc, es, ice, err


def verdict(es, line, codes, alone=False):
    """Whether `line` is rejected as it has to be, given the errors of a program."""
    here = [e for e in es if line in e["lines"]]
    good = [e for e in here if "*" in codes or e["code"] in codes or any(c.startswith("=") and c[1:].replace("_", " ") in e["message"] for c in codes)]
    if good:
        return True, ""
    if any(e["message"].startswith("proc-macro") or "panicked" in e["message"] for e in es):
        return False, "the derive crashes:\n" + es[0]["rendered"]
    if here:
        return None, "rejected, for another reason: " + here[0]["rendered"]
    if es and alone:
        return False, "this is rejected, but the error points elsewhere: " + es[0]["rendered"]
    if es:
        return None, "other errors hide whether it is rejected: " + es[0]["rendered"]
    return False, "this line must be rejected (%s), but it is accepted" % "|".join(codes)


def judge(libs, p):
    """[(obligation, ok or None, text)] of one witness program."""
    lib = libs[p.lib]
    rc, es, ice, err = compile(lib, p.name, p.text, p.edition, "")
    if not p.marks:
        if rc == 0:
            return [(p.name, True, "")]
        if not es or ice:
            return [(p.name, None, err[-500:])]
        return [(p.name, False, "this program must compile, but:\n" + "\n".join(e["rendered"] for e in es[:4]))]
    r = []
    alone = 0
    for line, codes in sorted(p.marks.items()):
        ident = "%s line %d: %s" % (p.name, line, p.lines[line - 1].split("//~")[0].strip())
        pointing = p.name.startswith("c24/")  # where the error is, is part of the property
        ok, text = verdict(es, line, codes, pointing and len(p.marks) == 1)
        if ok is not True and len(p.marks) > 1 and alone < 12:
            # Errors of an earlier pass hide those of a later one: on its own.
            alone += 1
            rc1, es1, ice1, err1 = compile(lib, p.name, p.twin(line), p.edition, "_%d" % line)
            ok, text = verdict(es1, line, codes, pointing)
        r.append((ident, ok, text))
    rc, es2, ice, err = compile(lib, p.name, p.twin(), p.edition, "_twin")
    if rc != 0:
        # The lines that must compile do not: the rejections above mean nothing.
        if any(x[1] for x in r):
            r = [(a, None if b else b, c or "the rest of the program does not compile: " + (es2[0]["rendered"] if es2 else err[-300:])) for a, b, c in r]
        r.append((p.name + " (without the marked lines)", False if es2 and not p.hidden else None, "this program must compile, but:\n" + "\n".join(e["rendered"] for e in es2[:4])))
    else:
        r.append((p.name + " (without the marked lines)", True, ""))
    return r


def programs(folder):
    r = []
    d = V + "/wit/" + folder
    for f in sorted(os.listdir(d) if os.path.isdir(d) else []):
        if f.endswith(".rs"):
            with open(d + "/" + f) as h:
                r.append(Prog(folder + "/" + f, h.read()))
    return r


def run(ctx, progs):
    """Judge every program; every judgement becomes an obligation of ctx."""
    libs = {}
    for n in sorted(set(p.lib for p in progs)):
        libs[n] = Lib(n)
        if not libs[n].ok and n != "full":
            # C23 answers for that.
            ctx.rule("programs with the features of `%s`" % n, None, libs[n].errors)
            progs = [p for p in progs if p.lib != n]
        elif not libs[n].ok:
            raise Fatal("/repo does not compile (%s):\n%s" % (n, libs[n].errors[-3000:]))
    with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        for res in ex.map(lambda p: judge(libs, p), progs):
            for ident, ok, text in res:
                ctx.rule(ident, ok, text)
    return libs
