"""What each property's check consists of."""
import itertools, os, re
from concurrent.futures import ThreadPoolExecutor
from engine import V, Fatal, analyse, base, sh
import wit, witgen


# Properties with obligations over hundreds of hashed keys.
CROWD = set("p_" + m for m in "c01 c02 c03 c04 c05 c06 c08 c09 c10 c11 c13 c14 c16 c17 c18 c20 all".split())


class Ctx:
    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.violations, self.notes, self.assumptions = [], [], []
        self.ob = self.ok = self.und = 0
        self.samples, self.und_list = [], []
        self.fns, self.rules = set(), {}
        self.extra = {}
        self.steps = self.checks = 0
        self.what = []

    # -- the interprocedural analysis ---------------------------------------
    def engine(self, cfgs, floor, only="", kinds=("rule", "ub", "panic"), tag="w", secs=None, cover=False, flags="", typed=True):
        """Every obligation of the witness modules `cfgs`; a finding of one of `kinds` is a violation.
        `typed`: so is an interface which no longer type-checks."""
        if self.thorough:
            cfgs = list(cfgs) + ["thorough"]
        kw = dict(budget=200_000_000 if self.thorough else None, cover=cover)
        since = os.path.join(V, "target", "since.%d" % os.getpid())
        if os.path.exists(since):
            os.remove(since)
        others = self.others(flags) if kinds else []
        with ThreadPoolExecutor(4) as ex:
            # The other configurations are compiled meanwhile, and then wait for what this one found.
            vs = [ex.submit(analyse, cfgs, only, "%sv%d" % (tag, i % 3), secs=600 if self.thorough else 30, flags=g, total=3000 if self.thorough else 100,
                            features=fs, since=since, **kw) for i, (name, g, fs) in enumerate(others)]
            many = ex.submit(analyse, cfgs, tag=tag, secs=120, flags=flags, crowd=True) if kinds and not only and CROWD.intersection(cfgs) else None
            o = None
            try:
                o = analyse(cfgs, only, tag, secs=secs or (600 if self.thorough else 60), flags=flags, total=6000 if self.thorough else None, **kw)
            finally:
                base(since, o if o and o.obs else None)
        os.remove(since)
        self.notes += o.notes
        for label, text in o.broken if not typed else []:
            self.rule("type check of " + " ".join(cfgs), None, text)
        for label, text in o.broken if typed else []:
            self.violations.append({"id": "type error: " + text.strip().split("\n")[0], "text": label + "\n" + text})
        if o.broken:
            return o
        floor = floor if o.hash else floor // 2
        if len(o.obs) < floor:
            raise Fatal("only %d obligations were found, %d expected" % (len(o.obs), floor))
        self.take(o, kinds)
        if many:
            try:
                m = many.result()
            except Fatal as e:
                self.rule("crowds of hashed keys", None, str(e))
            else:
                self.notes += [n for n in m.notes if n not in self.notes]
                if m.broken:
                    self.rule("crowds of hashed keys", None, m.broken[0][1])
                elif o.hash and not m.notes and not m.obs:
                    raise Fatal("no obligation over crowds of hashed keys was found")
                self.extra["crowd_obligations"] = len(m.obs)
                self.take(m, kinds)
        for (name, g, fs), v in zip(others, vs):
            try:
                v = v.result()
            except Fatal as e:
                self.rule("configuration: " + name, None, str(e))
                continue
            if v.broken or not v.since:
                self.rule("configuration: " + name, None, v.broken[0][1] if v.broken else "")
                continue
            self.extra.setdefault("other_configurations", []).append(dict(v.since, name=name))
            self.take(v, kinds, " [%s]" % name)
        if "engine" not in self.extra:
            self.extra["engine"] = True
            self.assumptions += [
                "the abstract interpreter's transfer functions agree with rustc's MIR semantics",
                "key types are those of the witness corpus (see corpus in DESIGN.md); values are distinguishable labels",
                "hashbrown behaves as the bounded model in models/hashbrown",
                "the fixed_map crate is compiled for the host target",
            ]
        return o

    def take(self, o, kinds, where=""):
        for r in o.obs:
            self.steps += r["steps"]
            if not kinds:
                continue
            if r["ob"].startswith("rep::"):
                # Not a property of its own: how far the arbitrary containers stand for every history.
                c = self.extra.setdefault("histories", {"closed": 0, "open": []})
                if r["findings"] or r["undecided"]:
                    c["open"].append("%s%s" % (r["ob"], where))
                else:
                    c["closed"] += 1
                continue
            self.ob += 1
            self.checks += r["checks"]
            self.fns.update(r["fns"])
            for k, n in r["labels"].items():
                self.rules[k] = self.rules.get(k, 0) + n
            fs = [f for f in r["findings"] if f["kind"] in kinds]
            for f in fs:
                self.violations.append({"id": "%s%s: %s" % (r["ob"], where, f["label"]), "text": f["msg"]})
            if fs:
                continue
            if r["undecided"]:
                self.und += 1
                self.und_list.append("%s%s: %s" % (r["ob"], where, r["undecided"][0].split("\n")[0][:200]))
            elif r["findings"]:
                self.und += 1
                self.und_list.append("%s%s: stopped by a finding of another property" % (r["ob"], where))
            else:
                self.ok += 1
                if len(self.samples) < 6 and self.ok % 37 == 1:
                    self.samples.append("%s: %d abstract steps, %d rule sites, functions: %s" % (
                        r["ob"], r["steps"], r["checks"], "; ".join(r["fns"][:6])))

    def others(self, flags):
        """The other build configurations: (name, flags, features of the witness crate)."""
        if "debug-assertions" in flags:
            debug = re.sub("debug-assertions=(on|off)", lambda m: "debug-assertions=" + {"on": "off", "off": "on"}[m[1]], flags)
        else:
            debug = "-Cdebug-assertions=off -Coverflow-checks=on"
        if not self.thorough:
            return [("debug assertions the other way, without std", debug, ["hash", "ser"]), ("no features", flags, [])]
        return [("features {%s}, debug assertions %s" % (" ".join(fs), d), g, list(fs))
                for d, g in (("as before", flags), ("the other way", debug))
                for n in range(4) for fs in itertools.combinations(("hash", "std", "ser"), n) if n < 3 or g is debug]

    # -- plain obligations -----------------------------------------------------
    def rule(self, ident, ok, text=""):
        """One obligation of a source or type-level rule; ok None: undecided."""
        self.ob += 1
        if ok is None:
            self.und += 1
            self.und_list.append(ident + ": " + text.split("\n")[0][:200])
        elif ok:
            self.ok += 1
            if len(self.samples) < 12:
                self.samples.append(ident)
        else:
            self.violations.append({"id": ident, "text": text or ident})

    def close(self):
        pass

    def coverage(self):
        c = {
            "explanation": " ".join(self.what) or "interprocedural abstract interpretation of the compiled MIR of /repo, per key type",
            "obligations": self.ob,
            "discharged": self.ok,
            "undecided": self.und,
            "undecided_list": self.und_list[:40],
            "samples": self.samples,
        }
        if "engine" in self.extra:
            c.update({
                "abstract_steps": self.steps,
                "rule_sites_evaluated": self.checks,
                "rules": self.rules,
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:400],
            })
        for k, v in self.extra.items():
            if k != "engine":
                c[k] = v
        return c


def eng(mod, floor):
    def f(c):
        c.engine(["p_" + mod], floor)
    return f


# -- C21 -----------------------------------------------------------------------
def c21(c):
    """No obligation of any property meets undefined behaviour, with the checks of
    debug builds off; every unsafe operation there is was met on the way."""
    off = "-Cdebug-assertions=off -Coverflow-checks=off"
    a = c.engine(["p_all"], 6300, kinds=("ub",), tag="ub", cover=True, flags=off, typed=False)
    b = c.engine(["p_c21"], 36, kinds=("ub", "rule"), tag="ub", cover=True, flags=off, typed=False)
    seen = {}
    for r in a.fns + b.fns:
        for bb, loc, what in r["unsafe"]:
            k = "%s in %s [%s]" % (what, r["fn"], loc)
            seen[k] = seen.get(k, False) or bb in r["visited"]
    for k, v in sorted(seen.items()):
        c.rule("unsafe operation: " + k, True if v else None, "" if v else "no obligation reaches it")
    c.extra["unsafe_operations"] = len(seen)
    held = {}
    for r in a.fns + b.fns:
        if r.get("guard"):
            held[r["fn"]] = r
    for k, r in sorted(held.items()):
        g = r["guard"]
        c.rule("safe code does not get at the option an unchecked bucket is sure of: %s [%s]" % (k, r["loc"]), not g[0],
               "%s (%s) -> %s lets safe code change what unsafe code relies on" % (k, ", ".join(g[2:]), g[1]))
    c.extra["functions_on_unchecked_buckets"] = len(held)
    wit.run(c, wit.programs("c21"))


# -- C22 -----------------------------------------------------------------------
def c22(c):
    """No obligation of any property meets a panic, with every check of debug builds on."""
    a = c.engine(["p_all"], 6300, kinds=("panic",), tag="pn", cover=True, flags="-Cdebug-assertions=on -Coverflow-checks=on", typed=False)
    sites = {}
    for r in a.fns:
        for bb, loc, what in r["panics"]:
            k = "%s in %s [%s]" % (what, r["fn"], loc)
            sites[k] = sites.get(k, False) or bb in r["visited"]
    c.extra["panicking_terminators"] = ["%s: %s" % (k, "reached" if v else "not reached by any obligation") for k, v in sorted(sites.items())]
    c.extra["functions_with_mir"] = len(a.fns)
    c.extra["functions_reached"] = sum(1 for r in a.fns if r["visited"])


# -- C23 -----------------------------------------------------------------------
HASHED = {"Num", "OptNum", "Hash1", "Hash2", "HashIn", "SoloHash"}


def c23(c):
    feats = [[f for j, f in enumerate(("hashbrown", "std", "serde")) if i >> j & 1] for i in range(8)]
    names = {(): "core", ("std",): "std", ("serde",): "serde", ("hashbrown", "std", "serde"): "full"}

    def one(fs):
        n = names.get(tuple(fs), "f." + ".".join(fs))
        return fs, wit.Lib(n, ["--no-default-features"] + (["--features", ",".join(fs)] if fs else []))

    with ThreadPoolExecutor(4) as ex:
        libs = list(ex.map(one, feats))
    if not any(l.ok for _, l in libs):
        raise Fatal("/repo does not compile: " + libs[0][1].errors[-2000:])
    for fs, l in libs:
        name = "features {%s}" % ", ".join(fs)
        c.rule("the crate compiles with " + name, l.ok, l.errors)
        if not l.ok or "hashbrown" in fs or "std" in fs:
            continue
        rc, out, err = sh(["rustc", "-Zls=root", l.rmeta], env={"RUSTC_BOOTSTRAP": "1"})
        deps = re.findall(r"^\d+ (\S+)-[0-9a-f]+ hash \S+ host_hash \S+ kind (\S+)", out, re.M)
        if rc or not deps:
            c.rule("crates linked with " + name, None, err)
            continue
        linked = sorted(d for d, k in deps if k != "MacrosOnly")
        bad = [d for d in linked if d not in ("core", "compiler_builtins", "fixed_map_derive") and not ("serde" in fs and d.startswith("serde"))]
        c.rule("links only core with %s: %s" % (name, " ".join(linked)), not bad, "with %s the crate links %s" % (name, ", ".join(bad)))
    if all(l.ok for _, l in libs):
        wit.run(c, witgen.c23())
    # Nothing a container over fixed keys does leaves core, whatever the features.
    o = c.engine(["p_all"], 6300, kinds=(), tag="w", cover=True, typed=False)
    fns = {}
    for r in o.fns:
        fns[r["id"]] = r
    used = {}
    for r in o.obs:
        if not any(x in HASHED for x in r["ob"].split("::")):
            for f in r["ids"]:
                used.setdefault(f, r["ob"])
    n = 0
    for f, ob in sorted(used.items()):
        r = fns.get(f)
        if r is None:
            continue
        n += 1
        f = "%s [%s]" % (r["fn"], r["loc"])
        bad = [e for e in r["ext"] if not e.startswith("serde")]
        c.rule("calls only core: " + f, not bad, "%s is used for keys without hashing (by %s) and calls\n%s" % (f, ob, "\n".join(bad)))
    c.extra["functions_of_fixed_keys"] = n
    if not o.broken and n < 300:
        raise Fatal("only %d functions of containers over fixed keys were found" % n)


def programs(folder):
    def f(c):
        wit.run(c, (wit.programs(folder) if folder != "c27" else []) + (witgen.ALL[folder]() if folder in witgen.ALL else []))
    return f


PROPS = {
    "C01": eng("c01", 170),
    "C02": eng("c02", 170),
    "C03": eng("c03", 550),
    "C04": eng("c04", 1300),
    "C05": eng("c05", 195),
    "C06": eng("c06", 270),
    "C07": eng("c07", 500),
    "C08": eng("c08", 105),
    "C09": eng("c09", 110),
    "C10": eng("c10", 560),
    "C11": eng("c11", 125),
    "C12": eng("c12", 55),
    "C13": eng("c13", 220),
    "C14": eng("c14", 380),
    "C15": eng("c15", 90),
    "C16": eng("c16", 400),
    "C17": eng("c17", 240),
    "C18": eng("c18", 225),
    "C19": eng("c19", 100),
    "C20": eng("c20", 950),
    "C21": c21,
    "C22": c22,
    "C23": c23,
    "C24": programs("c24"),
    "C25": programs("c25"),
    "C26": programs("c26"),
    "C27": programs("c27"),
    "C28": programs("c28"),
    "C29": eng("c29", 830),
    "C30": eng("c30", 120),
}
# property -> (technique, level note) where it is not the abstract interpretation alone
_P = ("Decided by the type checker and borrow checker of rustc over programs made from /repo's current source: each must be accepted, or rejected at exactly the "
      "marked lines and accepted without them. Nothing is run. ")
META = {
    "C21": ("interprocedural abstract interpretation of rustc MIR (custom driver) with a coverage rule over unsafe operations; compile-fail witnesses for encapsulation",
            "Every client of every other property is searched for undefined behaviour with the checks of debug builds off; every unsafe operation of the crate must have been "
            "reached by one. Trusts the analyser's transfer functions, rustc, and (hashed keys only) a bounded model of hashbrown."),
    "C22": ("interprocedural abstract interpretation of rustc MIR (custom driver), overflow and bounds checks included",
            "Every client of every other property is searched for reachable panics with every check of debug builds on, for a corpus of key shapes up to the width limits. "
            "Trusts the analyser's transfer functions, rustc, and (hashed keys only) a bounded model of hashbrown."),
    "C23": ("crate-graph and call-graph rules over compiled metadata and MIR; type-level witnesses (Copy, needs_drop, no_std)",
            "All eight feature sets are type-checked; what the crate links is read from its metadata; every function reached for a fixed key shape may call core only. " + _P),
    "C24": ("compile-fail witnesses: programs deriving Key on unsupported items, judged by rustc diagnostics", _P),
    "C25": ("type-level witnesses: programs deriving Key in hostile scopes must compile", _P + "Same behaviour follows from what the names in generated code resolve to: shadowed names are given other types, so that capturing one does not type-check."),
    "C26": ("layout assertions evaluated by the compiler (const size_of/align_of over generated storages)", _P + "The layouts are those rustc computes for the host target."),
    "C27": ("auto-trait and borrow-check witnesses: programs which must and which must not compile", _P + "Send and Sync are proved for every value type at once; the negative side and the borrow rules are per key type of a corpus."),
    "C29": ("non-interference rule over interprocedural abstract interpretation of rustc MIR (custom driver): decisions which other entries can change",
            "Every branch taken below one operation on one key is asked whether, with that key's own state fixed, other entries can decide it; more than two such decisions on one path "
            "are a search. Counts decisions, not machine steps. Trusts the analyser's transfer functions and rustc."),
    "C28": ("trait-availability witnesses: generic programs over every key type and nesting must compile", _P + "Traits are proved for every value type at once, per key type of a corpus."),
}
