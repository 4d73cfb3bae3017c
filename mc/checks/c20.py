"""C20: configuration values - the file wins, defaults fill in, types are kept.

Two enumerations on the real Utilities.config: every value of a lattice of spellings,
at every kind of place in the file, read through every typed look-up; and every
sequence of operations (read a file, reset, typed look-ups, set) up to a depth, after
which the complete configuration is compared with a reference model."""
import ast
import itertools
import os

from .. import common

VALUES = ["1", "0", "-3", "10", "007", "0.5", "-2.5e-1", "1e3", "True", "False", "true", "no", "yes", "On", "off",
          "holland", "/data/in put/x.nc", "a,b,c", "2,5,10", "{'x':1.0,'y':0.5}", "{'xMin': 113.0, 'xMax': 119.0}",
          "['a','b']", "%Y-%m-%d %H:%M:%S", "100%", "a=b", "http://host:80/p;x", "'quoted'", "A", "None", "mixed Case",
          "n/a", '"in quotes"', "a ; b", "a # b", "1_000", "0x10", "x\\y", "a: b", ""]
BOOL = {"1": True, "yes": True, "true": True, "on": True, "0": False, "no": False, "false": False, "off": False}
MISSING = "<no value>"
ERR = "<error>"


def convert(kind, v):
    """The value `v` (text) as a kind, or ERR."""
    if kind == "str":
        return v
    try:
        if kind == "int":
            return int(v)
        if kind == "float":
            return float(v)
        if kind == "bool":
            return BOOL[v.lower()]
        if kind == "eval":
            return ast.literal_eval(v)
    except (ValueError, KeyError, SyntaxError):
        return ERR
    if kind == "auto":
        try:
            return ast.literal_eval(v)
        except (ValueError, SyntaxError):
            return v
    raise ValueError(kind)


# an old-style look-up takes its type from the default
DEFAULT = {"auto": None, "str": "dflt", "bool": True, "int": 77, "float": 7.5, "dict": {"d": 1}, "list": ["d", 2],
           "no": False, "zero": 0, "zerofloat": 0., "empty": ""}
KIND = {"auto": "auto", "str": "str", "bool": "bool", "int": "int", "float": "float", "dict": "eval", "list": "eval",
        "no": "bool", "zero": "int", "zerofloat": "float", "empty": "str"}


def attempt(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as e:
        return ERR if type(e).__name__ not in ("NoSectionError", "NoOptionError") else MISSING
    return r


def same(a, b):
    return type(a) is type(b) and a == b


def lookups(config, cfgfile, sec, opt):
    """Everything one can ask about an option."""
    c = config.ConfigParser()
    for o in (opt, opt.lower(), opt.upper()):
        yield ("get", o), "str", MISSING, attempt(c.get, sec, o)
    yield ("getint",), "int", MISSING, attempt(c.getint, sec, opt)
    yield ("getfloat",), "float", MISSING, attempt(c.getfloat, sec, opt)
    yield ("getboolean",), "bool", MISSING, attempt(c.getboolean, sec, opt)
    yield ("geteval",), "eval", MISSING, attempt(c.geteval, sec, opt)
    yield ("get fallback",), "str", "fb", attempt(c.get, sec, opt, fallback="fb")
    yield ("getint fallback",), "int", 5, attempt(c.getint, sec, opt, fallback=5)
    yield ("getfloat fallback",), "float", 5.5, attempt(c.getfloat, sec, opt, fallback=5.5)
    yield ("getboolean fallback",), "bool", True, attempt(c.getboolean, sec, opt, fallback=True)
    for k, d in DEFAULT.items():
        yield ("cnfGetIniValue", k), KIND[k], d, attempt(config.cnfGetIniValue, cfgfile, sec, opt, d)


def compare(config, cfgfile, model, places):
    """model: {(section, option lower): text}"""
    n = 0
    c = config.ConfigParser()
    secs = {s for s, _ in model}
    for sec, opt in places:
        v = model.get((sec, opt.lower()))
        for what, kind, absent, got in lookups(config, cfgfile, sec, opt):
            want = absent if v is None else convert(kind, v)
            if kind == "eval" and v is not None and want is ERR and what[0] == "geteval":
                continue                     # what a value that is no literal evaluates to is not claimed
            if what[-1] == "list" and v is not None and not isinstance(want, list):
                continue
            n += 1
            if not same(got, want):
                return n, "%s of [%s] %s gives %r instead of %r" % (" ".join(what), sec, opt, got, want)
        n += 1
        if attempt(c.has_option, sec, opt) is not (v is not None):
            return n, "has_option([%s] %s) is wrong" % (sec, opt)
    for sec in secs:
        n += 1
        if not c.has_section(sec):
            return n, "section [%s] is missing" % sec
        names = {o for s, o in model if s == sec}
        items = attempt(c.items, sec)        # fails for values that are not of the option's type
        if items is not ERR and {k for k, _ in items} != names or set(c.options(sec)) != names:
            return n, "section [%s] lists options %s instead of %s" % (sec, sorted(c.options(sec)), sorted(names))
    if set(c.sections()) != secs:
        return n, "sections are %s instead of %s" % (sorted(c.sections()), sorted(secs))
    return n, None


def builtin(config):
    """The built-in defaults, read from the text with a small independent reader."""
    out = {}
    sec = None
    for line in config.DEFAULTS.splitlines():
        line = line.strip()
        if line.startswith("["):
            sec = line[1:-1]
        elif line and line[0] not in "#;":
            k, v = line.split("=", 1)
            out[(sec, k.strip().lower())] = v.strip()
    return out


def write(path, content, style=0):
    """content: {section: [(option, text)]}"""
    sep = ("=", " = ", ": ", "=")[style]
    with open(path, "w") as fh:
        for sec, opts in content.items():
            if style == 1:
                fh.write("# a comment\n; another\n\n")
            fh.write("[%s]\n" % sec)
            for o, v in opts:
                fh.write("%s%s%s\n" % (o.upper() if style == 3 else o, sep, v))
            fh.write("\n" if style else "")
    return path


# -- one option --------------------------------------------------------------
PLACES = [("Hazard", "MinimumRecords"), ("Logging", "LogLevel"), ("Region", "gridSpace"), ("TrackGenerator", "NewOption"),
          ("NewSection", "Option"), ("Actions", "DataProcess")]


def value_job(j):
    d, cases = j
    from Utilities import config
    n = 0
    seen = set()
    base = builtin(config)
    for place, val, style in cases:
        f = write(os.path.join(d, "v%d.ini" % os.getpid()), {place[0]: [(place[1], val)]}, style)
        config.reset()
        config.ConfigParser().read(f)
        model = dict(base)
        model[(place[0], place[1].lower())] = val
        k, text = compare(config, f, model, PLACES)
        n += k
        seen.add((place, val))
        if text:
            return n, seen, (text, {"place": place, "value": val, "style": style})
    return n, seen, None


# -- sequences ---------------------------------------------------------------
FILES = {
    "A": {"Region": [("gridLimit", "{'xMin':110.0,'xMax':120.0}"), ("gridSpace", "{'x':2.0,'y':2.0}")],
          "Hazard": [("MinimumRecords", "7")], "Own": [("Option", "3")]},
    "B": {"Hazard": [("MinimumRecords", "9"), ("Years", "1,2")], "Own": [("Other", "x y")],
          "Logging": [("Verbose", "True")]},
    "E": {},
}
ASK = [("Region", "gridSpace"), ("Region", "gridLimit"), ("Hazard", "MinimumRecords"), ("Hazard", "Years"),
       ("Own", "Option"), ("Own", "Other"), ("Logging", "Verbose"), ("TrackGenerator", "Fresh")]
OPS = ["read A", "read B", "read E", "read None", "read missing", "reset", "get", "cnf A", "cnf B", "set Hazard", "set Fresh"]


class Model:
    def __init__(self, base):
        self.base = base
        self.reset()

    def reset(self):
        self.m = dict(self.base)
        self.loaded = None

    def read(self, f):
        if self.loaded is None:
            for s, opts in FILES[f].items():
                for o, v in opts:
                    self.m[(s, o.lower())] = v
            self.loaded = f


def step(config, model, op, paths):
    """Do op on both.  A text if its own result is wrong."""
    c = config.ConfigParser()
    w, _, arg = op.partition(" ")
    if w == "reset":
        config.reset()
        model.reset()
    elif op == "read None":
        c.read(None)
    elif op == "read missing":
        loaded = model.loaded
        try:
            c.read(paths["missing"])
        except Exception:
            return None
        if loaded is None:
            return "reading a file that does not exist is not reported"
    elif w == "read":
        c.read(paths[arg])
        model.read(arg)
    elif w == "get":
        for s, o in ASK:
            attempt(c.get, s, o, fallback="q")
            attempt(c.getboolean, s, o)
            attempt(c.geteval, s, o)
    elif w == "cnf":
        got = [config.cnfGetIniValue(paths[arg], s, o, "dflt") for s, o in ASK]
        model.read(arg)
        want = [model.m.get((s, o.lower()), "dflt") for s, o in ASK]
        if got != want:
            return "cnfGetIniValue gives %s instead of %s" % (got, want)
    elif op == "set Hazard":
        c.set("Hazard", "MinimumRecords", "55")
        model.m[("Hazard", "minimumrecords")] = "55"
    elif op == "set Fresh":
        c.set("TrackGenerator", "Fresh", "66")
        model.m[("TrackGenerator", "fresh")] = "66"
    return None


def run_seq(config, seq, paths, base):
    model = Model(base)
    config.reset()
    for i, op in enumerate(seq):
        text = step(config, model, op, paths)
        if text:
            return 0, "after %s, %s: %s" % (list(seq[:i]), op, text), None
    # look-ups through the old interface read their file too: ask with the one that counts
    cur = paths[model.loaded] if model.loaded else None
    n, text = compare(config, cur, model.m, ASK)
    key = (model.loaded, tuple(sorted(set(model.m.items()) - set(base.items()))))
    return n, ("after %s: %s" % (list(seq), text) if text else None), key


def seq_job(j):
    paths, first, depth = j
    from Utilities import config
    base = builtin(config)
    st = dict(n=0, seqs=0, states=set(), bad=None)
    for seq in itertools.product(OPS, repeat=depth - len(first)):
        s = first + seq
        n, text, key = run_seq(config, s, paths, base)
        st["n"] += n
        st["seqs"] += 1
        st["states"].add(key)
        if text:
            st["bad"] = (text, {"sequence": s})
            break
    return st


def main(ctx):
    from Utilities import config
    d = ctx.mkdir("c")
    paths = {k: write(os.path.join(d, k + ".ini"), v) for k, v in FILES.items()}
    paths["missing"] = os.path.join(d, "missing.ini")
    base = builtin(config)
    if ctx.replay:
        r = ctx.replay
        if "sequence" in r:
            text = run_seq(config, tuple(r["sequence"]), paths, base)[1]
        else:
            bad = value_job((d, [(tuple(r["place"]), r["value"], r["style"])]))[2]
            text = bad and bad[0]
        if text:
            ctx.violation(text, r)
        return
    cases = [(p, v, s) for p in PLACES for v in VALUES for s in range(4)]
    lookups_done = 0
    values = set()
    for n, seen, bad in common.pmap(value_job, [(d, c) for c in common.chunks(cases, 16)]):
        lookups_done += n
        values |= seen
        if bad:
            ctx.violation("%s=%s: %s" % (".".join(bad[1]["place"]), bad[1]["value"], bad[0]), bad[1])
    depth = ctx.pick(4, 5)
    jobs = [(paths, f, depth) for f in itertools.product(OPS, repeat=2)] + \
           [(paths, (), k) for k in range(1, 3)]
    states = set()
    seqs = 0
    for r in common.pmap(seq_job, jobs, stop=lambda r: bool(r["bad"])):
        if r is None:
            continue
        lookups_done += r["n"]
        seqs += r["seqs"]
        states |= r["states"]
        if r["bad"]:
            ctx.violation(*r["bad"])
    for s in sorted(map(str, states))[:4]:
        ctx.sample(s)
    for v in sorted(values)[:3]:
        ctx.sample({"value": v})
    ctx.level = "model_checking"
    ctx.add(states=len(states) + len(values), transitions=seqs * depth + len(cases),
            traces_validated_against_impl=seqs + len(cases), comparisons=lookups_done)
    ctx.cov["bound"] = "all sequences of %d operations out of %d; %d values at %d places in 4 layouts" % (
        depth, len(OPS), len(VALUES), len(PLACES))
    ctx.assumptions += ["only the first file read counts until a reset (the documented behaviour of the shared parser)",
                        "what geteval gives for text that is not a Python literal is not claimed"]
