"""B01: every configuration of a bounded set of runs of the real command-line tools."""
import itertools, math, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "pyharness")]
import build
from common import Shard, write
PROP, TIER, OUT, TMP = sys.argv[1:5]
BIN = build.build_tools()
THOROUGH = TIER in ("thorough", "deep")
DEEP = TIER == "deep"


def run(exe, args, cwd):
    try:
        p = subprocess.run([os.path.join(BIN, exe)] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", b"", b""


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


# ---- relational models -------------------------------------------------------------------
class Rel:
    def __init__(self, name, dist, doms, base=None, args=""):
        self.name, self.dist, self.doms, self.base, self.args = name, dist, doms, base, args

    def line(self):
        if self.base:
            nb = SCH[self.base].doms
            extra = self.doms[len(nb):]
            return f"{self.name} ~ {self.dist}{self.args}({self.base}; {', '.join(self.doms)})"
        return f"{self.name} ~ {self.dist}{self.args}({', '.join(self.doms)})"


SCH = {}
LEGAL = {"bernoulli": lambda v: v in ("0", "1"), "normal": lambda v: isfloat(v), "categorical": lambda v: v in ("0", "1", "2"),
         "stringcat": lambda v: v in ("x", "yy"), "bigram": lambda v: len(v) <= 5 and all(32 <= ord(c) < 127 for c in v),
         "skellam": lambda v: re.fullmatch(r"-?\d+", v) is not None, "sometimes_bitflip": lambda v: v in ("0", "1"), "gaussian": lambda v: isfloat(v)}


def isfloat(v):
    try:
        return math.isfinite(float(v))
    except ValueError:
        return False


class Data:
    def __init__(self, name, rels, obs, held, modes=("hirm", "irm"), noisy=False):
        self.name, self.rels, self.obs, self.held, self.modes, self.noisy = name, {r.name: r for r in rels}, obs, held, modes, noisy

    def leaves(self):
        return [r for r in self.rels if not any(q.base == r for q in self.rels.values())]

    def facts(self):
        """relation -> set of entity tuples the model must hold after loading"""
        f = {r: set() for r in self.rels}
        for v, r, *es in self.obs:
            f[r].add(tuple(es))
        for _ in self.rels:
            for r in self.rels.values():
                if r.base and not any(o[1] == r.base for o in self.obs):
                    f[r.base] |= {e[:len(self.rels[r.base].doms)] for e in f[r.name]}
        return f

    def entities(self, rels):
        out = {}
        for r in rels:
            for es in self.facts()[r]:
                for d, e in zip(self.rels[r].doms, es):
                    out.setdefault(d, set()).add(e)
        return out


def datasets():
    out = []
    out.append(Data("two unary relations", [Rel("R1", "bernoulli", ["D"]), Rel("R2", "bernoulli", ["D"])],
                    [("1", "R1", "a"), ("0", "R1", "b"), ("1", "R2", "c"), ("1", "R2", "a"), ("0", "R1", "d")],
                    [[("1", "R1", "a0")], [("0", "R1", "zz"), ("1", "R2", "zz"), ("1", "R2", "b")], [("1", "R2", "d")]]))
    out.append(Data("binary relations", [Rel("Likes", "bernoulli", ["P", "P"]), Rel("Owns", "bernoulli", ["P", "T"])],
                    [("1", "Likes", "p2", "p1"), ("0", "Likes", "p1", "p3"), ("1", "Owns", "p4", "t1"), ("1", "Owns", "p1", "t2"), ("0", "Likes", "p3", "p3")],
                    [[("1", "Likes", "p1", "new")], [("0", "Likes", "b", "b"), ("1", "Owns", "b", "t1")], [("1", "Owns", "p2", "t3"), ("0", "Owns", "p4", "t3"), ("1", "Likes", "p4", "p4")]]))
    out.append(Data("ternary and unary", [Rel("A", "bernoulli", ["X", "Y", "X"]), Rel("B", "bernoulli", ["Y"])],
                    [("1", "A", "x1", "y1", "x2"), ("0", "A", "x2", "y2", "x2"), ("1", "B", "y3"), ("0", "B", "y1")],
                    [[("1", "A", "w", "y3", "x1")], [("0", "B", "a"), ("1", "B", "y2")]]))
    out.append(Data("value types", [Rel("N", "normal", ["D"]), Rel("C", "categorical", ["D"], args="[k=3]"), Rel("S", "stringcat", ["D"], args='[strings="x yy"]'), Rel("B", "bigram", ["E", "D"], args="[maxlength=5]"), Rel("K", "skellam", ["E"])],
                    [("1.5", "N", "a"), ("-2", "N", "b"), ("2", "C", "a"), ("0", "C", "c"), ("x", "S", "b"), ("yy", "S", "a"), ("ab", "B", "e1", "a"), ("b", "B", "e2", "c"), ("-1", "K", "e1"), ("3", "K", "e3")],
                    [[("0.5", "N", "new"), ("1", "C", "new")], [("ba", "B", "e9", "b"), ("0", "K", "e2")]]))
    out.append(Data("noisy relation", [Rel("T", "bernoulli", ["D"]), Rel("O", "sometimes_bitflip", ["D", "W"], base="T")],
                    [("1", "O", "d1", "w1"), ("0", "O", "d1", "w2"), ("1", "O", "d2", "w1"), ("0", "O", "d3", "w3")], [], noisy=True))
    out.append(Data("noisy relation of an observed base", [Rel("T", "normal", ["D"]), Rel("O", "gaussian", ["D", "W"], base="T")],
                    [("1.5", "T", "d1"), ("2.5", "T", "d2"), ("1.25", "O", "d1", "w1"), ("2", "O", "d2", "w2")], [], noisy=True))
    out.append(Data("one relation", [Rel("R", "bernoulli", ["D"])], [("1", "R", "only")], [[("1", "R", "only2")], [("0", "R", "aa")]]))
    return out


def write_data(d, rels, obs, base="m"):
    global SCH
    SCH = rels
    open(os.path.join(d, base + ".schema"), "w").write("".join(r.line() + "\n" for r in rels.values()))
    open(os.path.join(d, base + ".obs"), "w").write("".join(",".join(o) + "\n" for o in obs))


def parse_irm_lines(lines):
    out = {}
    for l in lines:
        p = l.split()
        out.setdefault(p[0], {})
        if p[1] in out[p[0]]:
            raise ValueError(f"table {p[1]} of {p[0]} is listed twice")
        out[p[0]][p[1]] = p[2:]
    return out


def parse_hirm(text):
    blocks = text.split("\n\n")
    rels = {}
    for l in blocks[0].splitlines():
        p = l.split()
        if p[0] in rels:
            raise ValueError("relation cluster " + p[0] + " is listed twice")
        rels[p[0]] = p[1:]
    irms = {}
    for b in blocks[1:]:
        ls = b.splitlines()
        if not ls or not ls[0].startswith("irm="):
            raise ValueError("block without irm=")
        if ls[0][4:] in irms:
            raise ValueError(ls[0] + " is listed twice")
        irms[ls[0][4:]] = parse_irm_lines(ls[1:])
    return rels, irms


def check_partition(got, want, what):
    """got: domain -> table -> [entities]; want: domain -> {entities}"""
    for dom in set(got) | set(want):
        es = [e for t in got.get(dom, {}).values() for e in t]
        if any(not t for t in got.get(dom, {}).values()):
            return f"{what}: an empty cluster of {dom}"
        if sorted(es) != sorted(want.get(dom, ())):
            return f"{what}: {dom} lists {sorted(es)}, the observations have {sorted(want.get(dom, ()))}"
    return ""


def check_saved(data, mode, text):
    try:
        if mode == "irm":
            return check_partition(parse_irm_lines(text.splitlines()), data.entities(data.rels), "saved clusters")
        rels, irms = parse_hirm(text)
    except (ValueError, IndexError) as e:
        return f"the saved file is malformed: {e}"
    listed = [r for v in rels.values() for r in v]
    if sorted(listed) != sorted(data.rels):
        return f"the saved file lists relations {sorted(listed)}"
    if set(rels) != set(irms):
        return f"the saved file has relation clusters {sorted(rels)} but submodels {sorted(irms)}"
    for t, rs in rels.items():
        if not rs:
            return "an empty relation cluster"
        e = check_partition(irms[t], data.entities(rs), "irm=" + t)
        if e:
            return e
    return ""


def lse(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def irm_logp(data, clusters, held):
    """joint predictive of Bernoulli facts under default hyperparameters"""
    where = {(d, e): t for d, ts in clusters.items() for t, es in ts.items() for e in es}
    cells = {}
    for v, r, *es in data.obs:
        z = (r,) + tuple(where.get((d, e)) for d, e in zip(data.rels[r].doms, es))
        if None in z:
            continue
        c = cells.setdefault(z, [0, 0])
        c[int(v)] += 1
    unseen = []
    for v, r, *es in held:
        for d, e in zip(data.rels[r].doms, es):
            if (d, e) not in where and (d, e) not in unseen:
                unseen.append((d, e))
    opts = []
    for d, e in unseen:
        ts = clusters.get(d, {})
        n = sum(len(x) for x in ts.values())
        opts.append([(t, math.log(len(x) / (n + 1))) for t, x in ts.items()] + [("fresh", math.log(1 / (n + 1)))])
    tot = []
    for pick in itertools.product(*opts):
        w = dict(zip(unseen, (p[0] for p in pick)))
        lp = sum(p[1] for p in pick)
        for v, r, *es in held:
            z = (r,) + tuple(where.get((d, e), w.get((d, e))) for d, e in zip(data.rels[r].doms, es))
            c = cells.get(z, [0, 0])
            lp += math.log((c[int(v)] + 1) / (sum(c) + 2))
        tot.append(lp)
    return lse(tot)


def check_samples(data, n, text, enc_extra=()):
    have = data.facts()
    known = {}
    for src in [o for o in data.obs] + list(enc_extra):
        for d, e in zip(data.rels[src[1]].doms, src[2:]):
            known.setdefault(d, set()).add(e)
    counts = {}
    seen = set()
    lines = text.splitlines()
    for l in lines:
        for r in data.rels.values():
            p = l.rsplit(",", len(r.doms) + 1)
            if len(p) == len(r.doms) + 2 and p[1] == r.name:
                break
        else:
            return f"sample line {l!r} names no relation with its entities"
        v, es = p[0], tuple(p[2:])
        if not LEGAL[r.dist](v):
            return f"sample line {l!r} has an illegal value for {r.dist}"
        if es in have[r.name] or (r.name, es) in seen:
            return f"sample line {l!r} is about entities that already have a fact"
        seen.add((r.name, es))
        for d, e in zip(r.doms, es):
            if e not in known.get(d, ()) and not re.fullmatch(re.escape(f"new_{d}_") + r"\d+", e):
                return f"sample line {l!r} names an unknown entity {e}"
        counts[r.name] = counts.get(r.name, 0) + 1
    for r in data.leaves():
        if counts.get(r, 0) != n:
            return f"{counts.get(r, 0)} samples of {r} were written, {n} were requested"
    return ""


def obs_file(path, obs):
    open(path, "w").write("".join(",".join(o) + "\n" for o in obs))


def hirm_case(sh, data, mode, iters, samples, held, load, seed, verbose):
    d = os.path.join(TMP, f"b01_{os.getpid()}_{id(sh)}_{sh.states}_{seed}_{iters}")
    shutil.rmtree(d, ignore_errors=True)
    tr = f"{data.name}: mode={mode} iters={iters} samples={samples} heldout={held} load={load} seed={seed} verbose={verbose} schema={[r.name for r in data.rels.values()]} obs={data.obs}"
    out = []
    try:
        outs = []
        for k in range(2):
            w = os.path.join(d, "run%d%s" % (k, "x" * (37 * k)))
            os.makedirs(w)
            write_data(w, data.rels, data.obs)
            args = ["m", f"--mode={mode}", f"--seed={seed}", f"--iters={iters}"]
            if load:
                rc, _, _ = run("hirm", ["m", f"--mode={mode}", f"--seed={load}", "--iters=2"], w)
                if rc:
                    return [("B01:exit", f"the run that makes the clusters exits with {rc}", tr)]
                args.append(f"--load=m.{load}.{mode}")
            if samples:
                args.append(f"--samples={samples}")
            if held is not None:
                obs_file(os.path.join(w, "held.obs"), held)
                args.append("--heldout=held.obs")
            if verbose:
                args.append("--verbose")
            rc, so, se = run("hirm", args, w)
            if rc != 0:
                return [("B01:exit", f"exit status {rc}: {(so + se)[-300:]}", tr)]
            if verbose:      # elapsed times
                so = re.sub(rb"(?m)^\d+\.\d+ ", b"T ", so)
            outs.append((so, files(w)))
        if outs[0] != outs[1]:
            diff = [f for f in set(outs[0][1]) | set(outs[1][1]) if outs[0][1].get(f) != outs[1][1].get(f)]
            out.append(("B01:reproducible", f"two runs with the same seed differ in {diff or 'what they print'}", tr))
        so, fs = outs[0]
        name = f"m.{seed}.{mode}"
        if name not in fs:
            return out + [("B01:saved", f"no {name} was written", tr)]
        e = check_saved(data, mode, fs[name].decode())
        if e:
            out.append(("B01:saved", e, tr))
        m = re.search(rb"Log likelihood of held out data is (.*)", so)
        if held is not None:
            if not m or not isfloat(m.group(1).decode()):
                out.append(("B01:heldout", "the held-out likelihood is " + (m.group(1).decode() if m else "not reported"), tr))
            elif all(r.dist == "bernoulli" for r in data.rels.values()) and iters == 0 and not e:
                if mode == "irm":
                    want = irm_logp(data, parse_irm_lines(fs[name].decode().splitlines()), held)
                else:
                    rels, irms = parse_hirm(fs[name].decode())
                    want = 0
                    for t, rs in rels.items():
                        hs = [h for h in held if h[1] in rs]
                        if hs:
                            want += irm_logp(data, irms[t], hs)
                got = float(m.group(1))
                if abs(got - want) > 2e-5 * (1 + abs(want)):
                    out.append(("B01:heldout-value", f"the held-out likelihood is {got}, the saved clusters imply {want:.6g}", tr))
                sh.count("held-out likelihoods recomputed")
        elif m:
            out.append(("B01:heldout", "a held-out likelihood is reported without held-out data", tr))
        if samples and mode == "hirm":
            if name + ".samples" not in fs:
                out.append(("B01:samples", "no samples were written", tr))
            else:
                e = check_samples(data, samples, fs[name + ".samples"].decode(), held or ())
                if e:
                    out.append(("B01:samples", e, tr))
        if load and iters == 0:   # nothing was inferred: same clusters
            src = fs[f"m.{load}.{mode}"].decode()
            a, b = (parse_irm_lines(src.splitlines()), parse_irm_lines(fs[name].decode().splitlines())) if mode == "irm" else (parse_hirm(src), parse_hirm(fs[name].decode()))
            norm = lambda x: repr([sorted((k, sorted(v)) for k, v in x[0].items()), sorted((t, sorted((dd, sorted((k, sorted(v)) for k, v in ts.items())) for dd, ts in i.items())) for t, i in x[1].items())]) if mode == "hirm" else repr(sorted((dd, sorted((k, sorted(v)) for k, v in ts.items())) for dd, ts in x.items()))
            if norm(a) != norm(b):
                out.append(("B01:load", "loading clusters and saving them again changes them", tr))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hirm_shards():
    cases = {}
    for data in datasets():
        for mode in data.modes:
            for iters in ((0, 1, 4) if THOROUGH else (0, 2)):
                for seed in ((1, 2, 3, 7) if THOROUGH else (1, 2)):
                    for load in (None, 5) if not THOROUGH else (None, 5, 6):
                        for held in [None] + data.held:
                            for samples in (0, 3) if mode == "hirm" else (0,):
                                for verbose in ((False, True) if iters and not samples and not load else (False,)):
                                    cases.setdefault(data.name, []).append((data, mode, iters, samples, held, load, seed, verbose))
    return cases


# ---- entity models ---------------------------------------------------------------------
PC = {
    "chain": ("class City\n  n ~ bool\n  v ~ real\n\nclass Person\n  home ~ City\n  k ~ categorical(k=3)\n\nclass Rec\n  who ~ Person\n  ok ~ bool\n\nobserve\n  who.home.n as CityN\n  who.home.v as CityV\n  who.k as Kind\n  ok as Ok\n  from Rec\n",
              {"CityN": "b", "CityV": "r", "Kind": "3", "Ok": "b"}, "Rec"),
    "two references": ("class City\n  n ~ bool\n\nclass Rec\n  from_ ~ City\n  to ~ City\n  x ~ real\n\nobserve\n  from_.n as A\n  to.n as B\n  x as X\n  from Rec\n", {"A": "b", "B": "b", "X": "r"}, "Rec"),
    "one class": ("class Rec\n  x ~ bool\n  y ~ real\n\nobserve\n  x as X\n  y as Y\n  from Rec\n", {"X": "b", "Y": "r"}, "Rec"),
}
VAL = {"b": ["1", "0"], "r": ["1.5", "-2"], "3": ["0", "2"]}
PLEGAL = {"b": lambda v: v in ("0", "1"), "r": isfloat, "3": lambda v: v in ("0", "1", "2")}


def csv_text(cols, rows, extra):
    head = list(cols) + (["unused"] if extra else [])
    return ",".join(head) + "\n" + "".join(",".join(r + (["q"] if extra else [])) + "\n" for r in rows)


def pclean_case(sh, name, rows, held, iters, opts, samples, seed, extra):
    schema, cols, rec = PC[name]
    d = os.path.join(TMP, f"b01p_{os.getpid()}_{id(sh)}_{sh.states}_{seed}_{iters}")
    shutil.rmtree(d, ignore_errors=True)
    tr = f"pclean {name}: rows={rows} heldout={held} iters={iters} options={opts} samples={samples} seed={seed} extra-column={extra}"
    out = []
    try:
        outs = []
        for k in range(2):
            w = os.path.join(d, "run%d%s" % (k, "x" * (37 * k)))
            os.makedirs(w)
            open(os.path.join(w, "s"), "w").write(schema)
            open(os.path.join(w, "o.csv"), "w").write(csv_text(cols, rows, extra))
            args = ["--schema=s", "--obs=o.csv", f"--iters={iters}", f"--seed={seed}", "--output=out"] + opts
            if held:
                open(os.path.join(w, "h.csv"), "w").write(csv_text(cols, held, extra))
                args.append("--heldout=h.csv")
            if samples:
                args.append(f"--samples={samples}")
            rc, so, se = run("pclean", args, w)
            if rc != 0:
                return [("B01:pclean-exit", f"exit status {rc}: {(so + se)[-300:]}", tr)]
            outs.append((so, files(w)))
        if outs[0] != outs[1]:
            diff = [f for f in set(outs[0][1]) | set(outs[1][1]) if outs[0][1].get(f) != outs[1][1].get(f)]
            out.append(("B01:pclean-reproducible", f"two runs with the same seed differ in {diff or 'what they print'}", tr))
        so, fs = outs[0]
        if "out" not in fs:
            return out + [("B01:pclean-saved", "no clusters were written", tr)]
        try:
            rels, irms = parse_hirm(fs["out"].decode())
            listed = [r for v in rels.values() for r in v]
            bad = ""
            if len(set(listed)) != len(listed):
                bad = "a relation is listed twice"
            if not set(cols) <= set(listed):
                bad = f"queried fields {sorted(set(cols) - set(listed))} are not listed"
            if set(rels) != set(irms):
                bad = "relation clusters and submodels differ"
            recs = set()
            for t, ds in irms.items():
                for dom, ts in ds.items():
                    es = [e for x in ts.values() for e in x]
                    if len(set(es)) != len(es):
                        bad = f"irm={t}: an entity of {dom} is listed twice"
                    for e in es:
                        if not re.fullmatch(re.escape(dom) + r":\d+", e):
                            bad = f"irm={t}: {dom} lists {e}"
                    if dom == rec:
                        recs |= set(es)
            want = {f"{rec}:{i}" for i, r in enumerate(rows) if any(r)}
            if not bad and recs != want:
                bad = f"the records listed are {sorted(recs)}, the rows with values are {sorted(want)}"
            # the rows that state a field are in the submodel of that field
            for i, c in enumerate(cols):
                t = [t for t, rs in rels.items() if c in rs]
                if t and not bad:
                    es = {e for x in irms[t[0]].get(rec, {}).values() for e in x}
                    for k, r in enumerate(rows):
                        if r[i] and f"{rec}:{k}" not in es:
                            bad = f"row {k} states {c} but is not in the submodel of {c}"
        except (ValueError, IndexError) as e:
            bad = f"malformed: {e}"
        if bad:
            out.append(("B01:pclean-saved", bad, tr))
        m = re.search(rb"Log likelihood of held out data is (.*)", so)
        if held:
            if not m or not isfloat(m.group(1).decode()):
                out.append(("B01:pclean-heldout", "the held-out likelihood is " + (m.group(1).decode() if m else "not reported"), tr))
        if samples:
            if "out.samples" not in fs:
                out.append(("B01:pclean-samples", "no samples were written", tr))
            else:
                ls = fs["out.samples"].decode().splitlines()
                h = ls[0].split(",") if ls else []
                if sorted(h) != sorted(cols) or len(ls) != samples + 1:
                    out.append(("B01:pclean-samples", f"the samples file has columns {h} and {len(ls) - 1} rows, {samples} were requested", tr))
                else:
                    for l in ls[1:]:
                        v = l.split(",")
                        if len(v) != len(h) or any(not PLEGAL[cols[c]](x) for c, x in zip(h, v)):
                            out.append(("B01:pclean-samples", f"sampled row {l!r} has an illegal value", tr))
                            break
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pclean_cases():
    out = {}
    for name, (schema, cols, rec) in PC.items():
        full = [[VAL[t][i % 2] for t in cols.values()] for i in range(2)]
        part = [[v if (i + j) % 2 else "" for j, v in enumerate(r)] for i, r in enumerate(full + full[:1])]
        none = [full[0], [""] * len(cols), full[1]]
        for rows in ([full[0]], full, full + full[:1] if THOROUGH else part, none):
            for held in (None, [full[0]], part[:2]):
                for iters in ((0, 1, 3) if THOROUGH else (0, 2)):
                    for of in ("false", "true"):
                        for rc in ("true", "false"):
                            for te in (("true", "false") if iters else ("true",)):
                                for seed in ((10, 3) if THOROUGH else (10,)):
                                    for samples in ((0, 2) if held or THOROUGH else (2,)):
                                        out.setdefault(name, []).append((name, rows, held, iters, [f"--only_final_emissions={of}", f"--record_class_is_clean={rc}", f"--transition_entities={te}"], samples, seed, len(rows) == 2))
    return out


# ---- invalid invocations -----------------------------------------------------------------
def invalid(sh):
    ok_s, ok_o = "R ~ bernoulli(D)\n", "1,R,a\n0,R,b\n"
    ps, cols, rec = PC["one class"]
    ok_c = "X,Y\n1,2.5\n"
    cases = []
    H = lambda files, args, what: cases.append(("hirm", files, args, what))
    P = lambda files, args, what: cases.append(("pclean", files, args, what))
    good = {"m.schema": ok_s, "m.obs": ok_o}
    H(good, [], "no path")
    H(good, ["m", "--mode=other"], "unknown mode")
    H(good, ["m", "--mode="], "empty mode")
    H(good, ["m", "--nonsense=1"], "unknown option")
    H(good, ["m", "--iters=abc"], "iterations that are no number")
    H(good, ["m", "--seed=x"], "a seed that is no number")
    H(good, ["m", "--samples=1.5"], "samples that are no whole number")
    H({"m.obs": ok_o}, ["m"], "missing schema")
    H({"m.schema": ok_s}, ["m"], "missing observations")
    H(good, ["m", "--heldout=nope.obs"], "missing held-out file")
    H(good, ["m", "--load=nope.hirm"], "missing cluster file")
    H(good, ["m", "--mode=irm", "--load=nope.irm"], "missing cluster file (irm)")
    H(good, ["other"], "wrong path")
    for bad in ("R ~ nosuch(D)\n", "R bernoulli(D)\n", "R ~ bernoulli D\n", "R ~ bernoulli(\n", "~\n", "R ~ categorical(D)\n"):
        for mode in ("hirm", "irm"):
            H({"m.schema": bad, "m.obs": ok_o}, ["m", f"--mode={mode}"], f"schema {bad!r}")
    for bad in ("1,Q,a\n", "1,R\n", "1,R,a,b\n", "abc,R,a\n", "1\n"):
        for mode in ("hirm", "irm"):
            H({"m.schema": ok_s, "m.obs": bad}, ["m", f"--mode={mode}"], f"observations {bad!r}")
    for bad in ("1,Q,a\n", "1,R\n", "1,R,a,b\n"):
        H(dict(good, **{"h.obs": bad}), ["m", "--heldout=h.obs", "--iters=0"], f"held-out observations {bad!r}")
    pg = {"s": ps, "o.csv": ok_c}
    P(pg, [], "no options")
    P(pg, ["--schema=s", "--output=out"], "no observations")
    P(pg, ["--obs=o.csv", "--output=out"], "no schema")
    P(pg, ["--schema=nope", "--obs=o.csv", "--output=out"], "missing schema")
    P(pg, ["--schema=s", "--obs=nope.csv", "--output=out"], "missing observations")
    P(pg, ["--schema=s", "--obs=o.csv", "--output=out", "--iters=q"], "iterations that are no number")
    P(pg, ["--schema=s", "--obs=o.csv", "--output=out", "--nonsense"], "unknown option")
    P(pg, ["--schema=s", "--obs=o.csv", "--output=out", "--heldout=nope.csv"], "missing held-out file")
    P(pg, ["--schema=s", "--obs=o.csv", "--samples=2"], "samples without an output file")
    for bad in ("class\n", "class Rec\n  x ~\n", ps.replace("from Rec", "from Nope"), ps.replace("x as X", "q as X"), ps.replace("~ bool", "~ nosuch"), ps.replace("observe", "obs")):
        P({"s": bad, "o.csv": ok_c}, ["--schema=s", "--obs=o.csv", "--output=out"], f"schema {bad!r}")
    for bad in ("X,Y\n1\n", "X,Y\n1,2,3\n", "X,Y\n1,abc\n", "X,Y\n\x01,2\n", "X,Y\nmaybe,2\n"):
        P({"s": ps, "o.csv": bad}, ["--schema=s", "--obs=o.csv", "--output=out"], f"observations {bad!r}")
    for exe, fs, args, what in cases:
        d = os.path.join(TMP, f"b01i_{sh.states}")
        os.makedirs(d)
        for f, t in fs.items():
            open(os.path.join(d, f), "w").write(t)
        rc, so, se = run(exe, args, d)
        sh.states += 1; sh.transitions += 1; sh.traces += 1
        tr = f"{exe} {' '.join(args)} ({what})"
        after = files(d)
        made = {f for f in after if f not in fs or after[f] != fs[f].encode()}
        if rc == 0:
            sh.violation("B01:invalid-accepted", f"exit status 0 for {what}", tr)
        elif rc == "timeout" or rc == -11:
            sh.violation("B01:invalid-crash", f"{what}: {rc}", tr)
        if made and "held-out" not in what:
            sh.violation("B01:invalid-output", f"{what}: files {sorted(made)} were written", tr)
        shutil.rmtree(d)
    for exe in ("hirm", "pclean"):
        rc, so, se = run(exe, ["--help"], TMP)
        sh.states += 1; sh.transitions += 1; sh.traces += 1
        if rc != 0 or b"--" not in so:
            sh.violation("B01:help", f"{exe} --help exits with {rc}", exe)
    sh.sample(f"{len(cases)} invalid invocations, for example {[c[3] for c in cases[:6]]}")


def main():
    shards = []
    pool = ThreadPoolExecutor(max_workers=9)
    jobs = []

    def work(label, cases, fn):
        sh = Shard(label)
        shards.append(sh)
        for i, c in enumerate(cases):
            one = Shard(f"{label}_{i}")
            one.states = i
            jobs.append((sh, one, pool.submit(fn, one, *c)))
        sh.sample(f"{len(cases)} configurations, for example {cases[0][1:]}")
    inv = Shard("invalid invocations")
    invalid(inv)
    shards.append(inv)
    for n, cs in pclean_cases().items():
        work("pclean " + n, cs, pclean_case)
    for n, cs in hirm_shards().items():
        # the schema text is written from a global: one data set at a time
        work("hirm " + n, cs, hirm_case)
        for sh, one, f in jobs:
            f.result()
    for sh, one, f in jobs:
        r = f.result()
        sh.states += 1
        sh.transitions += 2
        sh.traces += 1
        for k, v in one.counters.items():
            sh.count(k, v)
        for v in r:
            sh.violation(*v)
    write(OUT, shards)


main()
