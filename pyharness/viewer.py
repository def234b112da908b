"""Y01: the Python viewer on exhaustively enumerated small schemas, observation
files, cluster files (written by the C++ tool and in its format) and plots."""
import base64, contextlib, io, itertools, os, re, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "pyharness")]
import build
from common import Shard, write
PROP, TIER, OUT, TMP = sys.argv[1:5]
THOROUGH = TIER in ("thorough", "deep")
DEEP = TIER == "deep"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", TMP)
sys.path.insert(0, os.path.join(build.REPO, "py"))
import matplotlib.figure
import numpy as np
FIGS = []


def _save(self, out, *a, **k):
    """stand-in for drawing: what the figure shows is recorded, not rendered"""
    ax = self.axes[0]
    red, black = [], []
    for l in ax.lines:
        x, y = list(l.get_xdata()), list(l.get_ydata())
        kind = ("row", y[0]) if y[0] == y[1] else ("col", x[0])
        (black if l.get_linewidth() > 3 else red).append((kind[0], float(kind[1]) + 0.5))
    FIGS.append({"m": np.ma.filled(np.ma.masked_invalid(np.ma.array(ax.images[0].get_array(), dtype=float)), np.nan) if ax.images else None,
                 "rows": [t.get_text() for t in ax.get_yticklabels()], "cols": [t.get_text() for t in ax.get_xticklabels()],
                 "red": sorted(red), "black": sorted(black)})
    out.write(f"FIG{len(FIGS) - 1}.".encode())


matplotlib.figure.Figure.savefig = _save
matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
import hirm_io, visualize
BIN = build.build_tools()
shards = []


def quiet(f, *a):
    """result and what went wrong"""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return f(*a), ""
        except SystemExit as e:
            return None, f"exit({e.code})"
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"


def put(name, text):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write(text)
    return p


# ---- schemas -----------------------------------------------------------------------------
STYLES = {"plain": lambda n, d, p, b, ds: f"{n} ~ {d}{p}({b + '; ' if b else ''}{', '.join(ds)})",
          "tight": lambda n, d, p, b, ds: f"{n}~{d}{p}({b + ';' if b else ''}{','.join(ds)})",
          "wide": lambda n, d, p, b, ds: f"  {n}  ~  {d} {p} ( {b + ' ; ' if b else ''}{' , '.join(ds)} )  ",
          "comment": lambda n, d, p, b, ds: f"{n} ~ {d}{p}({b + '; ' if b else ''}{', '.join(ds)})  # about (x; y) [k=9] and ~",
          "tabs": lambda n, d, p, b, ds: f"\t{n}\t~\t{d}{p}(\t{b + ';' + chr(9) if b else ''}{(',' + chr(9)).join(ds)}\t)"}
PARAMS = [("bernoulli", "", {}), ("categorical", "[k=3]", {"k": "3"}), ("categorical", "[ k = 3 ]", {"k": "3"}), ("stringcat", '[strings="a b"]', {"strings": "a b"}),
          ("stringcat", '[strings="a:b", delim=":"]', {"strings": "a:b", "delim": ":"}), ("stringcat", "[strings='a,b',delim=',']", {"strings": "a,b", "delim": ","}),
          ("stringcat", '[strings="[a]|(b)", delim="|"]', {"strings": "[a]|(b)", "delim": "|"}), ("stringcat", '[strings="x = y", delim=" = "]', None), ("bigram", "[maxlength=10]", {"maxlength": "10"}),
          ("normal", "", {}), ("skellam", "", {})]
DOMS = [["D"], ["D", "E"], ["D", "D"], ["D_1", "E", "f2"]]
FILLERS = ["", "\n", "# a comment\n", "   \n", "\t# x ~ bernoulli(D)\n"]
EMIS = {"bernoulli": "sometimes_bitflip", "categorical": "sometimes_categorical", "stringcat": "bigram", "bigram": "bigram", "normal": "gaussian"}


def unquote(s):
    return s[1:-1] if len(s) > 1 and s[0] == s[-1] and s[0] in "'\"" else s


def schemas():
    sh = Shard("schemas")
    tool = []
    for (style, fmt), (dist, ptext, params), ds, fill, noisy in itertools.product(STYLES.items(), PARAMS, DOMS, FILLERS, (0, 1, 2)):
        if noisy and dist not in EMIS:
            continue
        if params is None and noisy:
            continue
        want = {"R": (dist, params, ds)}
        text = fill + fmt("R", dist, ptext, "", ds) + "\n" + fill
        if noisy:
            nds = ds + ["W"] * (noisy - 1)
            em = EMIS[dist]
            np_ = ptext if em == "sometimes_categorical" else ""
            want["N_1"] = (em, params if np_ else {}, nds)
            text += fmt("N_1", em, np_, "R", nds) + "\n"
        if fill == "":
            text = text.rstrip("\n")           # no newline at the end of the file
        p = put("s.schema", text)
        got, err = quiet(hirm_io.load_schema, p)
        sh.states += 1
        sh.transitions += 1
        sh.traces += 1
        if err:
            sh.violation("Y01:schema-error", err, text)
        else:
            g = {n: (r.distribution, {k: unquote(v) for k, v in r.parameters.items()}, list(r.domains)) for n, r in got.items()}
            if params is None:
                want["R"] = (dist, g["R"][1] if "R" in g else None, ds)
                if "R" in g and unquote(dict(g["R"][1]).get("strings", "")) != "x = y":
                    sh.violation("Y01:schema", f"read parameters {g['R'][1]}", text)
            if g != want or any(r.name != n for n, r in got.items()):
                sh.violation("Y01:schema", f"read {g}, stated {want}", text)
        if params is not None and ds == ["D", "E"] and fill in ("", "   \n"):
            v = {"bernoulli": "1", "normal": "1", "categorical": "1", "stringcat": "x", "bigram": "ab", "string_nat": "1"}.get(dist, "1")
            if any("strings" in str(k) for k in (params or {})):
                v = unquote(str(params["strings"])).split(unquote(str(params.get("delim", " "))))[0]
            obs = "".join(f"{v},{n},{','.join('e' for _ in d)}\n" for n, (_, _, d) in want.items() if n != "R" or not noisy)
            tool.append((text, set(want), obs))
    # the C++ tool accepts the same texts and finds the same relations
    from concurrent.futures import ThreadPoolExecutor

    def accept(job):
        i, (text, names, obs) = job
        d = os.path.join(TMP, f"t{i}")
        os.makedirs(d)
        open(os.path.join(d, "m.schema"), "w").write(text)
        open(os.path.join(d, "m.obs"), "w").write(obs)
        r = subprocess.run([os.path.join(BIN, "hirm"), "--iters=0", "m"], cwd=d, capture_output=True, timeout=60)
        out = [f for f in os.listdir(d) if f.endswith(".hirm")]
        found = set()
        if r.returncode == 0 and out:
            for l in open(os.path.join(d, out[0])).read().split("\n\n")[0].splitlines():
                found |= set(l.split()[1:])
        return text, names, r.returncode, found
    with ThreadPoolExecutor(8) as ex:
        for text, names, rc, found in ex.map(accept, enumerate(tool)):
            sh.count("schemas also read by the C++ tool")
            if rc != 0 or found != names:
                sh.violation("Y01:tool-differs", f"the C++ tool exits with {rc} and finds {sorted(found)}", text)
    sh.sample("5 spacing styles x 11 parameter lists x 4 domain lists x 5 fillers x clean / noisy")
    return sh


# ---- observations ------------------------------------------------------------------------
def observations():
    sh = Shard("observations")
    vals = ["0", "1", "-2.5", "1e-05", "ab", "a b", "", "#", "R"]
    ents = ["a", "b c", "x.1", "#1", "0", "R"]
    lines = [(v, r, list(es)) for v in vals for r in ("R", "rel_2") for k in (1, 2, 3) for es in itertools.product(ents[:6 if k < 3 else 3], repeat=k)]
    groups = [[l] for l in lines] + [list(t) for t in itertools.product(lines[::37], repeat=2)] + [lines]
    for g in groups:
        for end in ("\n", ""):
            text = "\n".join(",".join([v, r] + es) for v, r, es in g) + end
            got, err = quiet(hirm_io.load_observations, put("o.obs", text))
            sh.states += 1
            sh.transitions += len(g)
            sh.traces += 1
            if err:
                sh.violation("Y01:observations-error", err, text[:300])
            elif [(o.value, o.relation, list(o.items)) for o in got] != g:
                sh.violation("Y01:observations", f"read {got[:3]}", text[:300])
    sh.sample(f"every line over {len(vals)} values, 2 relations, up to three of {len(ents)} entities; pairs; one file of {len(lines)} lines")
    return sh


# ---- cluster files -----------------------------------------------------------------------
def partitions(xs):
    if not xs:
        yield []
        return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]


def render(rels, irms):
    t = "".join(f"{k} {' '.join(v)}\n" for k, v in rels) + "\n"
    return t + "\n".join(f"irm={k}\n" + "".join(f"{d} {c} {' '.join(es)}\n" for d, c, es in dcs) for k, dcs in irms)


def canon(cl):
    return [(str(c.cluster_id), list(c.relations), [(d.domain, str(d.cluster_id), list(d.entities)) for d in c.domain_clusters]) for c in cl]


def read_clusters(text):
    """reference reader of the file format"""
    blocks = text.strip("\n").split("\n\n")
    irms = {}
    for b in blocks[1:]:
        ls = b.splitlines()
        irms[ls[0][4:]] = [(l.split()[0], l.split()[1], l.split()[2:]) for l in ls[1:]]
    return [(l.split()[0], l.split()[1:], irms[l.split()[0]]) for l in blocks[0].splitlines()]


def check_clusters(sh, text, trace):
    got, err = quiet(hirm_io.load_clusters, put("c.hirm", text))
    sh.states += 1
    sh.transitions += 1
    sh.traces += 1
    if err:
        sh.violation("Y01:clusters-error", err, trace)
        return None
    g, w = canon(got), read_clusters(text)
    if sorted(g) != sorted(w):
        sh.violation("Y01:clusters", f"read {g}, the file states {w}", trace)
        return None
    return got


def synthetic():
    """every way to cluster three relations, and the entities of two domains in each"""
    ents = {"D": ["a", "b", "c"], "E": ["b", "x2"]}
    doms = {"R": ["D"], "S": ["D", "E"], "T": ["E"]}
    for pr in partitions(["R", "S", "T"]):
        ids = [str(7 * i % 11) for i in range(len(pr))]
        opts = []
        for rs in pr:
            ds = sorted({d for r in rs for d in doms[r]})
            opts.append([[(d, p) for d, p in zip(ds, c)] for c in itertools.product(*[list(partitions(ents[d])) for d in ds])])
        n = 1
        for o in opts:
            n *= len(o)
        for k, combo in enumerate(itertools.product(*opts)):
            if not THOROUGH and n > 400 and k % 7:
                continue
            irms = [(i, [(d, str(3 * t % 5), p) for d, ps in dcs for t, p in enumerate(sorted(ps))]) for i, dcs in zip(ids, combo)]
            yield list(zip(ids, pr)), irms


def clusters():
    sh = Shard("cluster files")
    for rels, irms in synthetic():
        text = render(rels, irms)
        for t in (text, text.rstrip("\n"), text + "\n"):
            check_clusters(sh, t, t)
    sh.sample("all clusterings of three relations over two domains and of the entities in each submodel")
    return sh


# ---- plots ---------------------------------------------------------------------------------
class Rel:
    def __init__(self, name, dist, doms, base=None):
        self.name, self.dist, self.doms, self.base = name, dist, doms, base


def figures(html):
    """cluster id -> figures of its section"""
    out = {}
    for part in re.split(r"<h1>IRM #", html)[1:]:
        cid = part[:part.index("<")]
        out[cid] = [FIGS[int(base64.b64decode(b).decode()[3:-1])] for b in re.findall(r"base64,([A-Za-z0-9+/=]+)", part)]
    return out


def expected_order(dcs, dom):
    """clusters in the file's order, entities of a cluster in any order"""
    return [set(es) for d, _, es in dcs if d == dom]


def match_order(labels, groups):
    i = 0
    for g in groups:
        if set(labels[i:i + len(g)]) != g or len(labels[i:i + len(g)]) != len(g):
            return False
        i += len(g)
    return i == len(labels)


def cuts(groups):
    out, n = [], 0
    for g in groups[:-1]:
        n += len(g)
        out.append(float(n))
    return out


def check_plots(sh, rels, obs, text, with_schema, trace):
    cl = check_clusters(sh, text, trace)
    if cl is None:
        return
    schema = None
    if with_schema:
        schema, err = quiet(hirm_io.load_schema, put("p.schema", "".join(f"{r.name} ~ {r.dist}({r.base + '; ' if r.base else ''}{', '.join(r.doms)})\n" for r in rels)))
        if err:
            return sh.violation("Y01:schema-error", err, trace)
    ob, err = quiet(hirm_io.load_observations, put("p.obs", "".join(",".join([v, r] + list(es)) + "\n" for v, r, es in obs)))
    if err:
        return sh.violation("Y01:observations-error", err, trace)
    FIGS.clear()
    out = os.path.join(TMP, "p.html")
    _, err = quiet(visualize.make_plots, schema, ob, cl, out)
    sh.states += 1
    sh.transitions += 1
    sh.traces += 1
    if err:
        return sh.violation("Y01:plot-error", err, trace)
    figs = figures(open(out).read())
    by = {r.name: r for r in rels}
    for cid, names, dcs in read_clusters(text):
        fs = list(figs.get(cid, []))
        mine = [o for o in obs if o[1] in names]
        for f in fs:
            if f["m"] is None or f["m"].shape != (len(f["rows"]), len(f["cols"])):
                return sh.violation("Y01:plot-shape", f"matrix of shape {None if f['m'] is None else f['m'].shape} with {len(f['rows'])} rows and {len(f['cols'])} columns", trace)
        unary = [o for o in mine if len(o[2]) == 1]
        binary = sorted({o[1] for o in mine if len(o[2]) == 2}, key=lambda r: [o[1] for o in mine].index(r))
        if len(fs) != bool(unary) + len(binary):
            return sh.violation("Y01:plots", f"submodel {cid} has {len(fs)} plots, {bool(unary) + len(binary)} expected", trace)
        if unary:
            f = fs.pop(0)
            doms = sorted({d for d, _, _ in dcs})
            groups, starts, n, red, black = [], {}, 0, [], []
            for d in doms:
                g = expected_order(dcs, d)
                starts[d] = n
                red += [("row", n + x) for x in cuts(g)]
                groups += g
                n += sum(map(len, g))
                if d != doms[-1]:
                    black.append(("row", float(n)))
            if not match_order(f["rows"], groups):
                return sh.violation("Y01:plot-rows", f"submodel {cid} lists rows {f['rows']}, expected clusters {groups}", trace)
            if f["red"] != sorted(red) or f["black"] != sorted(black):
                return sh.violation("Y01:plot-dividers", f"submodel {cid} has dividers {f['red']} {f['black']}, expected {red} {black}", trace)
            want = np.full(f["m"].shape, np.nan)
            for v, r, es in unary:
                d = by[r].doms[0] if with_schema else doms[0]
                size = sum(len(e) for dd, _, e in dcs if dd == d)
                if r not in f["cols"] or f["cols"].count(r) != 1:
                    return sh.violation("Y01:plot-columns", f"submodel {cid} has columns {f['cols']}", trace)
                want[starts[d] + f["rows"][starts[d]:starts[d] + size].index(es[0])][f["cols"].index(r)] = float(v)
            if not np.array_equal(f["m"], want, equal_nan=True):
                return sh.violation("Y01:plot-values", f"submodel {cid}, rows {f['rows']}, columns {f['cols']}: shows {f['m'].tolist()}, expected {want.tolist()}", trace)
        for f in fs:
            ok = False
            for r in binary:                      # plots of binary relations may come in any order
                d1, d2 = by[r].doms if with_schema else [dcs[0][0]] * 2
                g1, g2 = expected_order(dcs, d1), expected_order(dcs, d2)
                if not match_order(f["rows"], g1) or not match_order(f["cols"], g2):
                    continue
                if f["red"] != sorted([("row", x) for x in cuts(g1)] + [("col", x) for x in cuts(g2)]):
                    continue
                want = np.full(f["m"].shape, np.nan)
                for v, rr, es in mine:
                    if rr == r:
                        want[f["rows"].index(es[0])][f["cols"].index(es[1])] = float(v)
                if np.array_equal(f["m"], want, equal_nan=True):
                    ok = True
                    binary.remove(r)
                    break
            if not ok:
                return sh.violation("Y01:plot-values", f"submodel {cid}: a plot with rows {f['rows']}, columns {f['cols']}, values {f['m'].tolist()} and dividers {f['red']} shows none of the relations {binary}", trace)
        sh.count("plots compared", bool(unary) + len(fs))


def plots_synthetic():
    sh = Shard("plots")
    rels = [Rel("R", "bernoulli", ["D"]), Rel("S", "normal", ["D", "E"]), Rel("T", "normal", ["E"])]
    full = [("1", "R", ["a"]), ("0", "R", ["b"]), ("1", "R", ["c"]), ("2.5", "S", ["a", "b"]), ("-1", "S", ["b", "b"]), ("4", "S", ["c", "x2"]), ("7", "T", ["b"]), ("3", "T", ["x2"])]
    for rs, irms in synthetic():
        text = render(rs, irms)
        for obs in (full, full[::-1], full[::2]):
            if sh.too_many():
                return sh
            check_plots(sh, rels, obs, text, True, text + " observations " + str(obs))
    sh.sample("every synthetic cluster file with complete, reversed and partial observations of three relations over two domains that share an entity name")
    return sh


def plots_single(part=0, parts=1):
    sh = Shard(f"plots of one domain {part}")
    n = 0
    rels = [Rel("R", "bernoulli", ["D"]), Rel("L", "bernoulli", ["D", "D"]), Rel("Q", "normal", ["D"]), Rel("Z", "bernoulli", ["D", "D", "D"])]
    ents = ["a", "b", "c", "d"]
    obs = [("1", "R", ["a"]), ("0", "R", ["d"]), ("1", "L", ["a", "b"]), ("0", "L", ["b", "a"]), ("1", "L", ["d", "d"]), ("0", "L", ["c", "a"]), ("0.5", "Q", ["c"]), ("-3", "Q", ["b"]), ("1", "Z", ["a", "a", "b"])]
    for pr in partitions(["R", "L", "Q", "Z"]):
        need = [sorted({e for v, r, es in obs if r in rs for e in es}) for rs in pr]
        opts = [list(partitions(n)) for n in need]
        total = 1
        for o in opts:
            total *= len(o)
        for k, combo in enumerate(itertools.product(*opts)):
            if k % max(1, total // (400 if THOROUGH else 60)):
                continue
            if sh.too_many():
                return sh
            n += 1
            if n % parts != part:
                continue
            irms = [(str(i), [("D", str(t), p) for t, p in enumerate(sorted(ps))]) for i, ps in enumerate(combo)]
            text = render([(str(i), rs) for i, rs in enumerate(pr)], irms)
            for ws in (False, True):
                check_plots(sh, rels, obs, text, ws, text + (" with" if ws else " without") + " schema")
    sh.sample("clusterings of four relations of arity 1 to 3 over one domain, with and without the schema")
    return sh


def plots_tool():
    """cluster files written by the C++ tool"""
    sh = Shard("plots of C++ output")
    data = [([Rel("R1", "bernoulli", ["D"]), Rel("R2", "bernoulli", ["D"]), Rel("W", "normal", ["D"])],
             [("1", "R1", ["a"]), ("0", "R1", ["b"]), ("1", "R2", ["c"]), ("1", "R2", ["a"]), ("0", "R1", ["d"]), ("2.5", "W", ["b"]), ("-3", "W", ["e"])]),
            ([Rel("Likes", "bernoulli", ["P", "P"]), Rel("Owns", "bernoulli", ["P", "T"]), Rel("Tall", "bernoulli", ["P"]), Rel("New", "bernoulli", ["T"])],
             [("1", "Likes", ["p2", "p1"]), ("0", "Likes", ["p1", "p3"]), ("1", "Owns", ["p4", "t1"]), ("1", "Owns", ["p1", "p2"]), ("0", "Likes", ["p3", "p3"]), ("1", "Tall", ["p2"]), ("0", "New", ["p2"]), ("1", "New", ["t9"])]),
            ([Rel("T", "bernoulli", ["D"]), Rel("O", "sometimes_bitflip", ["D", "W"], "T")],
             [("1", "T", ["d1"]), ("0", "T", ["d2"]), ("1", "O", ["d1", "w1"]), ("0", "O", ["d1", "w2"]), ("1", "O", ["d2", "w1"])])]
    for k, (rels, obs) in enumerate(data):
        for it in (0, 1, 3):
            for seed in range(1, 25 if THOROUGH else 9):
                d = os.path.join(TMP, "tool")
                os.makedirs(d, exist_ok=True)
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                open(os.path.join(d, "m.schema"), "w").write("".join(f"{r.name} ~ {r.dist}({r.base + '; ' if r.base else ''}{', '.join(r.doms)})\n" for r in rels))
                open(os.path.join(d, "m.obs"), "w").write("".join(",".join([v, r] + es) + "\n" for v, r, es in obs))
                p = subprocess.run([os.path.join(BIN, "hirm"), f"--iters={it}", f"--seed={seed}", "m"], cwd=d, capture_output=True, timeout=60)
                out = [f for f in os.listdir(d) if f.endswith(".hirm")]
                tr = f"hirm --iters={it} --seed={seed} on data set {k}"
                if p.returncode or len(out) != 1:
                    sh.violation("Y01:tool", f"exit status {p.returncode}, output {out}", tr)
                    continue
                check_plots(sh, rels, obs, open(os.path.join(d, out[0])).read(), True, tr)
    sh.sample("3 data sets x 3 lengths of inference x seeds, clustered by the real tool")
    return sh


def of_part(f, k, n):
    g = lambda: f(k, n)
    g.__name__ = f"{f.__name__}_{k}"
    return g


FNS = (schemas, observations, clusters, plots_synthetic, plots_tool, *[of_part(plots_single, k, 5) for k in range(5)])


def one(k):
    global TMP
    TMP = os.path.join(TMP, f"y{k}")      # shards run in parallel
    os.makedirs(TMP, exist_ok=True)
    try:
        return FNS[k]()
    except Exception as e:
        import traceback
        sh = Shard(FNS[k].__name__)
        text = traceback.format_exc()[-1500:]
        if any(f.filename.startswith(os.path.join(build.REPO, "py")) for f in traceback.extract_tb(e.__traceback__)):
            sh.violation(f"Y01:{FNS[k].__name__}:exception", text, "see the traceback")
        else:
            sh.status = "error: " + text
        return sh


if __name__ == "__main__":
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        write(OUT, pool.map(one, range(len(FNS)), chunksize=1))
