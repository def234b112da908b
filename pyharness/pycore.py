"""P01-P06: the Python package (repo/src) on exhaustively enumerated histories,
states and random choices, against independent references.

The package draws only through `choices` and `shuffle` of its generator; both are
replaced by a chooser that enumerates every outcome and multiplies the exact
probability of the outcomes taken."""
import copy, importlib.util, itertools, json, math, os, random, sys, types
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "pyharness")]
from common import Shard, write
PROP, TIER, OUT, TMP = sys.argv[1:5]
REPO = os.environ.get("VP_REPO", "/repo")
THOROUGH = TIER in ("thorough", "deep")
DEEP = TIER == "deep"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", TMP)
SRC = os.path.join(REPO, "src")
spec = importlib.util.spec_from_file_location("hirm", os.path.join(SRC, "__init__.py"), submodule_search_locations=[SRC])
pkg = importlib.util.module_from_spec(spec)
sys.modules["hirm"] = pkg
spec.loader.exec_module(pkg)
import hirm.hirm as H
import hirm.util_io as IO
shards = []
TOL = 1e-9
copy._deepcopy_dispatch[types.ModuleType] = lambda x, memo: x      # a generator given as the random module


# ---- choices ---------------------------------------------------------------------------
class Chooser:
    """Depth-first enumeration of every draw of a body."""

    def __init__(self):
        self.script, self.greedy = [], False
        self.begin()

    def __deepcopy__(self, memo):
        return self

    def begin(self):
        self.pos, self.p, self.log = 0, 1.0, []

    def pick(self, ws):
        alts = [i for i, w in enumerate(ws) if w > 0]
        if not alts:
            raise ValueError("Total of weights must be greater than zero")
        if any(math.isnan(w) or math.isinf(w) for w in ws):
            raise ValueError(f"weights {ws}")
        if self.greedy:
            k = max(range(len(alts)), key=lambda a: ws[alts[a]])
        else:
            if self.pos == len(self.script):
                self.script.append([0, len(alts)])
            k = self.script[self.pos][0]
            self.pos += 1
        t = sum(ws)
        self.p *= ws[alts[k]] / t
        self.log.append((alts[k], tuple(ws)))
        return alts[k]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            c = list(cum_weights)
            weights = [b - a for a, b in zip([0] + c, c)]
        ws = [1.0] * len(population) if weights is None else [float(w) for w in weights]
        assert len(ws) == len(population)
        return [population[self.pick(ws)] for _ in range(k)]

    def choice(self, seq):
        return self.choices(list(seq))[0]

    def shuffle(self, x):
        for i in range(len(x) - 1):
            j = i + self.pick([1.0] * (len(x) - i))
            x[i], x[j] = x[j], x[i]

    def advance(self):
        while self.script and self.script[-1][0] + 1 == self.script[-1][1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1][0] += 1
        return True


def runs(body, limit=200000):
    """yields (chooser, result or exception) for every execution of body(chooser)"""
    c = Chooser()
    n = 0
    while True:
        c.begin()
        try:
            r = body(c)
        except Exception as e:      # an execution that fails is reported by the caller
            r = e
        yield c, r
        n += 1
        del c.script[c.pos:]
        if not c.advance():
            return
        if n >= limit:
            raise RuntimeError("execution limit")


GLOBAL = Chooser()
GLOBAL_DRAWS = [0]


def _global(name):
    def f(*a, **k):
        GLOBAL_DRAWS[0] += 1
        return getattr(GLOBAL, name)(*a, **k)
    return f


random.choices, random.shuffle = _global("choices"), _global("shuffle")


# ---- reference -------------------------------------------------------------------------
def lbeta(a, b):
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)


def bb_score(vals, a=1, b=1):
    s = sum(vals)
    return lbeta(s + a, len(vals) - s + b) - lbeta(a, b)


def bb_pred(vals, x, a=1, b=1):
    s, n = sum(vals), len(vals)
    return math.log((s + a) if x == 1 else (n - s + b)) - math.log(n + a + b)


def crp_score(sizes, alpha):
    n = sum(sizes)
    return len(sizes) * math.log(alpha) + sum(math.lgamma(k) for k in sizes) + math.lgamma(alpha) - math.lgamma(n + alpha)


def lse(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def cells(facts, doms, assign):
    """facts: items -> value; assign: domain -> item -> table"""
    out = {}
    for items, v in facts.items():
        out.setdefault(tuple(assign[d][i] for d, i in zip(doms, items)), []).append(v)
    return out


def sizes(asg):
    t = {}
    for v in asg.values():
        t[v] = t.get(v, 0) + 1
    return list(t.values())


def rel_score(facts, doms, assign):
    return sum(bb_score(v) for v in cells(facts, doms, assign).values())


def irm_score(schema, facts, assign, alphas):
    return sum(crp_score(sizes(assign[d]), alphas[d]) for d in assign) + sum(rel_score(facts[r], schema[r], assign) for r in schema)


# ---- looking at the real objects -------------------------------------------------------
def snap_irm(m):
    return {"schema": {r: tuple(d) for r, d in m.schema.items()},
            "d2r": {d: tuple(sorted(v)) for d, v in m.domain_to_relations.items()},
            "domains": {d: (tuple(sorted(map(repr, x.items))), x.crp.N, x.crp.alpha,
                            tuple(sorted((t, tuple(sorted(map(repr, s)))) for t, s in x.crp.tables.items())),
                            tuple(sorted((repr(i), t) for i, t in x.crp.assignments.items()))) for d, x in m.domains.items()},
            "relations": {r: (x.name, tuple(d.name for d in x.domains), tuple(sorted((repr(k), v) for k, v in x.data.items())),
                              tuple(sorted((d, tuple(sorted((repr(i), tuple(sorted(map(repr, s)))) for i, s in y.items()))) for d, y in x.data_r.items())),
                              tuple(sorted((z, c.N, c.s, c.alpha, c.beta) for z, c in x.clusters.items()))) for r, x in m.relations.items()}}


def snap_hirm(h):
    return {"schema": {r: tuple(d) for r, d in h.schema.items()},
            "crp": (h.crp.N, h.crp.alpha, tuple(sorted((t, tuple(sorted(s))) for t, s in h.crp.tables.items())), tuple(sorted(h.crp.assignments.items()))),
            "irms": {t: snap_irm(m) for t, m in h.irms.items()}}


def assign_of(m):
    return {d: dict(x.crp.assignments) for d, x in m.domains.items()}


def part(asg):
    t = {}
    for i, v in asg.items():
        t.setdefault(v, []).append(repr(i))
    return tuple(sorted(tuple(sorted(v)) for v in t.values()))


def check_crp(c, what):
    if c.N != len(c.assignments):
        return f"{what}: N={c.N} with {len(c.assignments)} customers"
    want = {}
    for i, t in c.assignments.items():
        want.setdefault(t, set()).add(i)
    if want != c.tables:
        return f"{what}: tables {c.tables}, assignments {c.assignments}"
    return ""


def check_irm(m, schema, facts, extra=None):
    """all structural rules of a relational model; extra: domain -> items allowed without facts"""
    if {r: tuple(d) for r, d in m.schema.items()} != schema or set(m.relations) != set(schema):
        return f"schema {m.schema}, relations {sorted(m.relations)}, expected {schema}"
    doms = {d for ds in schema.values() for d in ds}
    if set(m.domains) != doms or set(m.domain_to_relations) != doms:
        return f"domains {sorted(m.domains)}, index {sorted(m.domain_to_relations)}, expected {sorted(doms)}"
    for d in doms:
        x = m.domains[d]
        if m.domain_to_relations[d] != {r for r in schema if d in schema[r]}:
            return f"domain {d} lists relations {m.domain_to_relations[d]}"
        ents = {i for r in schema for items in facts[r] for dd, i in zip(schema[r], items) if dd == d} | set((extra or {}).get(d, ()))
        if set(x.items) != ents:
            return f"domain {d} has items {sorted(map(str, x.items))}, the facts mention {sorted(map(str, ents))}"
        if set(x.crp.assignments) != ents:
            return f"domain {d} seats {sorted(map(str, x.crp.assignments))}, its items are {sorted(map(str, ents))}"
        e = check_crp(x.crp, f"domain {d}")
        if e:
            return e
    asg = assign_of(m)
    for r in schema:
        x = m.relations[r]
        if any(a is not m.domains[d] for a, d in zip(x.domains, schema[r])) or len(x.domains) != len(schema[r]):
            return f"relation {r} is not over the domains of its model"
        if x.data != facts[r]:
            return f"relation {r} holds {x.data}, expected {facts[r]}"
        idx = {d: {} for d in schema[r]}
        for items in facts[r]:
            for d, i in zip(schema[r], items):
                idx[d].setdefault(i, set()).add(items)
        if {d: {i: s for i, s in y.items()} for d, y in x.data_r.items()} != idx:
            return f"relation {r} indexes {x.data_r}, expected {idx}"
        want = {z: (len(v), sum(v)) for z, v in cells(facts[r], schema[r], asg).items()}
        have = {z: (c.N, c.s) for z, c in x.clusters.items()}
        if have != want:
            return f"relation {r} has cells {have}, expected {want}"
    ref = irm_score(schema, facts, asg, {d: m.domains[d].crp.alpha for d in m.domains})
    if abs(m.logp_score() - ref) > TOL * max(1, abs(ref)):
        return f"score {m.logp_score()}, rebuilt {ref}"
    return ""


def check_hirm(h, schema, facts):
    if {r: tuple(d) for r, d in h.schema.items()} != schema or set(h.crp.assignments) != set(schema):
        return f"schema {h.schema}, seated {h.crp.assignments}"
    e = check_crp(h.crp, "relation clustering")
    if e:
        return e
    if set(h.irms) != set(h.crp.tables):
        return f"submodels {sorted(h.irms)}, relation tables {sorted(h.crp.tables)}"
    for t, m in h.irms.items():
        mine = {r: schema[r] for r in schema if h.crp.assignments[r] == t}
        e = check_irm(m, mine, {r: facts[r] for r in mine})
        if e:
            return f"submodel {t}: {e}"
    ref = crp_score([len(s) for s in h.crp.tables.values()], h.crp.alpha) + sum(m.logp_score() for m in h.irms.values())
    if abs(h.logp_score() - ref) > TOL * max(1, abs(ref)):
        return f"score {h.logp_score()}, sum of parts {ref}"
    for r in schema:
        if h.relation_to_table(r) != h.crp.assignments[r] or h.relation(r) is not h.irms[h.crp.assignments[r]].relations[r]:
            return f"lookup of relation {r}"
    return ""


# ---- state spaces ----------------------------------------------------------------------
def partitions(items):
    """all assignments of items to tables, as restricted growth strings"""
    def rec(k, used):
        if k == len(items):
            yield {}
            return
        for t in range(used + 1):
            for rest in rec(k + 1, max(used, t + 1)):
                yield {items[k]: t, **rest}
    yield from rec(0, 0)


ITEMS = {"D": ["a", "b", "c"], "E": ["b", "d"]}      # the domains share a name
SHAPES = {
    "unary": {"R": ("D",)},
    "binary": {"R": ("D", "E")},
    "square": {"R": ("D", "D")},
    "two_unary": {"R": ("D",), "S": ("D",)},
    "unary_square": {"R": ("D",), "S": ("D", "D")},
    "binary_unary": {"R": ("D", "E"), "S": ("E",)},
    "ternary": {"R": ("D", "D", "E")},
}


def fact_sets(schema, nitems, maxf):
    """every set of up to maxf facts (r, items, value), entities taken in order"""
    cs = [(r, t) for r, ds in schema.items() for t in itertools.product(*[ITEMS[d][:nitems] for d in ds])]
    for k in range(maxf + 1):
        for sub in itertools.combinations(cs, k):
            for vals in itertools.product((0, 1), repeat=k):
                yield [(r, t, v) for (r, t), v in zip(sub, vals)]


RELABEL = {0: 0, 1: 1, 2: 2}
GAPS = {0: 3, 1: 0, 2: 7}


def build(schema, fs, assign, alphas, labels, prng):
    m = H.IRM({r: list(d) for r, d in schema.items()}, prng=prng)
    for d, a in alphas.items():
        m.domains[d].crp.alpha = a
    for d in assign:
        for i, t in assign[d].items():
            m.domains[d].incorporate(i, labels[t])
    for r, items, v in fs:
        m.incorporate(r, items, v)
    return m


def states(schema, nitems, maxf, alpha_sets, labels_sets):
    """(facts list, assignment, alphas, labels) for every fact set and clustering"""
    doms = sorted({d for ds in schema.values() for d in ds})
    for fs in fact_sets(schema, nitems, maxf):
        ents = {d: [] for d in doms}
        for r, t, _ in fs:
            for d, i in zip(schema[r], t):
                if i not in ents[d]:
                    ents[d].append(i)
        for combo in itertools.product(*[list(partitions(sorted(ents[d], key=str))) for d in doms]):
            for alphas in alpha_sets:
                for labels in labels_sets:
                    yield fs, dict(zip(doms, combo)), {d: alphas[i % len(alphas)] for i, d in enumerate(doms)}, labels


def facts_of(schema, fs):
    f = {r: {} for r in schema}
    for r, t, v in fs:
        f[r][t] = v
    return f


def describe(schema, fs, assign, alphas, labels):
    return f"schema {schema} facts {fs} clusters {({d: {i: labels[t] for i, t in a.items()} for d, a in assign.items()})} alphas {alphas}"
