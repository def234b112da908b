"""P01-P06: the checks of the Python package (see pycore.py)."""
import os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pycore import *
PROPS = {}


def shard(prop, name):
    def deco(f):
        PROPS.setdefault(prop, []).append((name, f))
        return f
    return deco


def bad(sh, key, detail, trace):
    sh.violation(f"{PROP}:{sh.name}:{key}", detail, trace)


# ==== P01: histories of a relational model ================================================
def p01_shape(sh, schema0, nitems, depth, cap):
    """breadth-first over real operations; every outcome of every draw"""
    start = H.IRM({r: list(d) for r, d in schema0.items()}, prng=Chooser())
    first = sorted(schema0)
    seen, level, stop = set(), [(start, dict(schema0), {r: {} for r in schema0}, ())], False
    for step in range(depth + 1):
        nxt = []
        for m, schema, facts, hist in level:
            key = (json.dumps(snap_irm(m), default=str, sort_keys=True))
            if key in seen:
                continue
            seen.add(key)
            sh.states += 1
            if len(seen) > cap:
                stop = True
                break
            e = check_irm(m, schema, facts)
            sh.evaluations += 1
            if e:
                bad(sh, "state", e, hist)
                if sh.too_many():
                    return
                continue
            if step == depth:
                continue
            ops = []
            for r, ds in schema.items():
                for t in itertools.product(*[ITEMS[d][:nitems] for d in ds]):
                    if t not in facts[r]:
                        ops += [("add", r, t, v) for v in (0, 1)]
            for d in m.domains:
                ops += [("move", d, i) for i in ITEMS[d][:nitems] if i in m.domains[d].items]
                if m.domains[d].crp.N:
                    ops.append(("alpha", d))
            ops += [("remove", r) for r in schema] + [("insert", r) for r in first if r not in schema]
            for op in ops:
                def body(c):
                    x = copy.deepcopy((m, schema, facts))
                    mm = x[0]
                    set_prng(mm, c)
                    apply_irm(op, mm, x[1], x[2], schema0, c)
                    return x
                for c, res in runs(body):
                    sh.transitions += 1
                    h = hist + ((op, tuple(a for a, _ in c.log)),)
                    if isinstance(res, Exception):
                        bad(sh, f"exception-{op[0]}", f"{type(res).__name__}: {res}", h)
                        continue
                    nxt.append((*res, h))
        if stop:
            sh.cap(f"{sh.name}: first {cap} states of depth {step}")
            break
        level = nxt
    if level:
        sh.sample(str(level[len(level) // 2][3]))
    sh.traces += len(level)


def set_prng(m, c):
    m.prng = c
    for d in m.domains.values():
        d.prng = c
        d.crp.prng = c
    for r in m.relations.values():
        r.prng = c


def apply_irm(op, m, schema, facts, schema0, c):
    if op[0] == "add":
        m.incorporate(op[1], op[2], op[3])
        facts[op[1]][op[2]] = op[3]
    elif op[0] == "move":
        m.transition_cluster_assignment_item(op[1], op[2])
    elif op[0] == "alpha":      # which grid point is drawn is P02's concern
        c.greedy = True
        m.transition_crp_alphas([op[1]])
        c.greedy = False
    elif op[0] == "remove":
        m.remove_relation(op[1])
        del schema[op[1]], facts[op[1]]
    elif op[0] == "insert":
        m.add_relation(op[1], list(schema0[op[1]]))
        schema[op[1]] = tuple(schema0[op[1]])
        facts[op[1]] = {}


for _n, _s in SHAPES.items():
    @shard("P01", _n)
    def _(sh, _n=_n, _s=_s):
        p01_shape(sh, _s, 2, 5 if THOROUGH else 4, 12000 if THOROUGH else 900)


@shard("P01", "leaves")
def _(sh):
    """cell model and seating process alone: every history against the multiset it holds"""
    depth = 7 if THOROUGH else 6
    for a, b in ((1, 1), (2.0, 0.5)):
        for n in range(depth + 1):
            for ops in itertools.product(("+0", "+1", "-0", "-1"), repeat=n):
                x, held, ok = H.BetaBernoulli(alpha=a, beta=b), [], True
                for o in ops:
                    v = int(o[1])
                    if o[0] == "-" and v not in held:
                        ok = False
                        break
                    (x.incorporate if o[0] == "+" else x.unincorporate)(v)
                    held.append(v) if o[0] == "+" else held.remove(v)
                if not ok:
                    continue
                sh.states += 1
                sh.transitions += n
                sh.evaluations += 4
                p = [x.logp(0), x.logp(1)]
                if abs(x.logp_score() - bb_score(held, a, b)) > TOL or abs(p[0] - bb_pred(held, 0, a, b)) > TOL or abs(p[1] - bb_pred(held, 1, a, b)) > TOL:
                    bad(sh, "bernoulli", f"score {x.logp_score()} predictive {p}", (a, b, ops))
                if x.logp(2) != -math.inf or (x.N, x.s) != (len(held), sum(held)):
                    bad(sh, "bernoulli-rest", f"N={x.N} s={x.s}", (a, b, ops))
                law = {}
                def body(c):
                    x.prng = c
                    return x.sample()
                for c, r in runs(body):
                    law[r] = law.get(r, 0) + c.p
                if set(law) - {0, 1} or any(abs(math.log(law[v]) - p[v]) > TOL for v in law) or len(law) != 2:
                    bad(sh, "bernoulli-sample", f"{law} against {p}", (a, b, ops))
    for alpha in (0.5, 1, 3.0):
        for lab in (RELABEL, GAPS):
            for k in range(4):
                for perm in itertools.permutations("abcd"[:k]):
                    for asg in partitions(list(perm)):
                        c = H.CRP(alpha=alpha)
                        for i in perm:
                            c.incorporate(i, lab[asg[i]])
                        sh.states += 1
                        e = crp_facts(c, {i: lab[t] for i, t in asg.items()}, alpha)
                        for gone in perm:
                            c2 = copy.deepcopy(c)
                            c2.unincorporate(gone)
                            rest = {i: lab[t] for i, t in asg.items() if i != gone}
                            e = e or crp_facts(c2, rest, alpha)
                            # weights offered for a seated customer: those after unseating it
                            w = c.tables_weights_gibbs(lab[asg[gone]])
                            want = {t: list(rest.values()).count(t) for t in set(rest.values())}
                            fresh = [t for t in w if t not in want]
                            sh.evaluations += 1
                            if len(fresh) != 1 or abs(w[fresh[0]] - alpha) > TOL or any(w[t] != want[t] for t in want):
                                e = e or f"weights offered to {gone}: {w}, others {rest}"
                        if e:
                            bad(sh, "crp", e, (alpha, perm, asg))


def crp_facts(c, asg, alpha):
    e = check_crp(c, "crp")
    if e or c.assignments != asg:
        return e or f"assignments {c.assignments}, expected {asg}"
    sz = {}
    for t in asg.values():
        sz[t] = sz.get(t, 0) + 1
    if abs(c.logp_score() - crp_score(list(sz.values()), alpha)) > TOL:
        return f"score {c.logp_score()} of sizes {sz}, alpha {alpha}"
    w = c.tables_weights()
    fresh = [t for t in w if t not in sz]
    if len(fresh) != 1 or any(t not in w for t in sz):
        return f"offers {w} with tables {sz}"
    n = len(asg)
    for t in w:
        want = math.log((sz.get(t, alpha)) / (n + alpha))
        if abs(c.logp(t) - want) > TOL:
            return f"logp({t}) = {c.logp(t)}, expected {want} (sizes {sz}, alpha {alpha})"
    if c.logp(99) != -math.inf:
        return f"logp of an unoffered table {c.logp(99)}"
    law = {}
    def body(ch):
        c.prng = ch
        return c.sample()
    for ch, r in runs(body):
        law[r] = law.get(r, 0) + ch.p
    if set(law) != set(w) or any(abs(math.log(law[t]) - c.logp(t)) > TOL for t in law):
        return f"drawn with {law}, weights {w}"
    return ""


# ==== P02: inference steps draw from exact conditionals ==================================
def conditional(schema, facts, asg, alphas, d, item):
    """table (or None for a fresh one) -> probability"""
    rest = {i: t for i, t in asg[d].items() if i != item}
    out = {}
    for t in sorted(set(rest.values())) + [None]:
        a = {**asg, d: {**rest, item: -1 if t is None else t}}
        out[t] = irm_score(schema, facts, a, alphas)
    z = lse(list(out.values()))
    return {t: math.exp(v - z) for t, v in out.items()}


def approx(doms, facts, asg, d, item, t):
    """the fast approximation: each fact on its own, against the other facts of the target cell"""
    s = 0.0
    for i, v in facts.items():
        if (d, item) in zip(doms, i):
            z = tuple(t if (dd, x) == (d, item) else asg[dd][x] for dd, x in zip(doms, i))
            s += bb_pred([u for j, u in facts.items() if j != i and tuple(asg[dd][x] for dd, x in zip(doms, j)) == z], v)
    return s


def p02_item(sh, schema, nitems, maxf):
    for fs, assign, alphas, labels in states(schema, nitems, maxf, [(1,), (0.4, 2.5)], [RELABEL, GAPS] if maxf < 3 else [GAPS]):
        facts = facts_of(schema, fs)
        base = build(schema, fs, assign, alphas, labels, Chooser())
        asg = assign_of(base)
        before = snap_irm(base)
        sh.states += 1
        if sh.states % 997 == 1:
            sh.sample(describe(schema, fs, assign, alphas, labels))
        for d in base.domains:
            for item in sorted(base.domains[d].items, key=str):
                want = conditional(schema, facts, asg, alphas, d, item)
                for r in schema:
                    if item in base.relations[r].data_r.get(d, {}):
                        for t in base.domains[d].tables_weights_gibbs(item):
                            a = base.relations[r].logp_gibbs_approx(base.domains[d], item, t)
                            w = approx(schema[r], facts[r], asg, d, item, t)
                            if abs(a - w) > 1e-9:
                                bad(sh, "approximate", f"table {t}: {a}, fact by fact {w}", describe(schema, fs, assign, alphas, labels) + f" {r} {item}")
                got, trace = {}, describe(schema, fs, assign, alphas, labels) + f" re-clustering {item} of {d}"
                def body(c):
                    m = copy.deepcopy(base)
                    set_prng(m, c)
                    m.transition_cluster_assignment_item(d, item)
                    return m
                for c, m in runs(body):
                    sh.transitions += 1
                    if isinstance(m, Exception):
                        bad(sh, "exception", f"{type(m).__name__}: {m}", trace)
                        return
                    e = check_irm(m, schema, facts)
                    now = assign_of(m)
                    for dd in now:
                        for i in now[dd]:
                            if (dd, i) != (d, item) and now[dd][i] != asg[dd][i]:
                                e = e or f"entity {i} of {dd} moved as well"
                    if e:
                        bad(sh, "after", e, trace)
                        continue
                    t = now[d][item]
                    others = {tt for i, tt in asg[d].items() if i != item}
                    t = t if t in others else None
                    got[t] = got.get(t, 0) + c.p
                sh.evaluations += len(want)
                if set(got) != set(want) or any(abs(got[t] - want[t]) > 1e-9 for t in want):
                    bad(sh, "law", f"drawn with {got}, exact conditional {want}", trace)
                    if sh.too_many():
                        return
        if snap_irm(base) != before:
            bad(sh, "shared-state", "copies share state", describe(schema, fs, assign, alphas, labels))


for _n, _i, _f in (("unary", 3, 3), ("binary", 2, 3), ("square", 2, 3), ("two_unary", 2, 3), ("unary_square", 2, 2), ("binary_unary", 2, 2), ("ternary", 2, 2)):
    @shard("P02", _n)
    def _(sh, _n=_n, _i=_i, _f=_f):
        p02_item(sh, SHAPES[_n], _i, _f + (1 if THOROUGH else 0))


@shard("P02", "sweep")
def _(sh):
    """a whole sweep: the composition of single moves, each entity once, every order equally likely"""
    for n, ni, nf in (("two_unary", 2, 2), ("square", 2, 2), ("binary", 2, 2), ("unary", 3, 3)):
        schema = SHAPES[n]
        for k, (fs, assign, alphas, labels) in enumerate(states(schema, ni, nf, [(0.4, 2.5)], [GAPS])):
            if len(fs) < nf and not THOROUGH:
                continue
            facts = facts_of(schema, fs)
            base = build(schema, fs, assign, alphas, labels, Chooser())
            asg = assign_of(base)
            sh.states += 1
            got = {}
            def body(c):
                m = copy.deepcopy(base)
                set_prng(m, c)
                m.transition_cluster_assignments()
                return m
            trace = describe(schema, fs, assign, alphas, labels) + " sweep"
            for c, m in runs(body):
                sh.transitions += 1
                if isinstance(m, Exception):
                    bad(sh, "exception", f"{type(m).__name__}: {m}", trace)
                    return
                e = check_irm(m, schema, facts)
                if e:
                    bad(sh, "after", e, trace)
                key = tuple(sorted((d, part(a)) for d, a in assign_of(m).items()))
                got[key] = got.get(key, 0) + c.p
            want = {}
            doms = sorted(asg)
            orders = [[(d, i) for d, p in zip(do, ps) for i in p]
                      for do in itertools.permutations(doms)
                      for ps in itertools.product(*[list(itertools.permutations(sorted(asg[d], key=str))) for d in do])]
            for order in orders:
                dist = {json.dumps([]): None}
                cur = [(1.0 / len(orders), asg)]
                for d, i in order:
                    new = []
                    for p, a in cur:
                        for t, q in conditional(schema, facts, a, alphas, d, i).items():
                            tt = max(list(a[d].values()) + [0]) + 1 if t is None else t
                            new.append((p * q, {**a, d: {**a[d], i: tt}}))
                    cur = new
                for p, a in cur:
                    key = tuple(sorted((d, part(x)) for d, x in a.items()))
                    want[key] = want.get(key, 0) + p
            sh.evaluations += len(want)
            if any(abs(got.get(x, 0) - want.get(x, 0)) > 1e-9 for x in set(got) | set(want)):
                bad(sh, "law", f"{got} against {want}", trace)
                if sh.too_many():
                    return


@shard("P02", "alphas")
def _(sh):
    """concentrations: each grid point in proportion to the exponentiated score; an empty domain is left alone"""
    for k in range(4):
        for asg in partitions(list("abc"[:k])):
            for a0 in (0.3, 1, 4.0):
                def body(c):
                    m = H.IRM({"R": ["D"]}, prng=c)
                    m.domains["D"].crp.alpha = a0
                    for i, t in asg.items():
                        m.domains["D"].incorporate(i, t)
                    m.transition_crp_alphas(["D"])
                    return m
                got = []
                sh.states += 1
                for c, m in runs(body):
                    sh.transitions += 1
                    if isinstance(m, Exception):
                        bad(sh, "exception", f"{type(m).__name__}: {m}", (asg, a0))
                        break
                    if m.domains["D"].crp.assignments != asg:
                        bad(sh, "moved", str(m.domains["D"].crp), (asg, a0))
                    got.append((m.domains["D"].crp.alpha, c.p))
                else:
                    z = None
                    if k == 0:
                        ok = all(a > 0 and math.isfinite(a) for a, _ in got)
                    else:
                        sc = [crp_score(sizes(asg), a) for a, _ in got]
                        z = lse(sc)
                        lo, hi = min(a for a, _ in got), max(a for a, _ in got)
                        ok = len(got) > 1 and all(abs(p - math.exp(s - z)) < 1e-9 for (_, p), s in zip(got, sc)) and abs(lo - 1 / k) < 1e-9 and abs(hi - (k + 1)) < 1e-9
                    sh.evaluations += len(got)
                    if not ok:
                        bad(sh, "alpha-law", f"{got[:6]}", (asg, a0))


@shard("P02", "alphas of all domains")
def _(sh):
    """transition_crp_alphas() without arguments updates every domain once, independently"""
    for sizes_ in itertools.product(range(3), repeat=2):
        for seats in itertools.product(*[list(partitions(list("ab"[:k]))) for k in sizes_]):
            def make(c):
                m = H.IRM({"R": ["D", "E"]}, prng=c)
                for dn, asg in zip("DE", seats):
                    m.domains[dn].crp.alpha = 2.5
                    for i, t in asg.items():
                        m.domains[dn].incorporate(i, t)
                return m
            one = {}
            for dn in "DE":
                law = {}
                for c, m in runs(lambda c: (lambda m: (m.transition_crp_alphas([dn]), m)[1])(make(c))):
                    sh.transitions += 1
                    if isinstance(m, Exception):
                        bad(sh, "exception", f"{type(m).__name__}: {m}", seats)
                        return
                    law[m.domains[dn].crp.alpha] = law.get(m.domains[dn].crp.alpha, 0) + c.p
                one[dn] = law
            got = {}
            for c, m in runs(lambda c: (lambda m: (m.transition_crp_alphas(), m)[1])(make(c))):
                sh.transitions += 1
                if isinstance(m, Exception):
                    bad(sh, "exception", f"{type(m).__name__}: {m}", seats)
                    return
                k = (m.domains["D"].crp.alpha, m.domains["E"].crp.alpha)
                got[k] = got.get(k, 0) + c.p
            want = {(a, b): p * q for a, p in one["D"].items() for b, q in one["E"].items()}
            sh.states += 1
            sh.evaluations += len(want)
            if any(abs(got.get(k, 0) - want.get(k, 0)) > 1e-9 for k in set(got) | set(want)):
                bad(sh, "alphas-of-all", f"{len(got)} outcomes, expected {len(want)}", seats)


# ==== P03: predictive probabilities ======================================================
def placements(asg, alpha):
    """table -> log probability for an unseen entity; None is a fresh one"""
    n = len(asg)
    out = {t: math.log(list(asg.values()).count(t) / (n + alpha)) for t in set(asg.values())}
    out[None] = math.log(alpha / (n + alpha))
    return out


def joint(schema, facts, asg, alphas, obs):
    """each unseen entity placed once; facts independent given the placement"""
    new = sorted({(d, i) for r, t, _ in obs for d, i in zip(schema[r], t) if i not in asg[d]}, key=str)
    tot = []
    for combo in itertools.product(*[list(placements(asg[d], alphas[d]).items()) for d, _ in new]):
        where = {n: t for n, (t, _) in zip(new, combo)}
        lp = sum(p for _, p in combo)
        for r, t, v in obs:
            z = tuple(asg[d][i] if i in asg[d] else where[(d, i)] for d, i in zip(schema[r], t))
            lp += bb_pred(cells(facts[r], schema[r], asg).get(z, []), v)
        tot.append(lp)
    return lse(tot)


# names of unseen entities: of their own, one name in both domains, names that are seen in the other domain
FRESH = [{"D": "zz", "E": 77}, {"D": "zz", "E": "zz"}, {"D": "d", "E": "a"}]


def p03(sh, schema, nitems, maxf, nobs, fresh):
    for fs, assign, alphas, labels in states(schema, nitems, maxf, [(0.4, 2.5)], [GAPS]):
        facts = facts_of(schema, fs)
        m = build(schema, fs, assign, alphas, labels, Chooser())
        asg = assign_of(m)
        before = snap_irm(m)
        sh.states += 1
        if sh.states % 499 == 1:
            sh.sample(describe(schema, fs, assign, alphas, labels))
        one = []
        for r, ds in schema.items():
            for t in itertools.product(*[sorted(asg[d], key=str) + [fresh[d]] for d in ds]):
                if any(list(zip(ds, t)).count((d, fresh[d])) > 1 for d in ds) and False:
                    continue
                one.append((r, t))
        for r, t in one:
            p = [m.relations[r].logp(t, v) for v in (0, 1)]
            twice = any(list(zip(schema[r], t)).count((d, fresh[d])) > 1 for d in schema[r])
            sh.evaluations += 2
            trace = describe(schema, fs, assign, alphas, labels) + f" fact {r}{t}"
            if abs(lse(p)) > 1e-9:
                bad(sh, "normalised", f"predictives {p}", trace)
            for v in (0, 1):
                if twice:       # one unseen entity in two slots: outside the documented scope of Relation.logp
                    continue
                w = joint(schema, facts, asg, alphas, [(r, t, v)])
                if abs(p[v] - w) > 1e-9:
                    bad(sh, "fact", f"logp {p[v]}, mixture {w}", trace)
        if sh.too_many():
            return
        for k in range(1, nobs + 1):
            for sub in itertools.combinations(one, k):
                for vals in itertools.product((0, 1), repeat=k) if k < 3 else [(0, 1, 1)]:
                    obs = [(r, t, v) for (r, t), v in zip(sub, vals)]
                    got = m.logp(obs)
                    w = joint(schema, facts, asg, alphas, obs)
                    sh.transitions += 1
                    if abs(got - w) > 1e-9:
                        bad(sh, "joint", f"logp {got}, placements {w}", describe(schema, fs, assign, alphas, labels) + f" facts {obs}")
                        if sh.too_many():
                            return
        if snap_irm(m) != before:
            bad(sh, "changed", "asking for probabilities changed the model", describe(schema, fs, assign, alphas, labels))


for _n, _i, _f, _o in (("unary", 2, 2, 2), ("binary", 2, 2, 2), ("square", 2, 2, 2), ("unary_square", 2, 2, 2), ("binary_unary", 2, 1, 2), ("ternary", 2, 1, 2)):
    for _k, _fr in enumerate(FRESH if len({d for ds in SHAPES[_n].values() for d in ds}) > 1 else FRESH[:1]):
        @shard("P03", f"{_n} {_k}")
        def _(sh, _n=_n, _i=_i, _f=_f, _o=_o, _fr=_fr):
            p03(sh, SHAPES[_n], _i, _f + (DEEP + THOROUGH if _n != "ternary" else DEEP), _o, _fr)


@shard("P03", "hierarchical")
def _(sh):
    for n, fresh in (("two_unary", FRESH[0]), *(("binary_unary", f) for f in FRESH)):
        schema = SHAPES[n]
        rs = sorted(schema)
        for rel in partitions(rs):
            for fs in fact_sets(schema, 2, 2):
                def body(c):
                    h = H.HIRM({r: list(d) for r, d in schema.items()}, prng=c)
                    return h
                h = None
                for c, x in runs(body):     # an execution that seats the relations as wanted
                    if isinstance(x, Exception):
                        raise x
                    if (x.crp.assignments[rs[0]] == x.crp.assignments[rs[1]]) == (rel[rs[0]] == rel[rs[1]]):
                        h = x
                        break
                c.script, c.greedy = [], True
                for r, t, v in fs:
                    h.incorporate(r, t, v)
                before = snap_hirm(h)
                facts = facts_of(schema, fs)
                sh.states += 1
                one = [(r, t) for r in rs for t in itertools.product(*[ITEMS[d][:2] + [fresh[d]] for d in schema[r]])]
                for k in (1, 2):
                    for sub in itertools.combinations(one, k):
                        obs = [(r, t, 1 - i % 2) for i, (r, t) in enumerate(sub)]
                        got, want = h.logp(obs), 0.0
                        for tb, m in h.irms.items():
                            mine = [o for o in obs if h.crp.assignments[o[0]] == tb]
                            if mine:
                                want += joint({r: schema[r] for r in m.relations}, facts, assign_of(m), {d: x.crp.alpha for d, x in m.domains.items()}, mine)
                        sh.evaluations += 1
                        if abs(got - want) > 1e-9:
                            bad(sh, "joint", f"logp {got}, product of submodels {want}", f"{before} facts {obs}")
                            if sh.too_many():
                                return
                if snap_hirm(h) != before:
                    bad(sh, "changed", "asking for probabilities changed the model", str(before))


# ==== P04: hierarchical models ===========================================================
def set_prng_h(h, c):
    h.prng = c
    h.crp.prng = c
    for m in h.irms.values():
        set_prng(m, c)


def p04(sh, schema0, depth, cap):
    c0 = Chooser()
    level = [(H.HIRM({}, prng=c0), {}, {}, ())]
    seen = set()
    stop = False
    for step in range(depth + 1):
        nxt = []
        for h, schema, facts, hist in level:
            key = json.dumps([sorted(snap_hirm(h)["irms"].items()), snap_hirm(h)["crp"]], default=str)
            if key in seen:
                continue
            seen.add(key)
            sh.states += 1
            e = check_hirm(h, schema, facts)
            sh.evaluations += 1
            if e:
                bad(sh, "state", e, hist)
                if sh.too_many():
                    return
                continue
            if step == depth:
                continue
            if len(seen) > cap:
                stop = True
                break
            ops = [("insert", r) for r in schema0 if r not in schema]
            for r, ds in schema.items():
                for t in itertools.product(*[ITEMS[d][:2] for d in ds]):
                    if t not in facts[r] and len(facts[r]) < 2:
                        ops.append(("add", r, t, len(facts[r]) % 2))
                ops += [("move", r), ("remove", r)]
                ops += [("set", r, t) for t in list(h.crp.tables) + [max(h.crp.tables) + 2] if t != h.crp.assignments[r]]
                m = h.relation_to_irm(r)
                ops += [("item", r, d, i) for d in set(ds) for i in ITEMS[d][:2] if i in m.domains[d].items]
            for op in ops:
                def body(c):
                    hh, sc, fa = copy.deepcopy((h, schema, facts))
                    set_prng_h(hh, c)
                    if op[0] == "insert":
                        hh.add_relation(op[1], list(schema0[op[1]]))
                        sc[op[1]] = tuple(schema0[op[1]])
                        fa[op[1]] = {}
                    elif op[0] == "add":
                        hh.incorporate(op[1], op[2], op[3])
                        fa[op[1]][op[2]] = op[3]
                    elif op[0] == "remove":
                        hh.remove_relation(op[1])
                        del sc[op[1]], fa[op[1]]
                    elif op[0] == "move":
                        hh.transition_cluster_assignment_relation(op[1])
                    elif op[0] == "set":
                        hh.set_cluster_assignment_gibbs(op[1], op[2])
                        if hh.crp.assignments[op[1]] != op[2]:
                            raise RuntimeError("harness: not at the requested table")
                    elif op[0] == "item":
                        hh.relation_to_irm(op[1]).transition_cluster_assignment_item(op[2], op[3])
                    return hh, sc, fa
                ex = []
                for c, res in runs(body):
                    sh.transitions += 1
                    hh = hist + ((op, tuple(a for a, _ in c.log)),)
                    if isinstance(res, Exception):
                        bad(sh, f"exception-{op[0]}", f"{type(res).__name__}: {res}", hh)
                        continue
                    ex.append((tuple(a for a, _ in c.log), c.p, res))
                    nxt.append((*res, hh))
                if op[0] == "move":
                    law_of_move(sh, h, schema, op[1], ex, hist)
                    if sh.too_many():
                        return
        if stop:
            sh.cap(f"{sh.name}: first {cap} states of depth {step}")
            break
        level = nxt
    if level:
        sh.sample(str(level[len(level) // 2][3]))
    sh.traces += len(level)


def law_of_move(sh, h, schema, r, ex, hist):
    """executions that agree up to the last draw: their odds are those of the resulting states"""
    groups = {}
    for choices, p, (hh, _, _) in ex:
        groups.setdefault(choices[:-1], []).append((p, hh))
    others = {t for rr, t in h.crp.assignments.items() if rr != r}
    for pre, g in groups.items():
        sh.evaluations += len(g)
        landed = {}
        for p, hh in g:
            t = hh.crp.assignments[r]
            landed.setdefault(t if t in others else None, []).append((p, hh))
        if set(landed) != others | {None} or any(len(v) != 1 for v in landed.values()):
            bad(sh, "candidates", f"candidates {sorted(map(str, landed))}, other submodels {sorted(others)}", hist + (("move", r), pre))
            continue
        sc = {t: crp_score([len(s) for s in v[0][1].crp.tables.values()], v[0][1].crp.alpha) + v[0][1].relation(r).logp_score() for t, v in landed.items()}
        z, zp = lse(list(sc.values())), sum(v[0][0] for v in landed.values())
        for t, v in landed.items():
            if abs(v[0][0] / zp - math.exp(sc[t] - z)) > 1e-9:
                bad(sh, "law", f"submodel {t} drawn with {v[0][0] / zp}, size and fit give {math.exp(sc[t] - z)}", hist + (("move", r), pre))


for _n in ("two_unary", "unary_square", "binary_unary"):
    @shard("P04", _n)
    def _(sh, _n=_n):
        p04(sh, SHAPES[_n], 6 if THOROUGH else 5, 9000 if THOROUGH else 700)


@shard("P04", "three")
def _(sh):
    p04(sh, {"R": ("D",), "S": ("D",), "T": ("D", "E")}, 6 if THOROUGH else 5, 9000 if THOROUGH else 700)

def hkey(h):
    """the clustering of relations and of each submodel's entities, without labels"""
    groups = {}
    for r, t in h.crp.assignments.items():
        groups.setdefault(t, []).append(r)
    out = []
    for t, rs in groups.items():
        m = h.irms[t]
        doms = []
        for d in sorted(m.domains):
            g = {}
            for i, k in m.domains[d].crp.assignments.items():
                g.setdefault(k, []).append(str(i))
            doms.append((d, tuple(sorted(tuple(sorted(x)) for x in g.values()))))
        out.append((tuple(sorted(rs)), tuple(doms)))
    return tuple(sorted(out))


@shard("P04", "sweep")
def _(sh):
    """a sweep over the relations: each moved once, in some fixed or in a uniformly drawn order"""
    for schema in ({"R": ["D"], "S": ["D"]}, {"R": ["D"], "S": ["D", "D"]}, {"R": ["D"], "S": ["E"]}):
        for rel in partitions(sorted(schema)):
            for nf in range(1, 4 if THOROUGH else 3):
                def make(c):
                    c.greedy = True
                    h = H.HIRM(schema, prng=c)
                    for r, t in sorted(rel.items()):
                        if h.crp.assignments[r] != 20 + t:
                            h.set_cluster_assignment_gibbs(r, 20 + t)
                    for r in schema:
                        for k, it in enumerate(itertools.islice(itertools.product(*[["a", "b"]] * len(schema[r])), nf)):
                            h.incorporate(r, it, k % 2)
                    h.crp.alpha = 0.7
                    c.greedy = False
                    c.p = 1.0
                    return h
                def law(moves):
                    got = {}
                    def body(c):
                        h = make(c)
                        moves(h)
                        return h
                    for c, h in runs(body):
                        sh.transitions += 1
                        if isinstance(h, Exception):
                            raise h
                        got[hkey(h)] = got.get(hkey(h), 0) + c.p
                    return got
                sh.states += 1
                got = law(lambda h: h.transition_cluster_assignments())
                orders = [law(lambda h: [h.transition_cluster_assignment_relation(r) for r in o]) for o in itertools.permutations(sorted(schema))]
                mix = {}
                for o in orders:
                    for k, p in o.items():
                        mix[k] = mix.get(k, 0) + p / len(orders)
                sh.evaluations += len(got)
                near = lambda a, b: all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-9 for k in set(a) | set(b))
                if not any(near(got, w) for w in orders + [mix]):
                    bad(sh, "sweep-law", f"{len(got)} outcomes: {list(got.items())[:3]}", (schema, rel, nf))


@shard("P04", "alpha")
def _(sh):
    for rel in partitions(["R", "S", "T"]):
        for a0 in (0.3, 2.0):
            def body(c):
                c.greedy = True
                h = H.HIRM({r: ["D"] for r in rel}, prng=c)
                for r, t in sorted(rel.items()):
                    if h.crp.assignments[r] != 10 + t:
                        h.set_cluster_assignment_gibbs(r, 10 + t)
                h.crp.alpha = a0
                c.greedy = False
                c.p = 1.0
                h.transition_crp_alpha()
                return h
            got = []
            for c, h in runs(body):
                sh.transitions += 1
                if isinstance(h, Exception):
                    bad(sh, "exception", f"{type(h).__name__}: {h}", (rel, a0))
                    break
                got.append((h.crp.alpha, c.p))
                e = check_hirm(h, {r: ("D",) for r in rel}, {r: {} for r in rel})
                if e:
                    bad(sh, "state", e, (rel, a0))
            sh.states += 1
            sc = [crp_score(sizes(rel), a) for a, _ in got]
            if not got or any(abs(p - math.exp(s - lse(sc))) > 1e-9 for (_, p), s in zip(got, sc)):
                bad(sh, "alpha-law", f"{got[:5]}", (rel, a0))


# ==== P05: files and dictionaries ========================================================
def norm(o):
    return json.loads(json.dumps(o, default=str))


@shard("P05", "dict_int")
def _(sh):
    ITEMS.update({"D": [1, 0, 2], "E": [0, 1]})     # this process has no other use for the names
    p05_dict(sh)
    ITEMS.update(saved_items)


saved_items = dict(ITEMS)


@shard("P05", "dict")
def p05_dict(sh):
    """to_dict -> JSON text -> from_dict: the same model, and the same behaviour afterwards"""
    for n in ("unary", "binary", "square", "binary_unary"):
        schema = SHAPES[n]
        for fs, assign, alphas, labels in states(schema, 2, 2 + THOROUGH + DEEP, [(0.4, 2.5)], [RELABEL, GAPS]):
            m = build(schema, fs, assign, alphas, labels, Chooser())
            sh.states += 1
            trace = describe(schema, fs, assign, alphas, labels)
            if sh.states % 499 == 1:
                sh.sample(trace)
            for js in (True, False):
                c = Chooser()
                d = IO.to_dict_IRM(m)
                d = json.loads(json.dumps(d)) if js else copy.deepcopy(d)
                g0 = GLOBAL_DRAWS[0]
                x = IO.from_dict_IRM(d, prng=c)
                sh.evaluations += 1
                sh.traces += 1
                if norm(snap_irm(x)) != norm(snap_irm(m)):
                    bad(sh, "irm", f"{snap_irm(x)} against {snap_irm(m)}", trace)
                    continue
                e = check_irm(x, {r: tuple(y) for r, y in x.schema.items()}, facts_of(schema, fs))
                if e:
                    bad(sh, "irm-rules", e, trace)
                    continue
                c.greedy = True
                for dd in sorted(x.domains):    # behaves as before, drawing from the generator it was given
                    for i in sorted(x.domains[dd].items, key=str):
                        x.transition_cluster_assignment_item(dd, i)
                for r, ds in schema.items():
                    x.incorporate(r, tuple({"D": "zz", "E": 77}[y] for y in ds), 1)
                x.transition_crp_alphas([])
                for dd in sorted(x.domains):
                    x.transition_crp_alphas([dd])
                if GLOBAL_DRAWS[0] != g0:
                    bad(sh, "prng", f"{GLOBAL_DRAWS[0] - g0} draws did not come from the generator given to from_dict_IRM", trace)
                    GLOBAL_DRAWS[0] = g0
                if sh.too_many():
                    return


def hirms(schema, nf):
    """every relation clustering and every fact set; entity seating by every outcome of the draws (bounded)"""
    rs = sorted(schema)
    for rel in partitions(rs):
        for fs in fact_sets(schema, 2, nf):
            def body(c):
                c.greedy = True
                h = H.HIRM({r: list(d) for r, d in schema.items()}, prng=c)
                for r in rs:
                    if h.crp.assignments[r] != 20 + rel[r]:
                        h.set_cluster_assignment_gibbs(r, 20 + rel[r])
                c.greedy = False
                for r, t, v in fs:
                    h.incorporate(r, t, v)
                return h
            for gaps in (False, True):
                for c, h in runs(body):
                    if isinstance(h, Exception):
                        raise h
                    c.greedy = True
                    if gaps:        # the same model with other table numbers
                        for m in h.irms.values():
                            for d, x in m.domains.items():
                                for i in sorted(x.items, key=str):
                                    t = 10 + GAPS[x.get_cluster_assignment(i)]
                                    for rel_ in m.relations.values():
                                        if x in rel_.domains and rel_.has_observation(x, i):
                                            rel_.set_cluster_assignment_gibbs(x, i, t)
                                    x.set_cluster_assignment_gibbs(i, t)
                    yield rel, fs, h
                    c.greedy = False


@shard("P05", "dict_hirm")
def _(sh):
    for n in ("two_unary", "binary_unary"):
        schema = SHAPES[n]
        for rel, fs, h in hirms(schema, 2):
            h.crp.alpha = 0.7
            sh.states += 1
            trace = f"{schema} {rel} {fs}"
            c = Chooser()
            x = IO.from_dict_HIRM(json.loads(json.dumps(IO.to_dict_HIRM(h))), prng=c)
            sh.evaluations += 1
            if norm(snap_hirm(x)) != norm(snap_hirm(h)):
                bad(sh, "hirm", f"{snap_hirm(x)} against {snap_hirm(h)}", trace)
                continue
            g0 = GLOBAL_DRAWS[0]
            c.greedy = True
            x.transition_cluster_assignments()
            for r in schema:
                x.incorporate(r, tuple({"D": "zz", "E": 77}[y] for y in schema[r]), 1)
            x.transition_crp_alpha()
            f = facts_of(schema, fs)
            for r in schema:
                f[r][tuple({"D": "zz", "E": 77}[y] for y in schema[r])] = 1
            e = check_hirm(x, schema, f)
            if e:
                bad(sh, "hirm-rules", e, trace)
            if GLOBAL_DRAWS[0] != g0:
                bad(sh, "prng", f"{GLOBAL_DRAWS[0] - g0} draws did not come from the generator given to from_dict_HIRM", trace)
            if sh.too_many():
                return


def put(name, text):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def files(schema, fs):
    return (put("m.schema", "".join(f"bernoulli {r} {' '.join(d)}\n" for r, d in schema.items())),
            put("m.obs", "".join(f"{v} {r} {' '.join(map(str, t))}\n" for r, t, v in fs)))


@shard("P05", "text")
def _(sh):
    """cluster files: every clustering, written, read independently and loaded again"""
    for n in ("unary", "binary", "square", "binary_unary"):
        schema = SHAPES[n]
        for fs, assign, alphas, labels in states(schema, 2, (3 if n == "unary" else 2) + THOROUGH + DEEP, [(1,)], [RELABEL, GAPS]):
            m = build(schema, fs, assign, alphas, labels, Chooser())
            sh.states += 1
            trace = describe(schema, fs, assign, alphas, labels)
            ps, po = files(schema, fs)
            pc = os.path.join(TMP, "m.clusters")
            IO.to_txt_irm(pc, m)
            want = {d: {t: frozenset(map(str, s)) for t, s in x.crp.tables.items()} for d, x in m.domains.items() if x.crp.N}
            have = {}
            for line in open(pc):
                w = line.split()
                if int(w[1]) in have.setdefault(w[0], {}) or len(set(w[2:])) != len(w[2:]):
                    bad(sh, "file", f"line {line!r} repeats a table or an entity", trace)
                have[w[0]][int(w[1])] = frozenset(w[2:])
            sh.evaluations += 1
            sh.traces += 1
            if have != want:
                bad(sh, "file", f"{open(pc).read()!r} for {want}", trace)
            if IO.load_schema(ps) != schema:
                bad(sh, "schema", str(IO.load_schema(ps)), trace)
            if [(r, t, v) for r, t, v in IO.load_observations(po)] != fs:
                bad(sh, "observations", str(IO.load_observations(po)), trace)
            x = IO.from_txt_irm(ps, po, pc)
            a, b = snap_irm(m), snap_irm(x)
            for q in (a, b):
                for d in q["domains"]:      # the concentration is not part of the file
                    q["domains"][d] = q["domains"][d][:2] + q["domains"][d][3:]
            if norm(a) != norm(b) or IO.load_clusters_irm(pc) != {d: {t: IO.load_clusters_irm(pc)[d][t] for t in IO.load_clusters_irm(pc)[d]} for d in want}:
                bad(sh, "reload", f"{b} against {a}", trace)
            e = check_irm(x, schema, facts_of(schema, fs))
            if e:
                bad(sh, "reload-rules", e, trace)
            if sh.too_many():
                return


@shard("P05", "text_hirm")
def _(sh):
    for n in ("two_unary", "binary_unary", "unary_square"):
        schema = SHAPES[n]
        for rel, fs, h in hirms(schema, 2):
            sh.states += 1
            trace = f"{schema} {rel} {fs} {h.crp.tables} { {t: assign_of(m) for t, m in h.irms.items()} }"
            if sh.states % 499 == 1:
                sh.sample(trace)
            ps, po = files(schema, fs)
            pc = os.path.join(TMP, "h.clusters")
            IO.to_txt_hirm(pc, h)
            text = open(pc).read()
            blocks = [b.split("\n") for b in text.rstrip("\n").split("\n\n")]
            rels = {int(l.split()[0]): frozenset(l.split()[1:]) for l in blocks[0]}
            sub = {}
            for b in blocks[1:]:
                t = int(b[0].split("=")[1])
                sub[t] = {}
                for l in b[1:]:
                    w = l.split()
                    sub[t].setdefault(w[0], {})[int(w[1])] = frozenset(w[2:])
            sh.evaluations += 1
            sh.traces += 1
            if rels != {t: frozenset(s) for t, s in h.crp.tables.items()} or sub != {t: {d: {k: frozenset(map(str, s)) for k, s in x.crp.tables.items()} for d, x in m.domains.items() if x.crp.N} for t, m in h.irms.items()}:
                bad(sh, "file", repr(text), trace)
                continue
            GLOBAL.script, GLOBAL.greedy = [], False
            first = True
            while True:     # every initial seating of the relations before the file is applied
                GLOBAL.begin()
                try:
                    x = IO.from_txt_hirm(ps, po, pc)
                except Exception as e:
                    bad(sh, "reload-exception", f"{type(e).__name__}: {e}", trace + f" initial draws {[a for a, _ in GLOBAL.log]}")
                    x = None
                sh.transitions += 1
                if x is not None:
                    e = check_hirm(x, schema, facts_of(schema, fs))
                    same = x.crp.assignments == h.crp.assignments and all({d: {str(i): z for i, z in y.items()} for d, y in assign_of(x.irms[t]).items()} == {d: {str(i): z for i, z in y.items()} for d, y in assign_of(m).items()} for t, m in h.irms.items())
                    if e or not same:
                        bad(sh, "reload", e or f"{snap_hirm(x)} against {snap_hirm(h)}", trace + f" initial draws {[a for a, _ in GLOBAL.log]}")
                del GLOBAL.script[GLOBAL.pos:]
                if not GLOBAL.advance() or sh.too_many():
                    break
            if sh.too_many():
                return


# ==== P06: matrices =======================================================================
def matrices(sh, part_, parts):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import hirm.util_plot as U
    def rows_ok(items, div, asg):
        """entities cluster by cluster, each once; dividers at the cluster ends"""
        if sorted(map(str, items)) != sorted(map(str, asg)):
            return False
        ends, prev = [], None
        for k, i in enumerate(items):
            if k and asg[i] != asg[items[k - 1]]:
                ends.append(k)
        ends.append(len(items))
        runs_ = [asg[i] for i in items]
        blocks = [t for k, t in enumerate(runs_) if k == 0 or runs_[k - 1] != t]
        return list(div) == ends and len(blocks) == len(set(blocks))
    def same(a, b):
        return a == b or (a != a and b != b)
    def shown(ax):
        im = ax.images[0].get_array()
        X = np.ma.filled(np.ma.masked_invalid(np.ma.array(im, dtype=float)), np.nan)
        segs = [list(zip(l.get_xdata(), l.get_ydata())) for l in ax.lines]
        for co in ax.collections:
            segs += [list(map(tuple, q)) for q in co.get_segments()] if hasattr(co, "get_segments") else []
        h = sorted(float(q[0][1]) + 0.5 for q in segs if len(q) == 2 and q[0][1] == q[1][1])
        v = sorted(float(q[0][0]) + 0.5 for q in segs if len(q) == 2 and q[0][0] == q[1][0])
        return X, [t.get_text() for t in ax.get_yticklabels()], [t.get_text() for t in ax.get_xticklabels()], h, v
    def values(X, rows, cols, get, trace, key):
        for a, i in enumerate(rows):
            for b, j in enumerate(cols):
                if not same(X[a][b], get(i, j)):
                    bad(sh, key, f"entry {i},{j} is {X[a][b]}, the fact is {get(i, j)}", trace)
    nan = float("nan")
    def mat(shape, r, transpose, pred, m, trace):
        rel = m.relations[r]
        rd, cd = rel.domains[-2], rel.domains[-1]
        X, (ri, ci), (rv, cv) = U.sort_ternary_relation(rel, pred) if pred is not None else U.sort_binary_relation(rel)
        sh.evaluations += 1
        if not rows_ok(ri, rv, rd.crp.assignments) or not rows_ok(ci, cv, cd.crp.assignments):
            bad(sh, "order", f"rows {ri} {list(rv)} columns {ci} {list(cv)}", trace)
        g = (lambda i, j: rel.data.get((pred, i, j), nan)) if pred is not None else (lambda i, j: rel.data.get((i, j), nan))
        values(X, ri, ci, g, trace, "entry")
        fig, ax = U.plot_ternary_relation(rel, pred, transpose=transpose) if pred is not None else U.plot_binary_relation(rel, transpose=transpose)
        Y, yl, xl, h, v = shown(ax)
        if transpose:
            ri, ci, rv, cv, g0 = ci, ri, cv, rv, g
            g = lambda i, j: g0(j, i)
        if yl != [str(i) for i in ri] or xl != [str(i) for i in ci] or h != [float(k) for k in rv[:-1]] or v != [float(k) for k in cv[:-1]]:
            bad(sh, "axes", f"rows {yl} {h}, columns {xl} {v}; expected {ri} {list(rv)}, {ci} {list(cv)} (transpose={transpose})", trace)
        values(Y, ri, ci, g, trace, "picture")
        plt.close(fig)
    for n in ("binary", "square", "ternary"):
        for k, (fs, assign, alphas, labels) in enumerate(states(SHAPES[n], 2, 2, [(1,)], [RELABEL, GAPS])):
            if not fs or k % parts != part_ or (not THOROUGH and (k // parts) % (3 if n == "ternary" else 1)):
                continue
            m = build(SHAPES[n], fs, assign, alphas, labels, Chooser())
            sh.states += 1
            for tr in (None, True):
                for pred in ([None] if n != "ternary" else sorted(m.domains["D"].items)):
                    mat(n, "R", tr, pred, m, describe(SHAPES[n], fs, assign, alphas, labels) + f" transpose {tr} predicate {pred}")
            if sh.too_many():
                return
    for k, (fs, assign, alphas, labels) in enumerate(states(SHAPES["two_unary"], 3, 3, [(1,)], [GAPS])):
        if not fs or k % parts != part_:
            continue
        m = build(SHAPES["two_unary"], fs, assign, alphas, labels, Chooser())
        sh.states += 1
        trace = describe(SHAPES["two_unary"], fs, assign, alphas, labels)
        for order in (["R", "S"], ["S", "R"], ["S"]):
            rels = [m.relations[r] for r in order]
            fig, ax = U.plot_unary_relations(rels)
            X, yl, xl, h, v = shown(ax)
            asg = {str(i): t for i, t in m.domains["D"].crp.assignments.items()}
            sh.evaluations += 1
            if not rows_ok(yl, h + [len(yl)], asg) or xl != order or v:
                bad(sh, "unary-axes", f"rows {yl} {h} columns {xl} {v}", trace)
            else:
                values(X, yl, xl, lambda i, r: m.relations[r].data.get((i,), nan), trace, "unary-entry")
            plt.close(fig)
        if sh.too_many():
            return
    for k, (rel, fs, hm) in enumerate(hirms(SHAPES["two_unary"], 2)):
        if not fs or k % parts != part_ or any(not m.domains["D"].crp.N for m in hm.irms.values()):
            continue
        sh.states += 1
        fig, axes = U.plot_hirm_crosscat(hm, ["R", "S"])
        seen = []
        for ax in axes:
            X, yl, xl, h, v = shown(ax)
            seen += xl
            t = hm.crp.assignments[xl[0]]
            asg = {str(i): q for i, q in hm.irms[t].domains["D"].crp.assignments.items()}
            sh.evaluations += 1
            if sorted(xl) != sorted(hm.crp.tables[t]) or not rows_ok(yl, h + [len(yl)], asg):
                bad(sh, "crosscat", f"rows {yl} {h} columns {xl}, submodel {t}", f"{rel} {fs}")
                continue
            values(X, yl, xl, lambda i, r: hm.relation(r).data.get((i,), nan), f"{rel} {fs}", "crosscat-entry")
        if sorted(seen) != ["R", "S"]:
            bad(sh, "crosscat-all", str(seen), f"{rel} {fs}")
        plt.close(fig)


for _k in range(8):
    @shard("P06", f"matrices {_k}")
    def _(sh, _k=_k):
        matrices(sh, _k, 8)


# ==== M01: numeric helpers of the Python package ===========================================
import decimal
import hirm.util_math as UM


def exact_lse(v):
    decimal.getcontext().prec = 60
    decimal.getcontext().Emin, decimal.getcontext().Emax = -decimal.MAX_EMAX, decimal.MAX_EMAX
    fin = [decimal.Decimal(x) for x in v if x != -math.inf]
    if not fin:
        return -math.inf
    m = max(fin)
    return float(m + sum((x - m).exp() for x in fin).ln())


def close(a, b, tol=1e-12):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1, abs(a), abs(b))


@shard("M01", "python sums")
def _(sh):
    for n in range(0, 6 if THOROUGH else 5):
        for v in itertools.product([-math.inf, -1e308, -1200.0, -1.5, 0.0, 0.3, 700.0, 1e308], repeat=n):
            v = list(v)
            sh.states += 1
            sh.evaluations += 2
            if max(v or [0]) - min([x for x in v if x != -math.inf] or [0]) == math.inf:
                continue      # beyond the range of doubles
            want = exact_lse(v)
            got = UM.logsumexp(v)
            if not close(got, want):
                bad(sh, "logsumexp", f"{got}, exactly {want}", v)
            if n and want != -math.inf:
                g = UM.logmeanexp(v)
                if not close(g, want - math.log(n), 1e-11):
                    bad(sh, "logmeanexp", f"{g}, exactly {want - math.log(n)}", v)
                g = UM.log_normalize(v)
                if len(g) != n or any(not close(a, x - want, 1e-11) for a, x in zip(g, v)):
                    bad(sh, "log_normalize", f"{g}", v)
            elif n:
                if UM.logmeanexp(v) != -math.inf:
                    bad(sh, "logmeanexp", f"{UM.logmeanexp(v)} for impossible events", v)
    for v in itertools.product([-3.0, 0.0, 5.0, math.inf], repeat=3):
        if math.inf in v:
            sh.evaluations += 1
            if UM.logsumexp(list(v)) != math.inf:
                bad(sh, "logsumexp", f"{UM.logsumexp(list(v))}", v)
    for v in ([math.nan], [0.0, math.nan], [math.nan, -math.inf]):
        if not math.isnan(UM.logsumexp(v)):
            bad(sh, "logsumexp", "a nan vanished", v)
    if UM.logmeanexp([]) != -math.inf:
        bad(sh, "logmeanexp", "mean of nothing", [])
    if UM.logmeanexp([-math.inf, math.inf]) != math.inf:
        bad(sh, "logmeanexp", "mean of zero and infinity", [])


@shard("M01", "python choices")
def _(sh):
    alpha = [-math.inf, -1000.0, -1.5, 0.0, 2.0, 1000.0]
    for n in range(1, 5):
        for v in itertools.product(alpha, repeat=n):
            if all(x == -math.inf for x in v):
                continue
            z = exact_lse(v)
            pop = [f"x{i}" for i in range(n)]
            for k in (1, 2) if n <= 3 else (1,):
                got = {}
                for c, r in runs(lambda c: tuple(UM.log_choices(pop, list(v), k=k, prng=c))):
                    sh.transitions += 1
                    if isinstance(r, Exception):
                        bad(sh, "exception", f"{type(r).__name__}: {r}", v)
                        return
                    got[r] = got.get(r, 0) + c.p
                sh.states += 1
                for t in itertools.product(range(n), repeat=k):
                    p = math.exp(sum(v[i] - z for i in t))
                    if abs(got.get(tuple(pop[i] for i in t), 0) - p) > 1e-9 or (p == 0 and tuple(pop[i] for i in t) in got and all(v[i] == -math.inf for i in t)):
                        bad(sh, "log_choices", f"{got}, expected {p} at {t}", v)


@shard("M01", "python grids")
def _(sh):
    for a, b in itertools.product([0.01, 0.5, 1, 2, 7.5, 1e6], repeat=2):
        for n in range(2, 40):
            sh.evaluations += 1
            g = UM.linspace(a, b, num=n)
            if len(g) != n or any(not close(x, a + (b - a) * i / (n - 1), 1e-9) for i, x in enumerate(g)):
                bad(sh, "linspace", str(g), (a, b, n))
            g = UM.linspace(a, b, num=n, endpoint=False)
            if len(g) != n or any(not close(x, a + (b - a) * i / n, 1e-9) for i, x in enumerate(g)):
                bad(sh, "linspace-open", str(g), (a, b, n))
            g = UM.log_linspace(a, b, n)
            if len(g) != n or any(not close(x, a * (b / a) ** (i / (n - 1)), 1e-9) for i, x in enumerate(g)):
                bad(sh, "log_linspace", str(g), (a, b, n))
    sh.states = sh.evaluations


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang("no answer within the time limit")


def one(k):
    global TMP
    TMP = os.path.join(TMP, str(k))      # shards run in parallel
    os.makedirs(TMP, exist_ok=True)
    name, fn = PROPS[PROP][k]
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(780 if THOROUGH else 240)
    sh = Shard(name)
    try:
        fn(sh)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-1500:]
        if any(f.filename.startswith(SRC) for f in tb):
            bad(sh, "exception", text, "see the traceback")
        else:
            sh.status = "error: " + text
    signal.alarm(0)
    return sh


if PROPS.get(PROP):
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        shards += pool.map(one, range(len(PROPS[PROP])), chunksize=1)
write(OUT, shards)
