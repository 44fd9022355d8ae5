import random, vlib
S = "src/PetriEngine/"
NET = [S + x for x in ("PetriNetBuilder.cpp", "PetriNet.cpp", "SuccessorGenerator.cpp", "Reducer.cpp", "Structures/binarywrapper.cpp", "Structures/AlignedEncoder.cpp")]
PQL = [S + "PQL/" + x for x in ("Expressions.cpp", "PQL.cpp", "Contexts.cpp", "Evaluation.cpp", "Analyze.cpp", "PredicateCheckers.cpp", "PlaceUseVisitor.cpp", "QueryPrinter.cpp", "CTLVisitor.cpp", "PushNegation.cpp", "FormulaSize.cpp", "PrepareForReachability.cpp", "ColoredUseVisitor.cpp", "PotencyVisitor.cpp","Simplifier.cpp")]
STUB = [S + x for x in ("ReducingSuccessorGenerator.cpp", "Stubborn/StubbornSet.cpp", "Stubborn/ReachabilityStubbornSet.cpp", "Stubborn/InterestingTransitionVisitor.cpp")]
COL = [S + "Colored/" + x + ".cpp" for x in ("ArcVarMultisetVisitor", "BindingGenerator", "CExprToString", "CloningVisitor", "ColoredPetriNetBuilder", "Colors", "EquivalenceClass", "EquivalenceVec", "EvaluationVisitor", "ForwardFixedPoint", "GuardRestrictor", "IntervalGenerator", "Multiset", "PartitionBuilder", "Unfolder", "VarMultiset", "VarReplaceVisitor", "VariableSymmetry")] + [S + "ExplicitColored/ColorIgnorantPetriNetBuilder.cpp"]
XCOL = [S + "ExplicitColored/" + x + ".cpp" for x in ("ArcCompiler", "ColoredPetriNet", "ExplicitColoredPetriNetBuilder", "SuccessorGenerator/ColoredSuccessorGenerator", "ExpressionCompilers/GuardCompiler", "ExpressionCompilers/ExplicitQueryPropositionCompiler", "Algorithms/ExplicitWorklist")]
HARNESS = {
 "encoder": dict(file="harness/encoder.cpp", sources=NET + PQL),
 "pql": dict(file="harness/pql.cpp", sources=NET + PQL),
 "pushneg": dict(file="harness/pushneg.cpp", sources=NET + PQL),
 "simp": dict(file="harness/simp.cpp", sources=NET + PQL + [S + "Simplification/" + x for x in ("LinearProgram.cpp", "LinearPrograms.cpp", "LPCache.cpp", "Vector.cpp")]),
 "stub": dict(file="harness/stub.cpp", sources=NET + PQL + STUB),
 "search": dict(file="harness/search.cpp", sources=NET + PQL + STUB + [S + x for x in ("Reachability/ReachabilitySearch.cpp", "Structures/Queue.cpp", "Structures/PotencyQueue.cpp")]),
 "ctl": dict(file="harness/ctl.cpp", sources=NET + PQL + STUB + [S + x for x in ("Reachability/ReachabilitySearch.cpp", "Structures/Queue.cpp", "Structures/PotencyQueue.cpp")] + ["src/CTL/" + x for x in ("CTLEngine.cpp", "Algorithm/CertainZeroFPA.cpp", "Algorithm/LocalFPA.cpp", "Algorithm/FixedPointAlgorithm.cpp", "DependencyGraph/Configuration.cpp", "PetriNets/OnTheFlyDG.cpp", "SearchStrategy/HeuristicSearch.cpp", "SearchStrategy/RDFSSearch.cpp", "SearchStrategy/SearchStrategy.cpp")]),
 "queue": dict(file="harness/queue.cpp", sources=NET + PQL + [S + "Structures/Queue.cpp", S + "Structures/PotencyQueue.cpp"] + ["src/CTL/SearchStrategy/RDFSSearch.cpp", "src/CTL/SearchStrategy/SearchStrategy.cpp"]),
 "explicit": dict(file="harness/explicit.cpp", sources=NET + PQL + COL + XCOL),
 "unfold": dict(file="harness/unfold.cpp", sources=NET + PQL + COL),
 "reduce": dict(file="harness/reduce.cpp", sources=NET + PQL),
 "firing": dict(file="harness/firing.cpp", sources=NET + PQL),
}
def harness(n): return vlib.Harness(n, **HARNESS[n])
def J(h, entry, *args, tier="quick", timeout=120, **kw): return dict(h=h, entry=entry, args=list(args), tier=tier, timeout=timeout, **kw)
A7 = lambda *d: sum(x * 7 ** i for i, x in enumerate(d))
NETA, NETB, NETC = A7(4, 0, 0, 1), A7(1, 3, 3, 1), A7(4, 2, 1, 3)   # t0: p0<->p0, t1 consumes p1; a cycle; with an inhibitor
BIG = 0xfffffffe
def C06():
    j = [J("simp", "simp_cmp", NETA, l, 99, 0, BIG, 120) for l in range(14)] + [J("simp", "simp_cmp", n, l, 1, 0, BIG, w) for n, w in ((NETB, 1020), (NETC, 12)) for l in (0, 3, 5)]
    j += [J("simp", "simp_cmp", NETA, l, 1, m, BIG, 120) for m in (1, 3, 4, 8) for l in (0, 3)]
    def q(c): return "quick" if c else "thorough"
    j += [J("simp", "simp_bool", NETA, c, a, 0, BIG, 120, a2, 9, n, pn, tier=q(((a, a2) in ((0, 1), (0, 0)) and pn == c and n == 0) or ((a, a2) not in ((0, 0), (0, 1), (0, 6)))), timeout=150, ttimeout=1500, cost=5 if a == 0 else 1) for c in (0, 1) for n in (0, 1) for pn in (0, 1) for a, a2 in ((0, 1), (0, 3), (0, 0), (3, 2), (4, 1), (1, 5), (0, 6))]
    j += [J("simp", "simp_bool", NETA, c, a, 8, BIG, 120, 1, 9, 0, pn, tier=q(a == 3)) for c in (0, 1) for pn in (0, 1) for a in (0, 3)]
    j += [J("simp", "simp_ctl", NETA, o, a, 0, BIG, 120, 2 if o == 6 else 1, x, tier=q(o < 6 or a == 3 or x == 0)) for o in range(8) for a in (0, 3) for x in range(5)]
    j += [J("simp", "simp_bound", n, k, 0, m, BIG, w) for n, w in ((NETA, 120), (NETB, 1020), (NETC, 12), (A7(4, 4, 1, 3), 100)) for k in (1, 2, 3) for m in (1, 9)]
    return j
def nets(seed, n, P, T, inhib):  # a fixed list of topologies
    R = random.Random(seed); w = [4, 3, 1.5 if inhib else 0, 3, 1, 0.7 if inhib else 0]
    return [A7(*R.choices(range(6), w, k=P * T)) for _ in range(n)]
def sparse(seed, P, T, inhib):  # few arcs per transition, loops, parallel and dominated transitions: what structural reductions look for
    R = random.Random(seed); rows = []
    for t in range(T):
        r = [0] * P; k = R.random()
        if rows and k < .15: r = list(R.choice(rows))   # a copy (its weights may differ)
        elif rows and k < .25: r = [{1: 3, 3: 1}.get(x, x) for x in R.choice(rows)]   # the reverse
        else:
            for p in R.sample(range(P), R.choice([1, 1, 1, 2])): r[p] = 1
            for p in R.sample(range(P), R.choice([0, 1, 1, 1, 2])): r[p] = (r[p] % 3) + 3
            if inhib and R.random() < .3: p = R.randrange(P); r[p] = r[p] // 3 * 3 + 2
        rows.append(r)
    return A7(*[x for r in rows for x in r])
def shaped(kind, seed):  # 5 places, 4 transitions: a buffer to agglomerate over (0, 1), or a cycle of places outside the query (2)
    R = random.Random(seed); rows = []; sub = lambda l, ks: R.sample(l, min(len(l), R.choice(ks)))
    for t in range(4):
        r = [0] * 5
        if kind < 2 and t < 2: pre, post = sub([2, 3] + [0] * (R.random() < .15), [1, 1, 2]), [4]
        elif kind < 2: pre, post = [4] + sub([0, 1, 2, 3], [0, 0, 0, 1]), sub([0, 1, 2, 3], [0, 1, 1, 2])
        elif t < 2: pre, post = [2 + t], [3 - t]
        else: pre, post = sub([2, 3, 4] if t == 2 else [4, 0], [1, 1, 2]), sub([2, 3, 4] if t == 2 else [0, 1, 4], [0, 1, 1, 2])
        if kind == 1 and t == 1: pre, post = sub([0, 1, 2, 3], [1, 2]), sub([0, 1, 2, 3], [0, 1, 1])
        for p in pre: r[p] = 1
        for p in post: r[p] += 3
        if R.random() < .1: r[R.choice([0, 1])] = 2
        rows.append(r)
    R.shuffle(rows); return A7(*[x for r in rows for x in r])
def C07():
    j = []
    for tier, n, k, seed in (("quick", 6, 2, 1), ("thorough", 40, 3, 2)):
        to = dict(tier=tier, timeout=150 if tier == "quick" else 1200)
        for P, T, inh in ((2, 3, False), (2, 3, True), (3, 3, False), (3, 3, True)):
            N = nets(seed * 10 + P + inh, n, P, T, inh); R = random.Random(seed)
            for i, t in enumerate(N):
                if t == 76909 and tier == "quick": continue   # takes minutes
                j += [J("stub", "stub_bool", P, T, t, k, 2, 4, a, a2, c, ng, **to) for a, a2, c, ng in ((i % 7, 9, 0, i // 7 % 2), (R.randrange(7), R.randrange(5), i % 2, R.randrange(2)), (2, 9, 0, 0))]
                j += [J("stub", "stub_bound", P, T, t, k, 2, 4, 1 + i % 3, **to)]
                j += [J("stub", "stub_cmp", P, T, t, k, 2, 4, (5 * i + x * 3) % 14, (1, 1, 0, 3)[i % 4], i % 2, **to) for x in range(2)]
    R = random.Random(77)
    for i in range(400):
        P, T = ((2, 3), (3, 3), (2, 2))[i % 3]; j.append(J("stub", "stub_three", P, T, nets(9000 + i, 1, P, T, i % 4 == 3)[0], 2, 1 + (T == 2), 3, R.randrange(64), i // 3 % 2, tier="quick" if i < 90 else "thorough", timeout=60, ttimeout=400))
    for i in range(300):   # deadlocks of small nets with inhibitor arcs
        P, T = ((3, 2), (2, 2), (3, 3))[i % 3]; j.append(J("stub", "stub_bool", P, T, nets(20000 + i, 1, P, T, True)[0], 2, 2, 2, 2, 9, 0, 0, tier="quick" if i < 75 else "thorough", timeout=60, ttimeout=400))
    j += [J("stub", "stub_bool", 3, 2, n, 2, 2, 2, 2, 9, 0, 0) for n in (A7(4, 0, 2, 0, 1, 3), A7(0, 1, 3, 4, 2, 2), A7(0, 1, 3, 4, 0, 2))]
    j += [J("stub", "stub_cmp", 2, 2, n, 3, 3, 6, l, r, ng) for n in (A7(1, 3, 0, 1), A7(3, 0, 1, 1)) for l in range(14) for r, ng in ((1, 0), (3, 0), (0, 1))]
    return list({repr(x): x for x in j}.values())
def C08():
    BFS, DFS, HEUR, RDFS, RPFS, WALK = 0, 1, 2, 3, 5, 6
    j = []
    for tier, n in (("quick", 6), ("thorough", 40)):
        to = dict(tier=tier, timeout=150 if tier == "quick" else 900)
        for P, T, inh in ((2, 2, True), (2, 3, False), (2, 3, True), (3, 3, False)):
            for i, t in enumerate(nets(50 + n + P + T + inh, n, P, T, inh)):
                for k, st in enumerate((BFS, DFS, HEUR, RDFS)):
                    j += [J("search", "search", P, T, t, 1 + (T == 2), 3 if P == 2 else 2, st, sb, sb ^ (i & 1), (i * 3 + k * 2 + sb) % 7, 9, **to) for sb in (0, 1)]
    for sb in (0, 1):
        for net in (A7(1, 3, 0, 1), A7(1, 3, 3, 1)):
            j += [J("search", "search", 2, 2, net, 1, 3, st, sb, 1, a, 9, p) for st in (RPFS, WALK) for a in (0, 5) for p in (0, 1)]
            j += [J("search", "search", 2, 2, net, 1, 3, st, sb, 1, a, a2) for st in (BFS, DFS, HEUR, RDFS) for a, a2 in ((1, 3), (2, 4))]
    j += [J("queue", "queue", k, 7, sd, 0) for k in (0, 1, 2) for sd in (0, 1, 2)] + [J("queue", "queue", 3, 7, 1, 0), J("queue", "queue", 3, 7, 1, 2), J("queue", "queue", 3, 5, 1, 1)] + [J("queue", "queue", 4, 3, 1, m) for m in (0, 1)] + [J("queue", "queue", 5, 3, 1, m) for m in (0, 1)]
    j += [J("queue", "queue", k, 10, sd, 0, tier="thorough", timeout=900) for k in (0, 1, 2) for sd in range(8)] + [J("queue", "queue", k, 5, 1, 1, tier="thorough", timeout=900) for k in (4, 5)]
    return list({repr(x): x for x in j}.values())
def ctlform(R, depth):  # prefix digits, see harness/ctl.cpp
    def form(d):
        if d == 0: return [R.choice([11, 12, 12, 13, 14, 15])]
        o = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 0, 3, 6, 7, 8, 9, 10])
        if o not in (6, 7, 8, 9): return [o] + form(d - 1)
        a, b = form(d - 1), form(R.choice([0, d - 1])); return [o] + (a + b if R.random() < .5 else b + a)
    while True:
        d = form(depth)
        if any(x < 8 for x in d) and len(d) <= 12: return sum(x << (4 * i) for i, x in enumerate(d))
CF = dict(base=64, prod=65, guard=66, inhib=68, succ=72, sub=80, scalar=96, tup=195, orph=320, const=576, gs=74, gsp=75, gc=578, gsc=586, all=763)   # feature sets of harness/color.h
PARTBAD = dict(base=(1, 2, 63, 79, 86), prod=(30, 64, 72, 88), guard=(1, 63, 96), inhib=(17, 20, 48, 98), succ=(48, 79), scalar=(63, 64, 93), orph=(1, 2), gs=(39,), gsp=(24, 31, 78, 94), tup=(30, 54, 72, 78))   # colour partitioning is wrong here, see known_findings.jsonl and DESIGN.md
def C10():
    j = []; R = random.Random(5)
    for k, (nm, f) in enumerate(CF.items()):
        for mode, q, t in (((0, 0, 0), 4, 20), ((0, 0, 1), 10, 60), ((0, 1, 1), 5, 30)):
            for s in range(t):
                if (nm, s) in (("const", 51), ("gc", 39)): continue
                j.append(J("unfold", "unfold", s, 3, 2, 3, f, 1 + s % 2, 2, *mode, tier="quick" if s < q else "thorough", timeout=60))
        for s in range(8): j.append(J("unfold", "unfold", 1000 + s, 4, 3, 2 + s % 2, f | (1024 if s % 2 else 0), 1, 1, 0, s % 2, 1, tier="quick" if s < 1 else "thorough", timeout=100, ttimeout=400))
        if nm in PARTBAD:
            for s in range(100):
                if s not in PARTBAD[nm]: j.append(J("unfold", "unfold", s, 3, 2, 3, f, 1, 2, 1, s % 2, 1, tier="quick" if s % 10 == k % 10 else "thorough", timeout=60))
    j += [J("unfold", "unfold", s, 3, 2, 2 + s % 2, f, 1 + s // 2 % 2, 2, 0, s % 2, s // 3 % 2, tier="quick" if s < 14 else "thorough", timeout=60, ttimeout=300) for f in (4 + 64 + 2048, 4 + 16 + 32 + 64 + 512 + 2048) for s in range(100)]   # inhibitor arcs with sums of colours
    j += [J("unfold", "unfold", s, 2, T, 2, 6144, W, 2, 0, sy, 1) for s in (2, 5, 7) for T in (1, 2) for W in (1, 2) for sy in (0, 1)]
    j += [J("unfold", "unfold", s, 3, 2, 3, CF[nm], 1, 2, 1, 0, 1) for nm, s in (("base", 2), ("prod", 64), ("guard", 96))]   # known findings
    return j
def reachform(R):   # EF or AG of a state formula
    at = lambda: [R.choice([11, 12, 12, 13, 14, 15])]
    def prop(d):
        o = R.choice([8, 9, 10, 0]) if d else 0
        return at() if o == 0 else [10] + prop(d - 1) if o == 10 else [o] + prop(d - 1) + prop(d - 1)
    return sum(x << (4 * i) for i, x in enumerate([R.choice([0, 1])] + prop(R.choice([0, 1, 2]))))
def redjobs(entry, n, seed, kind, typ=1, rule=0, tr=0, clk=0, kb=3, init=2, shape=(0, 1, 2, 3, 4), two=.2, wm=1, **kw):   # see harness/reduce.cpp
    R = random.Random(seed); j = []
    for i in range(n):
        sp = shape[i % len(shape)]; P, T = (5, 4) if sp > 1 else R.choice([(3, 3), (4, 3), (3, 4), (4, 4)])
        sd = R.randrange(10 ** 9); top = nets(sd, 1, P, T, R.random() < .3)[0] if sp == 0 else sparse(sd, P, T, R.random() < .3) if sp == 1 else shaped(sp - 2, sd)
        w = sum(R.choice([0] * 8 + [1, 1, 2][:1 + wm]) * 3 ** k for k in range(32))
        f = reachform(R) if kind == "reach" else reachform(R) >> 4 << 4 if kind == "ef" else ctlform(R, R.choice([1, 1, 2, 2, 3])) if kind == "ctl" else R.choice(kind) << 60
        f2 = reachform(R) if entry == "reduce" and R.random() < two else 0
        r = rule if isinstance(rule, int) else sum((x + 1) << 5 * k for k, x in enumerate(R.sample(range(19), 4)))
        j.append(J("reduce", entry, P, T, top, w, kb, init, f, f2, typ, r, tr, clk, **kw))
    return j
def C11():
    j = []
    for tier, k, seed, kw in (("quick", 1, 100, {}), ("thorough", 8, 200, dict(ttimeout=600)), ("thorough", 2, 300, dict(kb=4, init=3, ttimeout=900))):
        kw = dict(kw, tier=tier)
        j += redjobs("reduce", 130 * k, seed, "reach", **kw) + redjobs("reduce", 130 * k, seed + 1, "ctl", **kw)
        for r in range(19):
            if r in (9, 10): continue   # J has no effect here; K is documented as not proven correct and is never used by default
            sh = {2: (0, 3), 7: (4,), 11: (1,), 16: (2, 4), 17: (2, 3), 18: (2, 3)}.get(r, (0, 1, 2, 3, 4))
            j += redjobs("reduce", 9 * k, seed + 2 + r, "reach", typ=3, rule=r + 1, shape=sh, **kw) + redjobs("reduce", 6 * k, seed + 30 + r, "ctl", typ=3, rule=r + 1, shape=sh, **kw)
        j += redjobs("reduce", 20 * k, seed + 60, "reach", typ=3, rule=None, **kw)
        j += redjobs("reduce", 25 * k, seed + 61, (5, 6, 7), **kw) + redjobs("reduce", 20 * k, seed + 62, (5, 6, 7), typ=2, **kw) + redjobs("reduce", 20 * k, seed + 63, "ctl", typ=2, **kw)
        j += redjobs("reduce", 30 * k, seed + 64, (1, 2, 3, 4), shape=(1, 2, 3, 4), **kw)
        j += redjobs("reduce", 30 * k, seed + 65, "reach", tr=1, **kw) + redjobs("reduce", 6 * k, seed + 66, "reach", clk=1, shape=(1,), wm=0, **dict(kw, init=1))
    for a in ("3 3 20759438 941433559740 3 2 901015 0 1 0", "3 3 1004367 617987600875387 3 2 211 0 1 0", "3 3 3529862 7625769678441 3 2 48501 0 3 1", "4 3 1026977378 7629103401345 3 2 783953 0 3 2", "3 3 21179270 31783537593 3 2 3409 241 3 17", "4 3 2105103367 626146674610998 3 2 192 0 3 5", "5 4 11401040625596931 68630377544217 3 2 192 0 1 0", "5 4 35827244593902191 77104425721509 3 2 2977 192 1 0"):
        j.append(J("reduce", "reduce", *map(int, a.split()), 0, 0))   # these failed before the fixes
    return list({repr(x): x for x in j}.values())
def C12():
    j = []
    for tier, k, seed, kw in (("quick", 1, 500, {}), ("thorough", 8, 600, dict(ttimeout=600)), ("thorough", 2, 700, dict(kb=4, init=3, ttimeout=900))):
        kw = dict(kw, tier=tier, tr=1)
        j += redjobs("trace", 300 * k, seed, "ef", **kw) + redjobs("trace", 60 * k, seed + 1, "ef", typ=3, rule=1 + 2 * 32, shape=(2, 3, 4), **kw) + redjobs("trace", 40 * k, seed + 2, "ef", typ=3, rule=2, shape=(2, 3, 4), **kw) + redjobs("trace", 40 * k, seed + 3, "ef", typ=3, rule=1, shape=(2, 3, 4), **kw)
    for a in ("4 3 2308747682 305023905954732 3 2 208 0 1 0", "5 4 35825777983237970 30601201830390 3 2 240 0 1 0", "5 4 11399199820754886 31424112973 3 2 16763264 0 1 0", "5 4 5118009728828396 31381080102 3 2 208 0 1 0", "5 4 2327025007885228 2541909052288 3 2 208 0 1 0"):
        j.append(J("reduce", "trace", *map(int, a.split()), 1, 0))
    return list({repr(x): x for x in j}.values())
def C13():
    return redjobs("reduce", 150, 800, (1, 2, 3, 4), typ=0, two=.3) + redjobs("reduce", 1200, 801, (1, 2, 3, 4), typ=0, two=.3, kb=4, init=4, tier="thorough", ttimeout=600)
def C09():
    j = []
    for tier, seed, n, shapes in (("quick", 11, 260, ((2, 2), (2, 3))), ("thorough", 12, 600, ((2, 2), (2, 3), (3, 3)))):
        R = random.Random(seed)
        for i in range(n):
            P, T = shapes[i % len(shapes)]; w, tok = (1, 2) if tier == "quick" else (1 + i % 2, 3)
            j.append(J("ctl", "ctl", P, T, nets(R.randrange(10 ** 6), 1, P, T, i % 5 < 2)[0], w, tok, ctlform(R, R.choice([1, 2, 2, 3]) if tier == "quick" else R.choice([2, 3, 4])), int(i % 3 > 0), i % 4, R.randrange(2), int(R.random() < .4), R.randrange(2), tier=tier, timeout=120 if tier == "quick" else 900))
    cyc, two = A7(1, 3, 3, 1), A7(1, 3, 0, 1)   # every formula of depth 1 and 2 over one atom, on a cycle and on a terminating net
    for o in range(8):
        tail = (11, 12) if o > 5 else (11,)
        c1 = sum(x << 4 * k for k, x in enumerate((o,) + tail))
        j += [J("ctl", "ctl", 2, 2, n, 1, 2, c1, a, st, 1, e) for n in (cyc, two) for a, st, e in ((0, 0, 0), (1, 1, 0), (1, 2, 1))]
        for o2 in range(8):
            inner = (o2, 12, 11) if o2 > 5 else (o2, 12)
            for c2 in ([o] + list(inner) if o < 6 else [o, 11] + list(inner),) + (([o] + list(inner) + [11],) if o > 5 else ()):
                j.append(J("ctl", "ctl", 2, 2, (cyc, two)[(o + o2) % 2], 1, 2, sum(x << 4 * k for k, x in enumerate(c2)), (o + o2 // 2) % 3 > 0 and 1 or 0, (o * 3 + o2) % 4, 1, 0))
    j += [J("queue", "ctlqueue", k, 7) for k in (0, 1, 2)] + [J("queue", "ctlqueue", k, 9, tier="thorough", timeout=900) for k in (0, 1, 2)]
    return list({repr(x): x for x in j}.values())
XF = dict(CF, inhone=4 + 64 + 2048, inhall=4 + 16 + 32 + 64 + 512 + 2048, sub2=64 + 8192, sub2c=64 + 8192 + 512, swap=64 + 1 + 512 + 65536, sub3=8192 + 512 + 2048, cmod=64 + 512 + 32768, cmodp=65 + 512 + 32768, guardmod=64 + 2 + 8 + 512 + 32768, scsub=131072 + 512 + 2048)
def C14():
    j = []
    for nm, f in XF.items():
        if nm == "orph": continue
        for s in range(60):
            for kd in (0, 1): j.append(J("explicit", "xsucc", s, 2, 2, 3, f, 1, 2, kd, tier="quick" if s < (16, 8)[kd] else "thorough", timeout=60, ttimeout=300))
            j.append(J("explicit", "xsucc", s, 3, 2, 3, f, 1 if f & 139264 else 1 + s % 2, 1 + s // 2 % 2, s % 2, tier="quick" if s < 3 else "thorough", timeout=60, ttimeout=400))
    for k, (n, f) in enumerate(((6, 64), (6, 66), (6, 72), (6, 576), (6, 586), (6, 8256), (6, 2116), (4, 3136), (4, 1089), (4, 1091), (4, 1097), (4, 34369), (4, 67145))):   # more than 30 bindings: possible values are derived from the marking
        for s in range(30): j.append(J("explicit", "xsucc", s, 2, 1 + s % 2, n, f, 1, 2 - (s % 2 and k % 3 > 0), s // 2 % 2, tier="quick" if s < 8 else "thorough", timeout=60, ttimeout=300))
    j += [J("explicit", "xsucc", s, 2, T, 2, 6144, 1, 1, k) for s, k in ((2, 0), (5, 1), (7, 0)) for T in (1, 2)]
    j += [J("explicit", "xsucc", *a, 2, 2, 0) for a in ((12, 3, 2, 3, 66113), (0, 3, 2, 3, 41727))] + [J("explicit", "xsucc", 46, 2, 2, 3, 10752, 1, 2, 0)]
    return list({repr(x): x for x in j}.values())
def C15():
    j = []
    for nm, f in XF.items():
        big = f & (8192 | 131072)
        for s in range(60):
            for m in (0, 1): j.append(J("explicit", "ignorant", s, 3, 2, 3, f, 1 if big else 1 + s % 2, 2, m, tier="quick" if s < 14 else "thorough", timeout=60, ttimeout=400))
        j += [J("explicit", "ignorant", 100 + s, 2, 3, 4 - (f & 1), f | 1024, 1, 1, s % 2, tier="quick" if s < 4 else "thorough", timeout=60, ttimeout=400) for s in range(40)]
    return list({repr(x): x for x in j}.values())
def C16():
    j = []; L = [list(map(int, l.split())) for l in open(vlib.VERIF + "/lists/xsearch.txt") if l[0] != "#"]
    for a in L:
        j.append(J("explicit", "xsearch", *a, timeout=60))
        for s in range(4):
            for k in (0, 1): b = list(a); b[7], b[8], b[9], b[11] = s, k, a[9] + 1000 + s, 9; j.append(J("explicit", "xsearch", *b, tier="thorough", timeout=300))
    j += [J("explicit", "cenc", *a, cost=8) for a in ((4, 3, 1, 1, 0x7fffffff, 1, 1, 1), (4, 3, 2, 1, 0x7fffffff, 1, 2, 0), (3, 1, 3, 1, 300, 1, 2, 1), (1, 1, 1, 1, 0x7fffffff, 1, 1, 1), (255, 256, 2, 1, 0x7fffffff, 254, 1, 1), (300, 70000, 10, 9, 70000, 7, 1, 1), (300, 300, 160, 9, 70000, 7, 1, 1), (600, 40, 256, 20, 70000, 1, 1, 0), (65536, 2, 300, 2, 0x7fffffff, 211, 1, 0), (1200, 300, 700, 160, 300, 1, 1, 0), (9, 9, 4, 5, 300, 2, 2, 0), (8, 8, 4, 5, 300, 3, 1, 1))]
    j += [J("explicit", "cenc", *a, tier="thorough", timeout=900) for a in ((4, 3, 2, 1, 0x7fffffff, 1, 2, 1), (300, 70000, 10, 9, 0x7fffffff, 7, 2, 1), (6, 5, 3, 3, 300, 1, 2, 2))]
    j += [J("explicit", "multiset", *a, timeout=100, cost=9) for a in ((2, 3, 3), (3, 5, 3), (3, 6, 3), (3, 3, 6), (2, 1, 2), (2, 2, 1), (3, 7, 2), (3, 2, 5), (1, 1, 1), (2, 0, 3), (2, 3, 0))] + [J("explicit", "multiset", *a, tier="thorough", timeout=1500) for a in ((3, 7, 7), (4, 10, 5), (3, 7, 3), (3, 3, 7), (4, 6, 9))]
    j += [J("explicit", "xbig", *a, q, s, p) for a, p in (((300, 152, 70000), 60), ((300, 300, 3), 10), ((300, 10, 3), 4)) for q in (0, 1) for s in range(4)]
    return list({repr(x): x for x in j}.values())
PROPS = {
 "C01": dict(level="model_checking", bounds="", assumptions=[], jobs=
    [J("encoder", "enc_roundtrip", n, n, 0, *range(n)) for n in (1, 2, 3)] + [J("encoder", "enc_roundtrip", n, n, 3, *range(n)) for n in (4, 5, 6)]
    + [J("encoder", "enc_roundtrip", n, len(pos), 0, *pos) for n, pos in ((8, (0, 7)), (9, (0, 8)), (16, (3, 15)), (17, (0, 16)), (17, (1, 8, 16)), (25, (7, 8, 24)), (40, (0, 31, 32, 39)), (255, (0, 254)), (256, (0, 255)), (300, (7, 255, 256)), (65535, (0, 65534)), (65537, (255, 65536)))]
    + [J("encoder", "enc_roundtrip", n, 2, hi, p0, p1, 0, 0, 0, 0, 0, cnt, start, val, stride) for n, hi, p0, p1, cnt, start, val, stride in
       ((4300, 4, 1, 4299, 254, 2, 1, 3), (4300, 0, 1, 4299, 255, 2, 1, 3), (4300, 0, 0, 4299, 256, 2, 77, 16), (9000, 0, 1, 8999, 257, 2, 300, 7), (9000, 4, 1, 8999, 300, 2, 70000, 7), (300, 0, 0, 299, 254, 20, 200, 1), (300, 0, 0, 299, 298, 1, 3, 1), (240, 0, 0, 239, 230, 2, 120, 1), (240, 0, 0, 239, 20, 2, 121, 1), (70000, 0, 0, 69999, 300, 2, 9, 200))]
    + [J("encoder", "set_identity", n, n, 0, *range(n)) for n in (1, 2)] + [J("encoder", "set_identity", 3, 3, 2, 0, 1, 2), J("encoder", "set_identity", 3, 3, 5, 0, 1, 2, tier="thorough", timeout=600), J("encoder", "set_identity", 4, 4, 3, 0, 1, 2, 3, tier="thorough", timeout=900)]
    + [J("encoder", "set_identity", n, len(pos), 0, *pos) for n, pos in ((9, (8,)), (9, (0, 8)), (17, (16,)), (17, (3, 16)), (300, (299,)), (300, (4, 260)))]
    + [J("encoder", "set_identity_trace", 2, 2, 0, 0, 1), J("encoder", "set_kbound", 1, 1, 0xffff, 0), J("encoder", "set_kbound", 2, 2, 0xffff, 0, 1), J("encoder", "set_history", 1, 1, 0, 0), J("encoder", "set_history", 2, 2, 0, 0, 1)]),
 "C02": dict(level="model_checking", bounds="", assumptions=[], jobs=[J("firing", "succ_exact", 1, 1, A7(6)), J("firing", "succ_exact", 2, 1, A7(6, 6))]+[J("firing", "succ_exact", 2, 2, A7(d, 6, 6, e), 0) for d in range(6) for e in range(6)]),
 "C03": dict(level="model_checking", bounds="", assumptions=[], jobs=[J("firing", "net_faithful", 1, 1, A7(6), 0, 1), J("firing", "net_faithful", 1, 2, A7(6, 6), 0, 1)] + [J("firing", "net_faithful", 2, 2, A7(d, 6, 6, 6), 0, 0, r) for d in range(6) for r in (0, 1)]),
 "C04": dict(level="model_checking", bounds="", assumptions=[], jobs=[J("pql", "eval_cmp", l, 99) for l in range(14)] + [J("pql", "eval_bool", k) for k in range(6)]),
 "C05": dict(level="model_checking", bounds="", assumptions=[], jobs=[J("pushneg", "neg_cmp", l, 99) for l in range(14)]
    + [J("pushneg", "neg_bool", c, a, a2, 9) for c in (0, 1) for a in range(6) for a2 in range(6)] + [J("pushneg", "neg_ctl", o, 1, 3) for o in range(11)] + [J("pushneg", "neg_ctl", o, 2, 2, 0) for o in range(11)] + [J("pushneg", "neg_ctl", o, 1, 3, 1) for o in range(11)] + [J("pushneg", "neg_ctl", o, 2, 2, 1) for o in range(11)]
    + [J("pushneg", "neg_bool", c, a, a2, a3, c2, n, tier="quick" if (a, a2, a3) in ((0, 0, 1), (0, 1, 0), (0, 3, 1), (0, 1, 3)) else "thorough") for c in (0, 1) for c2 in (0, 1) for n in (0, 1) if n or c != c2 for a in range(4) for a2 in range(4) for a3 in range(4)] + [J("pushneg", "neg_bool", c, 0, a2, a3, c2, n, 1, tier="thorough", timeout=900) for c in (0, 1) for c2 in (0, 1) for n in (0, 1) if n or c != c2 for a2 in (0, 1) for a3 in (0, 1)]
    + [J("pushneg", "neg_mix", o, b, sd, 2, r, tier="quick" if r == 0 else "thorough") for o in range(9) for b in (0, 1) for sd in (0, 1) if sd or o in (6, 7) for r in (0, 1)] + [J("pushneg", "neg_mix", o, b, sd, 3, r, tier="thorough", timeout=900) for o in range(9) for b in (0, 1) for sd in (0, 1) if sd or o in (6, 7) for r in (0, 1)]
    + [J("pushneg", "neg_ctl", o, 2, 3, r, tier="thorough", timeout=900) for o in range(11) for r in (0, 1)]),
 "C06": dict(level="model_checking", bounds="", assumptions=[], jobs=C06()),
 "C07": dict(level="model_checking", bounds="", assumptions=[], jobs=C07()),
 "C08": dict(level="model_checking", bounds="", assumptions=[], jobs=C08()),
 "C09": dict(level="model_checking", bounds="", assumptions=[], jobs=C09()),
 "C10": dict(level="model_checking", bounds="", assumptions=[], jobs=C10()),
 "C11": dict(level="model_checking", bounds="", assumptions=[], jobs=C11()),
 "C12": dict(level="model_checking", bounds="", assumptions=[], jobs=C12()),
 "C13": dict(level="model_checking", bounds="", assumptions=[], jobs=C13()),
 "C14": dict(level="model_checking", bounds="", assumptions=[], jobs=C14()),
 "C15": dict(level="model_checking", bounds="", assumptions=[], jobs=C15()),
 "C16": dict(level="model_checking", bounds="", assumptions=[], jobs=C16()),
}
