"""C08: key rates and key-rate collections: every history of collection operations up to a depth against a sorted-set
model, with every collection made on the way re-checked at the end (aliasing)."""
from datetime import date, timedelta
import itertools
from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention as C
from checks.c04 import REF, clock
from vlib.iters import interleaved

B = date(2023, 11, 20)
# unordered on purpose, across a year end and a leap day
DATES = [B + timedelta(k) for k in (103, 0, 41, 365, 12)]
BP = 0.0001

class Mixed:
    """Key rates of one collection, each with its own day count."""
    name = "MIXED"
    order = (C.ACTUAL_OVER_ACTUAL, C.THIRTY_OVER_THREESIXTY, C.ACTUAL_OVER_360, C.ACTUAL_OVER_365)
    def __call__(self, d): return self.order[d.toordinal() % 4]
MIXED = Mixed()
convention = lambda c, d: c(d) if c is MIXED else c

def tent(c, prior, mid, nxt, bump, d):
    f = REF[convention(c, mid)]
    if prior is None and nxt is None:
        return bump
    if d == mid:
        return bump
    if d < mid:
        if prior is None: return bump
        if d <= prior: return 0.0
        return bump * float(f(prior, d) / f(prior, mid))
    if nxt is None: return bump
    if d >= nxt: return 0.0
    return bump * float(f(d, nxt) / f(mid, nxt))

def qdates(ds):
    q = set()
    for d in ds:
        q |= {d, d - timedelta(1), d + timedelta(1), d + timedelta(17)}
    q |= {min(ds) - timedelta(500), max(ds) + timedelta(500), date(2024, 1, 1), date(2024, 2, 29)}
    return sorted(q)

def check_coll(ctx, coll, model, c, key, full=True, also=()):
    """model: {date: bump}"""
    ds = sorted(model)
    ctx.step()
    ok, got = ctx.call(key, lambda: ([k.key_rate_date for k in coll], len(coll), [(k.prior_date, k.next_date, k.bump_val) for k in coll], [coll[i].key_rate_date for i in range(len(coll))]))
    if not ok:
        return False
    g, n, info, idx = got
    if not ctx.expect(g == ds and n == len(ds) and idx == ds, key, f"key rates {[str(x) for x in g]}, want {[str(x) for x in ds]}"):
        return False
    for i, d in enumerate(ds):
        pr = ds[i - 1] if i else None
        nx = ds[i + 1] if i + 1 < len(ds) else None
        ctx.expect(info[i] == (pr, nx, model[d]), key + "|neighbours", f"{d}: prior/next/bump {info[i]}, want {(pr, nx, model[d])}")
        if not full:
            continue
    if full:
        interleaved(ctx, coll, ds, key, between=lambda: (coll(ds[0]), len(coll)), show=lambda k: k.key_rate_date, limit=2)
    for q in sorted({*qdates(ds), *also}):
        parts = []
        for i, d in enumerate(ds):
            pr = ds[i - 1] if i else None
            nx = ds[i + 1] if i + 1 < len(ds) else None
            want = tent(c, pr, d, nx, model[d], q)
            parts.append(want)
            if full:
                ok, v = ctx.call(key + f"|bump|{d}|{q}", coll[i], q)
                ctx.step()
                if ok:
                    ctx.expect(abs(v - want) < 1e-15, key + f"|bump|{d}|{q}", f"{v} want {want}")
        ok, v = ctx.call(key + f"|sum|{q}", coll, q)
        ctx.step()
        if ok:
            ctx.expect(abs(v - sum(parts)) < 1e-14, key + f"|sum|{q}", f"{v} want {sum(parts)}")
            if len(set(model.values())) == 1 and c not in (C.THIRTY_OVER_THREESIXTY, MIXED):
                ctx.expect(abs(v - model[ds[0]]) < 1e-14, key + f"|parallel|{q}", f"a full set of equal bumps moves {q} by {v}")
    ctx.outcome((tuple(ds), tuple(sorted(model.values()))))
    return True

def KR(c, d, bump=None):
    k = KeyRate(convention(c, d), d)
    if bump is not None:
        k.set_bump_val(bump)
    return k

def ops_for(model):
    """Abstract operations enabled in a model state."""
    out = []
    for d in DATES:
        out.append(("iadd", d)); out.append(("append", d))
    out.append(("iaddmany", tuple(DATES[:2])))
    out.append(("add", tuple(DATES[2:4])))
    n = len(model)
    for i in range(n):
        out.append(("del", i)); out.append(("set", i, 5)); out.append(("set", i, -5)); out.append(("set", i, 2000)); out.append(("set", i, 0))
    days = sorted(model)
    for i in range(n - 1):       # exactly on, and one day short of, the neighbours' dates
        gap = (days[i + 1] - days[i]).days
        out += [("set", i, gap), ("set", i + 1, -gap)]
        if i == 0: out += [("set", i, gap - 1), ("set", i + 1, 1 - gap)]
    out.append(("pop",)); out.append(("bump", 2 * BP)); out.append(("bump", -BP / 2)); out.append(("bump", 0.0))
    for i in {0, n - 1}:
        out.append(("bumpone", i, -3 * BP)); out.append(("bumpone", i, 0.0)); out.append(("neg", i - n))
    out += [("insert", 0, DATES[0]), ("insert", n, DATES[1]), ("extend", tuple(DATES[1:4])), ("iaddgen", (DATES[4], DATES[0], DATES[4])), ("copyof",), ("next",), ("setneg", 3)]
    out += [("addforeign", DATES[2]), ("addforeign", DATES[0]), ("setforeign", 0, 0), ("setforeign", n - 1, 1), ("bumppool",)]
    if n > 2: out.append(("setforeign", 1, 3))
    if n > 1: out += [("delneg", -1), ("delneg", -n), ("delslice", 0, n - 1), ("delslice", 1, n)]
    if n:
        out.append(("remove", sorted(model)[0])); out.append(("slicekeep", 0, max(1, n - 1))); out.append(("slicekeep", n // 2, n)); out.append(("selfadd",))
    return out

def apply(ctx, coll, model, op, c, key, pool):
    """Applies op to the real collection and to the model; returns the (possibly new) pair."""
    ds = sorted(model)
    m = dict(model)
    def given(d, bump=None):        # a key rate that its owner keeps
        k = KR(c, d, bump); pool.append((k, (d, BP if bump is None else bump), "given key rate")); return k
    try:
        if op[0] == "iadd":
            coll += given(op[1]); m.setdefault(op[1], BP)
        elif op[0] == "append":
            coll.append(given(op[1])); m.setdefault(op[1], BP)
        elif op[0] == "insert":
            coll.insert(op[1], given(op[2])); m.setdefault(op[2], BP)
        elif op[0] == "extend":
            coll.extend([given(d) for d in op[1]])
            for d in op[1]: m.setdefault(d, BP)
        elif op[0] == "iaddgen":
            coll += (given(d) for d in op[1])
            for d in op[1]: m.setdefault(d, BP)
        elif op[0] == "copyof":
            pool.append((coll, dict(model), "collection made into another"))
            coll = KeyRateCollection(coll)
        elif op[0] == "next":
            for walk in range(2):
                got = []
                while True:
                    try: got.append(next(coll).key_rate_date)
                    except StopIteration: break
                    if len(got) > len(ds) + 2: break
                if got != ds: ctx.violation(key + "|next", f"walk {walk} by next() gives {got}, want {ds}")
        elif op[0] == "delneg":
            del coll[op[1]]; del m[ds[op[1]]]
        elif op[0] == "delslice":
            del coll[op[1]:op[2]]
            for d in ds[op[1]:op[2]]: del m[d]
        elif op[0] == "setneg":
            nd = ds[-1] + timedelta(op[1])
            coll[-1] = given(nd, 5 * BP); del m[ds[-1]]; m[nd] = 5 * BP
        elif op[0] == "iaddmany":
            other = KeyRateCollection([KR(c, d) for d in op[1]]); pool.append((other, {d: BP for d in op[1]}, "operand of +="))
            coll += other
            for d in op[1]: m.setdefault(d, BP)
        elif op[0] == "add":
            other = KeyRateCollection([KR(c, d) for d in op[1]]); pool.append((other, {d: BP for d in op[1]}, "operand of +"))
            pool.append((coll, dict(model), "left operand of +"))
            coll = coll + other
            for d in op[1]: m.setdefault(d, BP)
        elif op[0] == "selfadd":
            pool.append((coll, dict(model), "left operand of +"))
            coll = coll + coll
        elif op[0] == "slicekeep":
            pool.append((coll, dict(model), "sliced collection"))
            coll = coll[op[1]:op[2]]
            m = {d: m[d] for d in ds[op[1]:op[2]]}
        elif op[0] == "bump":
            coll.set_bump_val(op[1]); m = {d: op[1] for d in m}
        elif op[0] == "bumpone":       # one key rate of the collection is bumped on its own
            coll[op[1]].set_bump_val(op[2]); m[ds[op[1]]] = op[2]
        elif op[0] in ("setforeign", "addforeign"):     # the middle one of another collection, with neighbours of its own
            nd = ds[op[1]] + timedelta(op[2]) if op[0] == "setforeign" else op[1]
            other = KeyRateCollection([KR(c, nd - timedelta(700)), KR(c, nd, 2 * BP), KR(c, nd + timedelta(900))])
            pool.append((other, {nd - timedelta(700): BP, nd: 2 * BP, nd + timedelta(900): BP}, "collection it came from"))
            if op[0] == "addforeign": coll += other[1]; m.setdefault(nd, 2 * BP)
            else: coll[op[1]] = other[1]; del m[ds[op[1]]]; m[nd] = 2 * BP
        elif op[0] == "bumppool":       # everything outside the collection is bumped
            for j, (o, v, what) in enumerate(pool):
                o.set_bump_val(7 * BP)
                pool[j] = (o, (v[0], 7 * BP) if what == "given key rate" else {d: 7 * BP for d in v}, what)
        elif op[0] == "neg":
            if coll[op[1]].key_rate_date != ds[op[1]]:
                ctx.violation(key, f"index {op[1]} gives {coll[op[1]].key_rate_date}")
        elif op[0] == "remove":
            if len(ds) == 1:
                raise KeyError("skip")
            coll.remove(KR(c, op[1])); del m[op[1]]
        elif op[0] in ("del", "pop"):
            i = op[1] if op[0] == "del" else len(ds) - 1
            if len(ds) == 1:        # removing the last one is refused and leaves the collection as it was
                try:
                    if op[0] == "del": del coll[i]
                    else: coll.pop()
                    ctx.violation(key + "|empty", "the only key rate could be removed")
                except ValueError:
                    pass
            else:
                if op[0] == "del": del coll[i]
                else: coll.pop()
                del m[ds[i]]
        elif op[0] == "set":
            i, off = op[1], op[2]
            nd = ds[i] + timedelta(off)
            lo = ds[i - 1] if i else None
            hi = ds[i + 1] if i + 1 < len(ds) else None
            allowed = (lo is None or nd > lo) and (hi is None or nd < hi)
            try:
                coll[i] = given(nd, 3 * BP)
                if not allowed:
                    ctx.violation(key + "|set", f"{nd} was accepted between {lo} and {hi}")
                    return None
                del m[ds[i]]; m[nd] = 3 * BP
            except ValueError:
                if allowed:
                    ctx.violation(key + "|set", f"{nd} was refused between {lo} and {hi}")
                    return None
    except KeyError as e:
        if "skip" in str(e):
            return None
        ctx.violation(key, f"{op}: KeyError {e}")
        return None
    except Exception as e:
        ctx.violation(key, f"{op}: {type(e).__name__}: {e}")
        return None
    ctx.step()
    return coll, m

def histories(ctx, item):
    start, c, asked, *only = item
    always = qdates({*start, *DATES}) if asked else ()      # asked before and after every operation
    depth = only[0] if only else 3 if ctx.thorough else 2
    def rec(seq, model, d):
        for op in ops_for(model):
            s2 = seq + (op,)
            key = f"history|{c.name}|{'asked|' if asked else ''}{[str(x) for x in start]}|{s2}"
            # replay the whole history on fresh objects: states are reached only through the public operations
            coll = KeyRateCollection(KR(c, x) for x in start)
            m = {x: BP for x in start}
            pool, res = [], None
            for o in s2:
                for q in always: coll(q); [k(q) for k in coll]
                res = apply(ctx, coll, m, o, c, key, pool)
                if res is None:
                    break
                coll, m = res
            if res is None:
                continue
            new = ctx.state((c, tuple(sorted(m.items())), len(s2)))
            ctx.trace()
            check_coll(ctx, coll, m, c, key, full=new, also=always)
            for oc, om, what in pool:
                if what == "given key rate":
                    ctx.step()
                    ctx.expect((oc.key_rate_date, oc.bump_val, oc.prior_date, oc.next_date) == om + (None, None) and all(oc(om[0] + timedelta(j)) == om[1] for j in (-400, 0, 30, 400)), f"{key}|alias:{what}",
                               f"a given key rate is now {oc.key_rate_date}, {oc.prior_date}, {oc.next_date}, {oc.bump_val}")
                else: check_coll(ctx, oc, om, c, f"{key}|alias:{what}", full=False)
            if d > 1:
                rec(s2, m, d - 1)
    coll = KeyRateCollection([KR(c, x) for x in start])
    check_coll(ctx, coll, {x: BP for x in start}, c, f"initial|{c.name}|{start}")
    rec((), {x: BP for x in start}, depth)

TENORS = (30, 91, 182, 365, 730, 1096, 1826, 2557, 3652, 5479, 7305, 10957, 10958, 12783, 14610, 18262)

def large(ctx, item):
    """Collections of up to sixteen key rates, made in every rotation, grown one by one or merged, sliced and thinned out."""
    n, c, shift = item
    ds = [B + timedelta(k) for k in TENORS[:n]]
    for stride in (1, n - 1, 5, 7):
        order = [ds[(shift + i * stride) % n] for i in range(n)]
        if len(set(order)) < n: continue
        key = f"large|{c.name}|{n}|{shift}|{stride}"
        ctx.state(key); ctx.trace()
        bumps = {d: BP * (1 + i % 4) for i, d in enumerate(ds)}
        coll = KeyRateCollection(KR(c, d, bumps[d]) for d in order)
        check_coll(ctx, coll, bumps, c, key, full=shift == 0)
        grown = KeyRateCollection([KR(c, order[0], bumps[order[0]])])
        for i, d in enumerate(order[1:]):
            if i % 3 == 0: grown += KR(c, d, bumps[d])
            elif i % 3 == 1: grown = grown + KeyRateCollection([KR(c, d, bumps[d])])
            else: grown.append(KR(c, d, bumps[d]))
            ctx.step(); check_coll(ctx, grown, {x: bumps[x] for x in order[:i + 2]}, c, f"{key}|grown{i}", full=False)
        ctx.expect(grown == coll, key + "|eq", "the same key rates, another order: not equal")
        half = order[::2]
        merged = KeyRateCollection(KR(c, d) for d in half) + KeyRateCollection(KR(c, d) for d in order[1::2] + half[:2])
        check_coll(ctx, merged, {d: BP for d in ds}, c, key + "|merged", full=False)
        for sl in (slice(0, n // 2), slice(n // 2, None), slice(2, n - 2), slice(None, None, 2), slice(1, None, 3), slice(-3, None)):
            part = coll[sl]
            check_coll(ctx, part, {d: bumps[d] for d in ds[sl]}, c, f"{key}|{sl}", full=False)
        left = dict(bumps)
        for i in range(n - 1):
            d = order[i]
            del coll[sorted(left).index(d)]; del left[d]; ctx.step()
            check_coll(ctx, coll, left, c, f"{key}|thinned{i}", full=False)

def unions(ctx, c):
    """All pairs of subsets: + is set union, += likewise, operands untouched; equality is set equality."""
    subs = [s for n in range(1, 5) for s in itertools.combinations(DATES, n)]
    for a in subs:
        for b in subs:
            key = f"union|{c.name}|{[str(x) for x in a]}|{[str(x) for x in b]}"
            A = KeyRateCollection(KR(c, x) for x in a); Bc = KeyRateCollection(KR(c, x) for x in reversed(b))
            ok, S = ctx.call(key, lambda: A + Bc)
            ctx.step(); ctx.state(("u", a, b)); ctx.trace()
            if ok:
                check_coll(ctx, S, {x: BP for x in a + b}, c, key, full=False)
                check_coll(ctx, A, {x: BP for x in a}, c, key + "|left", full=False)
                check_coll(ctx, Bc, {x: BP for x in b}, c, key + "|right", full=False)
                ctx.expect((A == Bc) == (set(a) == set(b)), key + "|eq", "equality is not equality of key-rate sets")
                ctx.expect((S == A) == (set(b) <= set(a)), key + "|eq2", "")
            A2 = KeyRateCollection(KR(c, x) for x in a)
            def go():
                nonlocal A2
                A2 += Bc
                return A2
            ok, S2 = ctx.call(key + "|iadd", go)
            ctx.step()
            if ok:
                check_coll(ctx, S2, {x: BP for x in a + b}, c, key + "|iadd", full=False)
                check_coll(ctx, Bc, {x: BP for x in b}, c, key + "|iright", full=False)
    for a in subs:      # all orders of construction, all slices
        for p in itertools.permutations(a):
            check_coll(ctx, KeyRateCollection(KR(c, x) for x in p), {x: BP for x in a}, c, f"order|{c.name}|{[str(x) for x in p]}", full=False)
        ds = sorted(a)
        A = KeyRateCollection(KR(c, x) for x in a)
        for i in range(len(a)):
            for j in range(i + 1, len(a) + 1):
                check_coll(ctx, A[i:j], {x: BP for x in ds[i:j]}, c, f"slice|{c.name}|{[str(x) for x in ds]}|{i}:{j}")
        check_coll(ctx, A, {x: BP for x in a}, c, f"sliced|{c.name}|{[str(x) for x in ds]}")

def single(ctx, c):
    """One key rate under every history of <= 3 setter calls; the bump function on every day of the window."""
    m = B + timedelta(60)
    ops = [("prior", None), ("prior", B), ("prior", B + timedelta(45)), ("prior", m), ("next", None), ("next", B + timedelta(102)), ("next", B + timedelta(400)), ("next", m), ("bump", 2 * BP), ("bump", -BP), ("bump", 0.0)]
    for init in ((None, None), (B, None), (None, B + timedelta(102)), (B, B + timedelta(102))):
        for seq in itertools.chain.from_iterable(itertools.product(ops, repeat=r) for r in range(0, 4 if ctx.thorough else 3)):
            key = f"single|{c.name}|{init}|{seq}"
            k = KeyRate(c, m, init[0], init[1])
            pr, nx, bump = init[0], init[1], BP
            bad = False
            for o, v in seq:
                try:
                    {"prior": k.set_prior_date, "next": k.set_next_date, "bump": k.set_bump_val}[o](v)
                    if v == m:
                        ctx.violation(key, f"{o} date equal to the key date was accepted"); bad = True
                    elif o == "prior": pr = v
                    elif o == "next": nx = v
                    else: bump = v
                except ValueError:
                    if v != m:
                        ctx.violation(key, f"{o} {v} refused"); bad = True
                except Exception as e:
                    ctx.violation(key, f"{type(e).__name__}: {e}"); bad = True
                ctx.step()
            if bad:
                continue
            new = ctx.state((c, pr, nx, bump))
            ctx.trace()
            days = range(-30, 450) if new else (-1, 0, 1, 30, 45, 59, 60, 61, 90, 101, 102, 103, 399, 400, 401)
            for j in days:
                d = B + timedelta(j)
                ok, v = ctx.call(f"{key}|{d}", k, d)
                ctx.n_evals += 1
                if ok:
                    want = tent(c, pr, m, nx, bump, d)
                    ctx.expect(abs(v - want) < 1e-15, f"{key}|{d}", f"{v} want {want}")
    a, b2 = KeyRate(c, m), KeyRate(c, m, B, None)
    ctx.expect(a == b2 and hash(a) == hash(b2), f"eq|{c.name}", "equal key rates compare or hash differently")
    for x, y in itertools.product(DATES, DATES):
        p, q = KeyRate(c, x), KeyRate(c, y)
        ctx.expect((p < q, p <= q, p > q, p >= q, p == q) == (x < y, x <= y, x > y, x >= y, x == y), f"order|{x}|{y}", "")

def run(ctx):
    clock(date(2000, 1, 1))
    starts = [tuple(DATES[:1]), tuple(DATES[:2]), tuple(DATES[:3]), tuple(DATES[1:5])]
    conv = (C.ACTUAL_OVER_ACTUAL, C.ACTUAL_OVER_360)
    ctx.bound("history_depth", 3 if ctx.thorough else 2); ctx.bound("universe", [str(d) for d in DATES])
    ctx.pmap(histories, [(s, c, a) for s in starts for c in conv for a in (True, False)])
    big = tuple(B + timedelta(k) for k in TENORS)
    ctx.bound("large", "collections of 12 and 16 key rates in every rotation and 4 strides; every operation of the alphabet on them")
    ctx.pmap(large, [(n, c, k) for n in ((7, 12, 16) if ctx.thorough else (12, 16)) for c in conv for k in range(n)])
    ctx.pmap(histories, [(tuple(big[(i * 5 + 1) % n] for i in range(n)), c, a, 1) for n in (12, 16) for c in C for a in (False, True)])
    ends = (date(2024, 1, 31), date(2024, 1, 30), date(2024, 3, 30), date(2024, 3, 31), date(2024, 5, 31))   # 30/360 sees no time between some
    ctx.bound("month_ends", "key rates on the 30th and the 31st of one month, every convention, every operation")
    ctx.pmap(histories, [(s, c, a, 1) for s in (ends, ends[:2], ends[:3]) for c in [*C, MIXED] for a in (True, False)])
    ctx.bound("mixed", "collections whose key rates have day counts of their own")
    ctx.pmap(histories, [(s, MIXED, a, *(() if ctx.thorough or len(s) < 3 else (1,))) for s in starts for a in (True, False)])
    ctx.pmap(large, [(12, MIXED, k) for k in range(0, 12, 1 if ctx.thorough else 3)]); ctx.pmap(unions, [MIXED])
    ctx.pmap(unions, list(C) if ctx.thorough else [C.ACTUAL_OVER_ACTUAL, C.THIRTY_OVER_THREESIXTY])
    ctx.pmap(single, list(C))
    ctx.sample("{2024-03-02, 2023-11-20} += {2024-03-02, 2023-11-20}; slice [0:1]; then re-check the original")
