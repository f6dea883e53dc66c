"""Every interleaving of two walks through one container: neither may disturb the other."""
import itertools

def schedules(n):
    """All orders of the events of two walks of n next() calls each (creation of the iterator included)."""
    for pos in itertools.combinations(range(2 * (n + 1)), n + 1):
        yield tuple("a" if i in pos else "b" for i in range(2 * (n + 1)))

def interleaved(ctx, container, want, key, between=None, show=lambda x: x, limit=4):
    """want: list of show(element) in order. between(): run at every switch (e.g. a valuation), must not disturb."""
    n = min(len(want), limit)
    for sch in schedules(n + 1):
        its, seen, bad = {}, {"a": [], "b": []}, None
        try:
            last = None
            for w in sch:
                if between is not None and last not in (None, w): between()
                last = w
                if w not in its: its[w] = iter(container)
                else:
                    try: seen[w].append(show(next(its[w])))
                    except StopIteration: seen[w].append("end")
        except Exception as e:
            bad = f"{type(e).__name__}: {e}"
        ctx.step(len(sch)); ctx.trace()
        exp = (list(want) + ["end"])[:n + 1]
        if not ctx.expect(bad is None and seen["a"] == exp and seen["b"] == exp, f"{key}|walks|{''.join(sch)}", bad or f"walks {''.join(sch)}: {seen}, want {exp} twice"):
            return
