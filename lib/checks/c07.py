TECHNIQUE = "TLA+ specification of the rewriting over the pinned tag layout; trace validation of random tags of every group against it"
def run(c):
    for part in range(c.quick(1, 6)):
        p = c.rhx("c07", f"trace{part}.ndjson", n=c.quick(6, 15), seed=c.seed + 100 * part)
        if not p or not c.trace("C07Trace", p): return
        if part == 0: c.sample(p, 2)
