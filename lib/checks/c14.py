TECHNIQUE = "TLA+ specification of the differences between two values over the pinned tag layout; trace validation of random pairs of tags of every group against it"
def run(c):
    for part in range(c.quick(1, 6)):
        p = c.rhx("c14", f"trace{part}.ndjson", n=c.quick(16, 40), seed=c.seed + 100 * part)
        if not p or not c.trace("C14Trace", p): return
        if part == 0: c.sample(p, 2)
