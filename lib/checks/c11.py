def run(c):
    for part in range(c.quick(1, 6)):
        p = c.rhx("c11", f"trace{part}.ndjson", n=c.quick(6, 12), seed=c.seed + 100 * part)
        if not p: return
        if not c.trace("C11Trace", p): return
        if part == 0: c.sample(p, 2)
