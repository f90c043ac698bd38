def run(c):
    for part in range(c.quick(1, 8)):
        p = c.rhx("c12", f"trace{part}.ndjson", n=c.quick(5000, 8000), seed=c.seed + 100 * part)
        if not p: return
        if not c.trace("C12Trace", p): return
        if part == 0: c.sample(p, 2)
