TECHNIQUE = "TLA+ specification of every packing (TLC: lossless for all values of small widths) + trace validation of the real conversions, exhaustive for 16-bit values, 10/11/16-bit codes and channels"
def run(c):
    c.model("C22MC", c.quick("C22MC.cfg", "C22MCThorough.cfg"))
    for part in range(c.quick(1, 8)):
        p = c.rhx("c22", f"trace{part}.ndjson", n=c.quick(4000, 40000), seed=c.seed + 100 * part)
        if not p or not c.trace("C22Trace", p): return
        if part == 0: c.sample(p, 2)
