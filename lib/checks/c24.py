TECHNIQUE = "TLA+ specification of models: indices, flaws, repair, vertex compression, conversion between kinds (TLC: all small models; conversions keep what is drawn, repair settles) + trace validation of the real checks, verification, repair, recompression and conversions"
def run(c):
    c.model("C24MC", c.quick("C24MC.cfg", "C24MCThorough.cfg"), min_states=2000)
    for part in range(c.quick(1, 8)):
        p = c.rhx("c24", f"trace{part}.ndjson", n=c.quick(1500, 12000), seed=c.seed + 100 * part)
        if not p or not c.trace("C24Trace", p): return
        if part == 0: c.sample(p, 2)
