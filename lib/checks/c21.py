TECHNIQUE = "TLA+ specification of decimal rounding on digit sequences and of the nudged fields (TLC: rounding is to the nearest and settles, for all short decimals) + trace validation of the real nudging of numbers and of random tags of every group"
def run(c):
    c.model("C21MC", c.quick("C21MC.cfg", "C21MCThorough.cfg"), min_states=100000)
    for part in range(c.quick(1, 10)):
        p = c.rhx("c21", f"trace{part}.ndjson", n=c.quick(50000, 300000), seed=c.seed + 100 * part)
        if not p or not c.trace("C21Trace", p): return
        if part == 0: c.sample(p, 2)
