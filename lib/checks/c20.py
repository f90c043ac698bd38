TECHNIQUE = "TLA+ specification of default values over the pinned tag layout (table and special rules; TLC: the rule for chained permutations settles and loses nothing); trace validation of random tags of every group, with fields near their default values"
def run(c):
    c.model("C20MC", c.quick("C20MC.cfg", "C20MCThorough.cfg"), min_states=30000)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c20", f"trace{part}.ndjson", n=c.quick(16, 60), seed=c.seed + 100 * part)
        if not p or not c.trace("C20Trace", p): return
        if part == 0: c.sample(p, 2)
