TECHNIQUE = "TLA+ specification of undoing what building a cache file does (decimal arithmetic, weights, samples, textures, models, BSPs, campaign changes); trace validation of extracting random tags from random cache files of every engine"
def run(c):
    c.model("C28MC", c.quick("C28MC.cfg", "C28MCThorough.cfg"), min_states=500)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c28", f"trace{part}.ndjson", n=c.quick(900, 3000), seed=c.seed + 100 * part)
        if not p or not c.trace("C28Trace", p): return
        if part == 0: c.sample(p, 2)
