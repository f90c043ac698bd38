TECHNIQUE = "TLA+ specification of tag paths (TLC over all short texts) + replay of those on the code + trace validation of random texts"
def run(c):
    p = c.rhx("c04", "replay.ndjson", cases=c.gen("C04MC", c.quick("C04MC.cfg", "C04MCThorough.cfg")))
    if p: c.replay(p)
    for part in range(c.quick(1, 5)):
        p = c.rhx("c04", f"trace{part}.ndjson", n=c.quick(8000, 30000), seed=c.seed + 100 * part)
        if not p or not c.trace("C04Trace", p): return
        if part == 0: c.sample(p, 3)
