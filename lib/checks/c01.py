TECHNIQUE = "TLA+ model of prioritised tag stores (TLC, exhaustive) + replay of TLC-generated saves on real directories + trace validation of random histories"
def run(c):
    c.model("C01MC", c.quick("C01MC.cfg", "C01MCThorough.cfg"))
    p = c.rhx("c01", "replay.ndjson", cases=c.gen("C01Gen", c.quick("C01Gen.cfg", "C01GenThorough.cfg")))
    if p: c.replay(p)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c01", f"trace{part}.ndjson", n=c.quick(600, 1500), seed=c.seed + 100 * part)
        if not p or not c.trace("C01Trace", p): return
        if part == 0: c.sample(p, 3)
