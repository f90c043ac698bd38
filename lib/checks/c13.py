TECHNIQUE = "TLA+ specification of the matcher language; every short subscript generated by TLC and replayed on the code; trace validation of random matchers over random tags of every group"
def run(c):
    cases = c.gen("C13Gen", c.quick("C13Gen.cfg", "C13GenThorough.cfg"))
    p = c.rhx("c13", "replay.ndjson", cases=cases)
    if p: c.replay(p)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c13", f"trace{part}.ndjson", n=c.quick(30, 50), seed=c.seed + 100 * part)
        if not p or not c.trace("C13Trace", p): return
        if part == 0: c.sample(p, 2)
