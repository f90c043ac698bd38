def run(c):
    c.model("GlobMC", c.quick("GlobMC.cfg", "GlobMCThorough.cfg"))
    cases = c.gen("C03Gen", c.quick("C03Gen.cfg", "C03GenThorough.cfg"))
    p = c.rhx("c03", "replay.ndjson", cases=cases)
    if p: c.replay(p)
    p = c.rhx("c03", n=c.quick(6000, 60000))
    if p:
        c.trace("C03Trace", p); c.sample(p)
