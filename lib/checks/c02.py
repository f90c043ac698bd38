TECHNIQUE = "TLA+ model of the write-back cache and of its locking (TLC, exhaustive) + replay of every TLC behaviour up to a length + trace validation and linearizability checking of recorded histories"
def run(c):
    c.model("C02MC")
    c.model("C02Lock", "C02Lock.cfg")
    c.model("C02Lock", "C02LockShared.cfg")
    p = c.rhx("c02", "replay.ndjson", cases=c.gen("C02Gen", c.quick("C02Gen.cfg", "C02GenThorough.cfg")))
    if p: c.replay(p)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c02", f"trace{part}.ndjson", n=c.quick(500, 2000), seed=c.seed + 100 * part)
        if not p or not c.trace("C02Trace", p): return
        if part == 0: c.sample(p, 2)
    p = c.rhx("c02", "shaken.ndjson", n=c.quick(500, 3000), seed=c.seed + 7, extra=["concurrent"], env=c.shaken(31))
    if p: c.trace("C02Trace", p, label=" (concurrent, perturbed schedules)")
    for part in range(c.quick(1, 6)):
        p = c.rhx("c02", f"conc{part}.ndjson", n=c.quick(1500, 6000), seed=c.seed + 100 * part, extra=["concurrent"])
        if not p or not c.trace("C02Trace", p, label=" (concurrent)"): return
        if part == 0: c.sample(p, 2)
