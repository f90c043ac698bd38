TECHNIQUE = "TLA+ model of the locking protocol of verification (TLC: all interleavings, deadlock freedom, unique results) + trace validation of real verifications with 1 to 16 threads under perturbed schedules"
def run(c):
    c.model("C08MC", c.quick("C08MC.cfg", "C08MCThorough.cfg"))
    p = c.rhx("c08", "shaken.ndjson", n=c.quick(50, 300), seed=c.seed + 7, env=c.shaken(97))
    if p: c.trace("C08Trace", p, label=" (perturbed schedules)")
    for part in range(c.quick(1, 6)):
        p = c.rhx("c08", f"trace{part}.ndjson", n=c.quick(150, 600), seed=c.seed + 100 * part)
        if not p or not c.trace("C08Trace", p): return
        if part == 0: c.sample(p, 2)
