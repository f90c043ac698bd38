TECHNIQUE = "TLA+ specification of BSP vertex data (both forms, restoring, repair, verification of detail objects); TLC over every small BSP; trace validation of random BSPs, good and broken"
def run(c):
    c.model("C27MC", c.quick("C27MC.cfg", "C27MCThorough.cfg"), min_states=5000)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c27", f"trace{part}.ndjson", n=c.quick(1300, 12000), seed=c.seed + 100 * part)
        if not p or not c.trace("C27Trace", p): return
        if part == 0: c.sample(p, 2)
