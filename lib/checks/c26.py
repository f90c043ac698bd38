TECHNIQUE = "TLA+ specification of repairing tags over the pinned tag layout (TLC: repairing leaves nothing to repair, changes nothing that needs none); trace validation of repaired and verified random tags of every group, odd numbers everywhere"
BINS = ("rhx", "invader")
def run(c):
    c.model("C26MC", "C26MC.cfg", min_states=100)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c26", f"trace{part}.ndjson", n=c.quick(32, 150), seed=c.seed + 100 * part)
        if not p or not c.trace("C26Trace", p): return
        if part == 0: c.sample(p, 2)
    p = c.rhx("c09", "commands.ndjson", n=c.quick(60, 400), extra=["bludgeon"])
    if p: c.trace("C09Trace", p)
