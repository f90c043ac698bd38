TECHNIQUE = "TLA+ model of the dependency closure (TLC: every graph of three tags, every order of work) + replay of those graphs on the code + trace validation of random worlds of real tags"
def run(c):
    cases = c.gen("C05MC", c.quick("C05MC.cfg", "C05MCThorough.cfg"))
    p = c.rhx("c05", "replay.ndjson", cases=cases)
    if p: c.trace("C05Trace", p, label=" (generated graphs)")
    for part in range(c.quick(1, 6)):
        p = c.rhx("c05", f"trace{part}.ndjson", n=c.quick(300, 700), seed=c.seed + 100 * part)
        if not p or not c.trace("C05Trace", p): return
        if part == 0: c.sample(p, 3)
