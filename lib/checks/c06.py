TECHNIQUE = "TLA+ model of the renaming (TLC: every order of moves, refusals, undo and threads) + TLC-generated worlds run on real directories + trace validation of random trees of real tags, with file system obstacles"
def run(c):
    c.model("C06MC", c.quick("C06MC.cfg", "C06MCThorough.cfg"))
    p = c.rhx("c06", "replay.ndjson", cases=c.gen("C06Gen"), extra=["--stride", str(c.quick(3, 1))])
    if p: c.trace("C06Trace", p, label=" (generated worlds)")
    p = c.rhx("c06", "crowd.ndjson", n=c.quick(60, 400), extra=["crowd"], env=c.shaken(11))
    if p: c.trace("C06Trace", p, label=" (crowds, perturbed schedules)")
    for part in range(c.quick(1, 6)):
        p = c.rhx("c06", f"trace{part}.ndjson", n=c.quick(700, 1500), seed=c.seed + 100 * part)
        if not p or not c.trace("C06Trace", p): return
        if part == 0: c.sample(p, 2)
