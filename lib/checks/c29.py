TECHNIQUE = "TLA+ specification of what a tag keeps of its source files and how it is taken out; trace validation of recovering random and damaged bitmaps and scenarios"
def run(c):
    c.model("C29MC", c.quick("C29MC.cfg", "C29MCThorough.cfg"), min_states=500)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c29", f"trace{part}.ndjson", n=c.quick(2500, 8000), seed=c.seed + 100 * part)
        if not p or not c.trace("C29Trace", p): return
        if part == 0: c.sample(p, 2)
