TECHNIQUE = "TLA+ specification of the plate format as a reader; model checking that reading undoes building; trace validation of plates made of random pictures (TIFF and PNG of every kind), all patterns of present files, and refused files"
def run(c):
    c.model("C18MC", c.quick("C18MC.cfg", "C18MCThorough.cfg"), min_states=500)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c18", f"trace{part}.ndjson", n=c.quick(1500, 4000), extra=["all"] if part == 0 else [], seed=c.seed + 100 * part)
        if not p or not c.trace("C18Trace", p): return
        if part == 0: c.sample(p, 2)
