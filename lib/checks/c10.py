TECHNIQUE = "TLA+ specification of the command-line grammar as a machine, model-checked; trace validation of the invader program on random and damaged command lines against the verdict, spelled-out form and effects the specification derives"
BINS = ("rhx", "invader")
def run(c):
    c.model("C10MC", c.quick("C10MC.cfg", "C10MCThorough.cfg"), min_states=10000)
    cases = c.gen("C10Gen", "C10Gen.cfg")
    for part in range(c.quick(1, 8)):
        p = c.rhx("c10", f"trace{part}.ndjson", n=c.quick(2500, 6000), cases=cases, seed=c.seed + 100 * part)
        if not p or not c.trace("C10Trace", p): return
        if part == 0: c.sample(p, 2)
