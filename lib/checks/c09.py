import os
TECHNIQUE = "TLA+ specification of the work queue, its workers and the counts, model-checked over all schedules; trace validation of the invader program on random tag trees, filters, commands and job counts"
BINS = ("rhx", "invader")
def run(c):
    c.model("C09MC", c.quick("C09MC.cfg", "C09MCThorough.cfg"), min_states=10000)
    so = c.shim()
    if so: os.environ["RHX_SHIM"] = so
    for part in range(c.quick(1, 8)):
        p = c.rhx("c09", f"trace{part}.ndjson", n=c.quick(600, 2000), seed=c.seed + 100 * part)
        if not p or not c.trace("C09Trace", p): return
        if part == 0: c.sample(p, 2)
