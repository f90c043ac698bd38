TECHNIQUE = "TLA+ specification of cache files (headers, engines, tag tables, resource maps, domains and their addresses); TLC over all small windows and addresses; trace validation of loading random cache files of every engine, good and damaged"
def run(c):
    c.model("C15MC", c.quick("C15MC.cfg", "C15MCThorough.cfg"), min_states=5000)
    for part in range(c.quick(1, 8)):
        p = c.rhx("c15", f"trace{part}.ndjson", n=c.quick(480, 2000), seed=c.seed + 100 * part)
        if not p or not c.trace("C15Trace", p): return
        if part == 0: c.sample(p, 2)
