TECHNIQUE = "TLA+ specification of animation frame data (walk, sizes, byte order); TLC runs the walk as a machine over every small animation; trace validation of the real walk and of extracting random animations, good and broken, from cache files"
def run(c):
    c.model("C25MC", c.quick("C25MC.cfg", "C25MCThorough.cfg"), min_states=1500)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c25", f"trace{part}.ndjson", n=c.quick(900, 8000), seed=c.seed + 100 * part)
        if not p or not c.trace("C25Trace", p): return
        if part == 0: c.sample(p, 2)
