TECHNIQUE = "TLA+ specification of mipmap order, block sizes and Morton order, model checked over all small textures; trace validation of the iterators, the swizzler and the bitmap verifier against it"
def run(c):
    c.model("C17MC", min_states=2000)
    for part in range(c.quick(1, 8)):
        p = c.rhx("c17", f"trace{part}.ndjson", n=c.quick(300, 700), seed=c.seed + 100 * part)
        if not p or not c.trace("C17Trace", p): return
        if part == 0: c.sample(p, 3)
