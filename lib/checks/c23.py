TECHNIQUE = "TLA+ specification of sounds: chains of parts, metadata, flaws and repair (TLC: all small sounds; repair settles, keeps chains and leaves only chain flaws) + trace validation of the real verification, repair and conversions, with real Ogg Vorbis data"
def run(c):
    c.model("C23MC", c.quick("C23MC.cfg", "C23MCThorough.cfg"), min_states=2000)
    c.model("C23MC", "C23MCData.cfg", min_states=2000)
    for part in range(c.quick(1, 8)):
        p = c.rhx("c23", f"trace{part}.ndjson", n=c.quick(1500, 12000), seed=c.seed + 100 * part)
        if not p or not c.trace("C23Trace", p): return
        if part == 0: c.sample(p, 2)
