TECHNIQUE = "TLA+ specification of string-list text, UTF-8/16 decoding and cleaning (TLC: every short list and text made of line ends, separators and odd characters round-trips) + trace validation of the real compiler and writer on random texts and lists"
def run(c):
    c.model("C19MC", c.quick("C19MC.cfg", "C19MCThorough.cfg"), min_states=2000)
    for part in range(c.quick(1, 8)):
        p = c.rhx("c19", f"trace{part}.ndjson", n=c.quick(8000, 30000), seed=c.seed + 100 * part)
        if not p or not c.trace("C19Trace", p): return
        if part == 0: c.sample(p, 2)
