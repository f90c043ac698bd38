TECHNIQUE = "TLA+ specification of script node trees and of what source text says (tokeniser, trees, pages); TLC checks reading back every small text and walking every small node table; trace validation of decompiling random node tables, good and damaged"
def run(c):
    c.model("C16MC", c.quick("C16MC.cfg", "C16MCThorough.cfg"), min_states=2000)
    for part in range(c.quick(1, 6)):
        p = c.rhx("c16", f"trace{part}.ndjson", n=c.quick(480, 3000), seed=c.seed + 100 * part)
        if not p or not c.trace("C16Trace", p): return
        if part == 0: c.sample(p, 2)
