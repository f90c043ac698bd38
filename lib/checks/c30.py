TECHNIQUE = "TLA+ specification of how definitions lay tags out in cache files (little endian, addresses in the space of the structure, identifiers as references, vertices and samples elsewhere); trace validation of reading random tags of every group from random cache files of every engine, good and spoiled"
def run(c):
    for part in range(c.quick(1, 8)):
        p = c.rhx("c30", f"trace{part}.ndjson", n=c.quick(320, 1200), seed=c.seed + 100 * part)
        if not p or not c.trace("C30Trace", p): return
        if part == 0: c.sample(p, 2)
