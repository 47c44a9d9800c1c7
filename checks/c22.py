"""C22: sets, stacks, walks and trace comparison obey their laws."""
import common


def main():
    chk = common.Check("C22", "exploration",
                       "random histories of set and stack operations, random trees walked with and without an error at a random node, pairs of traces over "
                       "small and hostile alphabets, random verdicts; each compared with a plain model; non-trivial if more than one element or node is involved")
    common.run_harness(chk, "structures", chk.scale(3000, 6000), chk.scale(8, 64), shared=("gogen.go",))
    return chk.finish(1000)
