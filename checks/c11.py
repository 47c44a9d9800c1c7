"""C11: factorisation partitions the failures after a trace."""
import common


def main():
    chk = common.Check("C11", "exploration",
                       "random sets of up to 12 named forbidden traces whose prefixes are drawn from a few traces and their prefixes, factorised after such "
                       "a trace; the spine nodes are checked against the definition; non-trivial if at least two failures follow the trace")
    common.run_harness(chk, "factorise", chk.scale(60000, 150000), chk.scale(4, 16), shared=("gogen.go",))
    return chk.finish(1000)
