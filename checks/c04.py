"""C04: collapsing inverts expansion and refuses anything else."""
import common


def main():
    chk = common.Check("C04", "exploration",
                       "random forbidden traces (hostile names and values, up to 400 events) expanded and collapsed, and random trees with up to two "
                       "random mutations judged by an independent classifier; non-trivial if the trace has a prefix, or the case is a mutated tree",
                       ["trees are finite and acyclic", "chains that end in a failing leaf but are no expansion (say, two passing nodes) are not judged"])
    common.run_harness(chk, "collapse", chk.scale(20000, 40000), chk.scale(4, 16), shared=("gogen.go",))
    return chk.finish(1000)
