"""C08: state machines have exactly the behaviour of their trees."""
import common
import stmcheck


def main():
    chk = common.Check("C08", "exploration",
                       "random suites (expanded traces, branching multi-tag trees, given identifiers that look like generated ones, deep chains); the "
                       "machine is walked from 'initial' and compared with the tree by structural hashes; non-trivial if the tree has two live nodes; "
                       "builders used again, also after a refusal, against new ones",
                       ["no two successors of a node carry the same event and differ, beyond comparison as multisets"])
    stmcheck.main(chk, verdicts=False)
    common.run_harness(chk, "builder", chk.scale(6000, 20000), chk.scale(4, 12), shared=("gogen.go",), optional=True)
    return chk.finish(300)
