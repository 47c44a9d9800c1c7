"""C09: verdicts record each test's status at each state."""
import common
import stmcheck


def main():
    chk = common.Check("C09", "exploration",
                       "random suites as in C08, compared with the tree including every state's verdict, the machine's test list and, for expanded "
                       "traces, the inconclusive-passed-failed sequence; non-trivial if some verdict maps a test",
                       ["a test that tags several successors of a node with different outcomes has no one verdict there and is not judged"])
    stmcheck.main(chk, verdicts=True)
    return chk.finish(300)
