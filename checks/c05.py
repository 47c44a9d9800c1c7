"""C05: text encodings of events, values and types round-trip."""
import common


def main():
    chk = common.Check("C05", "exploration",
                       "random events, values and (broken) texts written, read and read again, each compared with an independent reading of the text; "
                       "every member and near-misses of each enumeration; each distinct event or text counts",
                       ["texts do not contain U+0130 (whose lower case differs between libraries)"])
    common.run_harness(chk, "codec", chk.scale(100000, 200000), chk.scale(4, 16), shared=("gogen.go",))
    return chk.finish(1000)
