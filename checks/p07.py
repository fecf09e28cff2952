"""P07: calls that may violate Rust safety are always marked unsafe (spec/FunSig.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, funsig as F


def main():
    ck = vl.Check("P07")
    cases = []
    ts = ["int", "bool", "double", "char", "u64", "E", "P", "O", "I", "A", "S", "U", "V"]
    ms = ["val", "cref", "mref", "rref", "cptr", "mptr"]
    at = [(t, m) for t in ts for m in ms if (t, m) != ("A", "val")]
    rets = [("none", "void"), ("int", "val"), ("O", "val"), ("P", "val"), ("S", "val"), ("U", "val"), ("O", "mptr"), ("O", "cptr")]
    cs = F.enum(ck, "one parameter of every type and mode", F.KINDS, ["ok"], at, rets, ["ffi", "unsafe"], 1)
    cases += cs if not ck.quick else vl.seeded_pick(cs, 3000)
    pos = [("int", "val"), ("O", "val"), ("O", "cref"), ("O", "mref"), ("O", "rref"), ("O", "cptr"), ("O", "mptr"), ("int", "cptr"), ("int", "mptr"), ("S", "val"), ("U", "val")]
    cs = F.enum(ck, "two parameters", F.KINDS, ["ok"], pos, [("none", "void"), ("O", "val"), ("int", "val")], ["ffi", "unsafe"], 2)
    cases += cs if not ck.quick else vl.seeded_pick(cs, 2500)
    cs = F.enum(ck, "up to four parameters", ["free", "static", "const", "mut", "ctor", "vmut"], ["ok"], [("int", "val"), ("O", "val"), ("O", "cref"), ("P", "val"), ("int", "mptr"), ("O", "cptr")],
                               [("none", "void"), ("O", "val")], ["ffi", "unsafe"], 4)
    cases += vl.seeded_pick(cs, 1500 if ck.quick else 20000)
    F.run(ck, "P07", cases)
    ck.finish()


if __name__ == "__main__":
    main()
