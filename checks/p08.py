"""P08: returned references are tied to an input of compatible mutability (spec/FunSig.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, funsig as F


def main():
    ck = vl.Check("P08")
    cases = []
    refs = [("O", "cref"), ("O", "mref"), ("int", "mref"), ("O", "cptr"), ("O", "val"), ("O", "rref"), ("S", "cref"), ("I", "mref")]
    rets = [("O", "cref"), ("O", "mref"), ("O", "rref"), ("int", "cref"), ("int", "mref"), ("O", "mptr"), ("none", "void")]
    cs = F.enum(ck, "up to two parameters of every mode", F.KINDS, ["ok"], refs, rets, ["ffi"], 2)
    cases += cs if not ck.quick else vl.seeded_pick(cs, 2500)
    # every type as parameter and result
    ts = ["int", "bool", "double", "u64", "E", "P", "O", "I", "A", "S", "U", "V"]
    ms = ["val", "cref", "mref", "rref", "cptr", "mptr"]
    at = [(t, m) for t in ts for m in ms if (t, m) != ("A", "val")]
    ra = [(t, m) for t in ["int", "E", "P", "O", "I", "A", "S", "U"] for m in ("cref", "mref", "rref", "cptr")] + [("none", "void")]
    cs = F.enum(ck, "one parameter, every type", F.KINDS, ["ok"], at, ra, ["ffi"], 1)
    cases += cs if not ck.quick else vl.seeded_pick(cs, 2500)
    small = [("O", "cref"), ("O", "mref"), ("int", "val"), ("P", "cref"), ("O", "mptr")]
    cs = F.enum(ck, "up to four parameters", ["free", "static", "const", "mut"], ["ok"], small, rets[:2] + [("P", "mref"), ("S", "cref")], ["ffi", "unsafe"], 4)
    cases += vl.seeded_pick(cs, 2000 if ck.quick else 22000)
    F.run(ck, "P08", cases)
    ck.finish()


if __name__ == "__main__":
    main()
