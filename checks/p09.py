"""P09: C++ functions that may not be called are never callable from Rust (spec/FunSig.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, funsig as F


def main():
    ck = vl.Check("P09")
    cases = []
    ts = ["int", "E", "P", "O", "S", "U", "V", "A", "I"]
    at = [(t, m) for t in ts for m in ["val", "cref", "mref", "rref", "cptr", "mptr"] if (t, m) != ("A", "val")]
    rets = [("none", "void"), ("int", "val"), ("O", "val"), ("O", "cref"), ("S", "val"), ("P", "val"), ("U", "val"), ("O", "mptr")]
    fates = ["ok", "private", "protected", "deleted", "variadic", "template"]
    cs = F.enum(ck, "every kind and fate, one parameter", F.KINDS, fates, at, rets, ["ffi"], 1)
    cs = [c for c in cs if ok(c)]
    cases += cs if not ck.quick else vl.seeded_pick(cs, 5000, always=lambda c: not c["params"])
    cs = F.enum(ck, "operators", ["free", "nsfree", "const"], list(F.OPS), [], [("none", "void")], ["ffi"], 0)
    cases += [c for c in cs if c["kind"] == "const" or F.OPS[c["fate"]][1]]
    cs = F.enum(ck, "three parameters", ["free", "static", "const", "mut", "ctor", "vconst"], ["ok", "private", "protected", "deleted", "variadic"], [("int", "val"), ("O", "cref"), ("O", "val"), ("S", "val"), ("P", "mref")],
                               [("none", "void"), ("int", "val")], ["ffi", "unsafe"], 3)
    cases += vl.seeded_pick([c for c in cs if ok(c)], 1500 if ck.quick else 15000)
    F.run(ck, "P09", cases)
    ck.finish()


def ok(c):
    # (a variadic constructor without named parameters is a default constructor)
    if c["fate"] == "variadic" and not c["params"] and c["kind"] == "ctor":
        return False
    # template constructors: what the class then offers is P01's subject
    if c["kind"] == "ctor" and c["fate"] == "template":
        return False
    return True


if __name__ == "__main__":
    main()
