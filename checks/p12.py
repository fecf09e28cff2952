"""P12: virtual calls on Rust subclasses (spec/Subclass.tla for nested calls; spec/Virtuals.tla for every kind of method)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, subclass as S, virtuals

BIG = 10 ** 9


def main():
    ck = vl.Check("P12")
    Q = ck.quick
    calls = ("call", "rcall", "viaref", "super", "leave")
    models = [
        S.full("nested calls on one object", 4000 if Q else BIG, slots=2, store=1, objs=1, ops=4 if Q else 5, depth=3, names=calls),
        S.full("deeply nested calls", 2000 if Q else 50000, slots=1, store=1, objs=1, ops=6 if Q else 7, depth=5, modes=("rust",), kinds=(1, 4), names=("call", "rcall", "viaref", "super", "leave")),
        S.full("calls between two objects", 2000 if Q else 50000, slots=2, store=1, objs=2, ops=5, depth=3, kinds=(1, 2), modes=("rust", "self"), names=("new", "call", "rcall", "viaref", "leave")),
        S.sim("random histories of calls", 300 if Q else 6000, slots=3, store=2, objs=6, ops=50, depth=8, names=("new", "new", "call", "rcall", "viaref", "super", "leave", "delme", "clone", "drop"))]
    S.run(ck, models)
    virtuals.run(ck)
    ck.finish()


if __name__ == "__main__":
    main()
