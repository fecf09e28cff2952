"""P11: how long Rust subclasses and their C++ peers live (spec/Subclass.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, subclass as S

BIG = 10 ** 9


def main():
    ck = vl.Check("P11")
    Q = ck.quick
    life = ("new", "clone", "drop", "conv", "give", "fetch", "cppdel", "del")
    models = [
        S.full("one object, everything that may happen to it", 4000 if Q else BIG, slots=2, store=1, objs=1, ops=6 if Q else 7, depth=2,
               names=("clone", "drop", "conv", "give", "fetch", "cppdel", "del", "delme", "leave", "call"), kinds=(1, 2)),
        S.full("two objects", 3000 if Q else 60000, slots=3, store=1, objs=2, ops=5 if Q else 6, depth=2, names=life + ("call", "delme", "leave"), kinds=(1, 2)),
        S.sim("random histories", 300 if Q else 6000, slots=4, store=3, objs=12, ops=60, depth=4)]
    S.run(ck, models)
    ck.finish()


if __name__ == "__main__":
    main()
