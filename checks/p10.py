"""P10: passing C++ values as parameters (spec/Objects.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, objects as O


def main():
    ck = vl.Check("P10")
    Q = ck.quick
    single = tuple(x for x in O.PASS if x not in ("take2", "vr", "rv"))
    models = [
        O.one("one parameter, every mode, every holder", 10 ** 9, slots=2, start=("none", "null", "up", "bx", "cp", "upp"), vals=(1,), ops=single),
        O.one("two parameters, every pair of modes", 10 ** 9, slots=2, start=("null", "up", "bx") if Q else ("null", "up", "bx", "cp", "upp"), vals=(1,), ops=("take2", "vr", "rv")),
        O.sim("random histories", 150 if Q else 4000, slots=4, ops=O.PASS + ("new", "make", "makeup", "null", "set", "passup", "borrow", "copy"), maxops=40)]
    O.run(ck, models)
    ck.finish()


if __name__ == "__main__":
    main()
