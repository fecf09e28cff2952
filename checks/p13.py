"""P13: holding C++ objects (spec/Objects.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, objects as O

BIG = 10 ** 9


def main():
    ck = vl.Check("P13")
    Q = ck.quick
    core = ("new", "makeup", "copy", "mov", "drop", "shift", "conv")
    models = [
        O.one("every operation on every pair of holders", BIG, slots=2, start=("none", "null", "up", "bx", "cp", "upp"), vals=(1, 2), ops=O.HOLD),
        O.full("histories of three operations over one class", 3000 if Q else BIG, slots=2, classes=("full",), start=("none", "up", "bx") if Q else ("none", "null", "up", "bx", "cp", "upp"), vals=(1,), ops=core, maxops=3 if Q else 3),
        O.sim("random histories", 300 if Q else 6000, slots=4, ops=O.HOLD + ("echo", "take", "rtake", "rsteal"), maxops=60)]
    O.run(ck, models)
    ck.finish()


if __name__ == "__main__":
    main()
