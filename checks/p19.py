"""P19: incomplete types are usable behind references and pointers only (spec/Bindings.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, bindings as B


def main():
    ck = vl.Check("P19")
    Q = ck.quick
    ALL = ("cref", "mref", "val", "mptr", "cptr", "rref", "uptr", "sptr", "vec")
    PLAIN = ("cref", "mref", "val", "mptr", "cptr", "rref")
    RET = ("rptr", "rval", "ruptr")
    fwd = lambda c: any(t["k"] in ("fwd", "late") for t in c["types"])
    models = [
        B.model("forward declarations and late definitions in every position", 80 if Q else 10 ** 9, types=1, funs=1, kinds=("fwd", "late"), spaces=(0, 3), modes=PLAIN, rets=("rptr", "rval"), owners=("free", "method"), reqs=("all", "some")),
        B.model("in standard containers and pointers", 40 if Q else 10 ** 9, types=1, funs=1, kinds=("fwd", "late"), spaces=(0,) if Q else (0, 3), modes=("uptr", "sptr", "vec"), rets=("ruptr",), owners=("free",), reqs=("all", "some")),
        B.model("through aliases", 80 if Q else 3000, types=2, funs=1, kinds=("fwd", "late", "alias"), spaces=(0, 3), modes=("cref", "val", "mptr"), rets=("rptr", "rval"), owners=("free",)),
        B.model("random headers with forward declarations", 10 ** 9, sim=60 if Q else 2500, types=5, funs=8, kinds=("struct", "late", "alias", "fwd"), spaces=(0, 1, 3),
                modes=PLAIN, rets=("rptr", "rval"), uses=2, owners=("free", "method"), reqs=("all", "some"), maxreq=2, maxblock=1),
        B.model("random headers with forward declarations in containers", 10 ** 9, sim=20 if Q else 700, types=4, funs=6, kinds=("struct", "late", "alias", "fwd"), spaces=(0, 1, 3),
                modes=ALL, rets=RET, uses=2, owners=("free", "method"))]
    B.run(ck, B.explore(ck, models, keep=fwd), do_compile=True)
    ck.finish()


if __name__ == "__main__":
    main()
