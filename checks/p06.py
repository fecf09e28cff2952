"""P06: the allowlist and blocklist decide exactly what gets bound (spec/Bindings.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, bindings as B


def main():
    ck = vl.Check("P06")
    Q = ck.quick
    models = [
        B.model("one type, one function, every request", 260 if Q else 4000, types=1, funs=1, kinds=("struct", "enum", "fwd"), spaces=(0, 1, 2, 3), modes=("cref",), owners=("free", "method"),
                reqs=("all", "some"), maxreq=2, maxblock=1),
        B.model("two types, methods, namespaces", 500 if Q else 9000, types=2, funs=1, kinds=("struct", "alias"), spaces=(1, 2, 3) if Q else (0, 1, 2, 3), modes=("cref",), rets=("rptr",), owners=("free", "method"),
                reqs=("all", "some"), maxreq=1, maxblock=1),
        B.model("random headers of six types and eight functions", 10 ** 9, sim=450 if Q else 5000, types=6, funs=8, kinds=("struct", "late", "enum", "alias", "fwd", "holds", "derives"), spaces=(0, 1, 2, 3),
                modes=("cref", "mref", "val", "mptr", "cptr"), rets=("rptr", "rval"), uses=2, owners=("free", "method"), fates=("ok", "variadic", "private"), reqs=("all", "some", "some"), maxreq=3, maxblock=2)]
    B.run(ck, B.explore(ck, models), do_compile=False)
    ck.finish()


if __name__ == "__main__":
    main()
