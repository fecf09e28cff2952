"""P05: the bindings are closed and compile, whatever the header contains (spec/Bindings.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, bindings as B


def main():
    ck = vl.Check("P05")
    Q = ck.quick
    ALL = ("cref", "mref", "val", "mptr", "cptr", "rref")
    models = [
        B.model("every kind of type in every position", 70 if Q else 3000, types=1, funs=1, kinds=("struct", "enum", "bad", "fwd"), spaces=(0, 3), modes=ALL, rets=("rptr", "rval"), owners=("free", "method"),
                fates=("ok", "variadic", "private", "deleted", "rvret", "ptrptr")),
        B.model("aliases", 60 if Q else 3000, types=2, funs=1, kinds=("struct", "enum", "alias", "bad"), spaces=(0, 3), modes=("cref", "val"), rets=("rptr",), owners=("free",), maxblock=1),
        B.model("members and bases", 60 if Q else 3000, types=2, funs=1, kinds=("struct", "bad", "holds", "derives"), spaces=(0, 3), modes=("cref", "val"), rets=("rptr",), owners=("free", "method"), maxblock=1),
        B.model("random headers of six types and eight functions", 10 ** 9, sim=130 if Q else 2500, types=6, funs=8, kinds=("struct", "late", "enum", "alias", "fwd", "bad", "holds", "derives"), spaces=(0, 1, 2, 3),
                modes=ALL, rets=("rptr", "rval"), uses=2, owners=("free", "method"), fates=("ok", "variadic", "private", "deleted", "rvret", "ptrptr"), reqs=("all", "all", "some"), maxreq=3, maxblock=2),
        B.model("random headers with smart pointers", 10 ** 9, sim=25 if Q else 600, types=4, funs=6, kinds=("struct", "late", "enum", "alias", "bad", "holds", "derives"), spaces=(0, 1, 3),
                modes=ALL + ("uptr", "sptr", "vec"), rets=("rptr", "rval", "ruptr"), uses=2, owners=("free", "method"), reqs=("all",), maxblock=1)]
    bad = {k.split()[0][len("exotic:"):] for k in ck.known}
    fine = B.exos(ck, bad)
    models += [
        B.model("each unusual declaration beside ordinary ones", 10 ** 9, spec="ExoSpec", types=2, funs=1, exos=B.exos(ck)),
        B.model("pairs of unusual declarations", 25 if Q else 4000, spec="ExoSpec", types=2, funs=2, exos=fine if not Q else vl.seeded_pick(fine, 40)),
        B.model("random headers with unusual declarations", 10 ** 9, sim=25 if Q else 1000, types=5, funs=12, kinds=("struct", "late", "enum", "alias", "bad", "holds", "derives"), spaces=(0, 1, 3),
                modes=ALL, rets=("rptr", "rval"), uses=2, owners=("free", "method"), fates=("ok",), reqs=("all",), exos=fine)]
    B.run(ck, B.explore(ck, models), do_compile=True)
    ck.finish()


if __name__ == "__main__":
    main()
