"""P21: what autocxx finds by itself in a Rust file (spec/Discovery.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vl, discovery


def main():
    ck = vl.Check("P21")
    Q = ck.quick
    con = lambda d, n: "CONSTANTS MaxDepth = %d\n MaxItems = %d\n" % (d, n)
    spot = "SPECIFICATION Spec\n%sINVARIANT EmitSpot\nCHECK_DEADLOCK FALSE\n"
    file = "SPECIFICATION %s\n%sINVARIANTS TypeOK Monotone EmitFile\nCHECK_DEADLOCK FALSE\n"
    jobs = [("Discovery", spot % con(2, 0), {}), ("Discovery", spot % con(3, 0), {}),
            ("Discovery", spot % con(9, 0), dict(extra=("-simulate", "num=%d" % (4000 if Q else 40000), "-depth", "12", "-seed", str(vl.SEED)))),
            ("Discovery", file % ("FSpec", con(0, 2)), {}), ("Discovery", file % ("FSpec", con(0, 3)), {}),
            ("Discovery", file % ("FSim", con(0, 7)), dict(extra=("-simulate", "num=%d" % (400 if Q else 4000), "-depth", "9", "-seed", str(vl.SEED + 1))))]
    names = ["all positions to depth 2", "all positions to depth 3", "random positions to depth 9", "all files of two things", "all files of three things", "random files of seven things"]
    rs = vl.tlc_many(jobs)
    for r, n in zip(rs, names):
        ck.model(r, n)
    got = [r.lines("CASE:") for r in rs]
    spots, seen = [], set()
    for cs, n in zip(got[:3], (100000, 3000 if Q else 40000, 2500 if Q else 20000)):
        for s in vl.seeded_pick(cs, n):
            key = (tuple(s["chain"]), s["leaf"])
            if key not in seen and s["chain"]:
                seen.add(key)
                spots.append(s)
    files, seen = [], set()
    for cs, n in zip(got[3:], (100000, 500 if Q else 8000, 500 if Q else 6000)):
        for c in vl.seeded_pick(cs, n):
            key = repr(c)
            if key not in seen:
                seen.add(key)
                files.append(c)
    # mentions, many in one file; a file which fails is taken apart
    recs, todo, num = [], [spots[i:i + 120] for i in range(0, len(spots), 120)], 0
    while todo:
        part = {}
        for g in todo:
            part["g%d" % num] = g
            num += 1
        res = vl.run_axv([discovery.case(k, g) for k, g in part.items()])
        todo = []
        for k, g in part.items():
            r = res[k]
            if r["status"] == "ok":
                recs += [dict(k="spot", chain=s["chain"], leaf=s["leaf"], found=f, status="ok") for s, f in zip(g, discovery.found(r, g))]
            elif len(g) > 1:
                todo += [g[:len(g) // 2], g[len(g) // 2:]]
            else:
                ck.violation("fails: %s in %s" % (g[0]["leaf"], " > ".join(g[0]["chain"])), "with this written in the file, there are no bindings: %s: %s" % (discovery.render(g[0], 0), str(r.get("error"))[:300]), g[0])
    nspots = len(recs)
    res = vl.run_axv([discovery.file_case("f%d" % i, c) for i, c in enumerate(files)])
    for i, c in enumerate(files):
        r = res["f%d" % i]
        recs.append(dict(k="file", file=c["file"], auto=c["auto"], status="error" if r["status"] in ("error", "parse_error", "cxx_error") else r["status"], error=str(r.get("error", ""))[:300],
                         bound=discovery.file_bound(r, c) if r["status"] == "ok" else []))
    for i, r in enumerate(recs):
        r["id"] = "r%d" % i
    rej, st, tr = vl.validate("DiscoveryTrace", recs, con(9, 7), chunk=2500)
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["states"] += st
    ck.cov["transitions"] += tr
    ck.add("mentions", nspots)
    ck.add("files", len(files))
    byid = {r["id"]: r for r in recs}
    worst = {}
    for j in rej:
        r = byid[j["id"]]
        if r["k"] == "spot":
            worst.setdefault((j["why"],), []).append(r)
        else:
            show = "; ".join("%s%s" % (x["t"], " (%s)" % ", ".join("%s" % v for k, v in x.items() if k != "t")) for x in r["file"])
            ck.violation("%s: %s" % (j["why"], show), "%s in a file of %s (automatic allowlist: %s)" % (j["why"], show, r["auto"]), r)
    # of mentions rejected, report the innermost explanation: a shortest rejected chain within each
    for (why,), rs_ in worst.items():
        rs_.sort(key=lambda r: len(r["chain"]))
        kept = []
        for r in rs_:
            if not any(all(p in r["chain"] for p in k["chain"]) and k["leaf"] == r["leaf"] for k in kept):
                kept.append(r)
        for r in kept:  # noqa
            ck.violation("%s: %s in %s" % (why, r["leaf"], " > ".join(r["chain"])), "%s: %s in %s, as in: %s" % (why, r["leaf"], " > ".join(r["chain"]), discovery.render(r, 0)), r)
    ck.sample(*[{"text": discovery.render(r, 0), "found": r["found"]} for r in recs[:nspots:max(1, nspots // 6)]])
    ck.finish()


if __name__ == "__main__":
    main()
