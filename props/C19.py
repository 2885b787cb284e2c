"""C19: the command-line programs do what they report."""
import hashlib, math, os, re, struct
import toolcheck
from toolcheck import Bad, Outside, call, shown

RULE = ("generator: counts 1-3000, bit sizes 1-2000 and seeding times; the whole file is checked. table: files written here or by the generator, 1-500 "
        "numbers, three hash algorithms, 1-300 buckets, loads that just suffice, have slack or are too small according to an independent placement. "
        "simulation: sets of 1-150 elements, 0..n common ones, plain sizes down to the smallest that can hold them, fields of at least 44 bits more, "
        "tables sized to hold the sets (one bucket for all, or Poisson tail below 1e-12). polynomials: tables that hold any placement, or too few cells "
        "for the numbers; the steps' totals and averages. factoring: 1-40 polynomials of degree 0-30 over fields of 2-160 bits; the statistics against each other. Non-trivial: more than ten numbers; a table with two "
        "buckets or more or a refused overflow; a simulation with both common and uncommon elements.")
M64 = (1 << 64) - 1


def rotl(x, r):
    return ((x << r) | (x >> (64 - r))) & M64


def fmix(k):
    k ^= k >> 33
    k = k * 0xff51afd7ed558ccd & M64
    k ^= k >> 33
    k = k * 0xc4ceb9fe1a85ec53 & M64
    return k ^ (k >> 33)


def murmur(data, seed):
    c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
    h1 = h2 = seed
    n = len(data)
    for i in range(0, n // 16 * 16, 16):
        k1, k2 = struct.unpack_from("<QQ", data, i)
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
        h1 = ((rotl(h1, 27) + h2) * 5 + 0x52dce729) & M64
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
        h2 = ((rotl(h2, 31) + h1) * 5 + 0x38495ab5) & M64
    t = data[n // 16 * 16:]
    k1, k2 = int.from_bytes(t[:8], "little"), int.from_bytes(t[8:], "little")
    if k2:
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
    if k1:
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
    h1 ^= n
    h2 ^= n
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    h1, h2 = fmix(h1), fmix(h2)
    h1 = (h1 + h2) & M64
    h2 = (h2 + h1) & M64
    return struct.pack("<QQ", h1, h2)


DIGEST = {"MH3": lambda b: murmur(b, 1234567890), "SHA1": lambda b: hashlib.sha1(b).digest(), "SHA256": lambda b: hashlib.sha256(b).digest()}


def poisson_tail(m, l):
    """P(X > l)"""
    t, s = math.exp(-m) if m < 700 else 0.0, 0.0
    term = -m
    for i in range(l + 1, l + 400):
        s += math.exp(-m + i * math.log(m) - math.lgamma(i + 1))
    return s


# --- the number generator ---------------------------------------------------
def gen_numbers(r):
    n = r.choice([r.randint(10, 60), r.randint(10, 400), r.randint(1, 12), r.choice([9, 10, 11, 99, 100, 101, 1000]), r.randint(10, 3000)])
    b = r.choice([r.randint(1, 20), r.randint(1, 200), r.randint(1, 2000), 8 * r.randint(1, 60)])
    return {"n": n, "b": b, "time": r.randint(0, 2 ** 33)}


def smaller(c, keys):
    for k, lo in keys:
        v = c[k]
        for w in sorted({lo, (v + lo) // 2, v - 1}):
            if lo <= w < v:
                yield dict(c, **{k: w})


def main(run, pid, tier, seed, scratch, rdir, env, replay, scale):
    zz, hb, simul = run.build_tool("zzrndgen"), run.build_tool("hbtest"), run.build_tool("eopsisimul")
    bp, pf = run.build_tool("bptest"), run.build_tool("polyfact")

    def timed(c):
        return dict(env, EOPSI_TIME=str(c["time"]))

    def numbers(c, folder):
        out = os.path.join(folder, "numbers")
        args = [zz, "-b", str(c["b"]), "-n", str(c["n"]), "-o", out]
        r = call(args, timed(c), folder)
        if 1 <= c["n"] < 10 and r[0] != 0 and (r[0] == -8 or "division by zero" in r[2] or "FPE" in r[2]):
            return ["fewer than ten"], False, [("zzrndgen-below-ten", "zzrndgen -n %d dies of a division by zero" % c["n"])]
        if r[0] != 0:
            raise Bad(shown(r, args))
        words = open(out).read().split()
        if words[:2] != [str(c["b"]), str(c["n"])]:
            raise Bad("the file begins with %s instead of bit size %d and count %d" % (words[:2], c["b"], c["n"]))
        v = words[2:]
        if len(v) != c["n"]:
            raise Bad("%d numbers in the file instead of %d" % (len(v), c["n"]))
        for i, w in enumerate(v):
            if not re.fullmatch(r"\d+", w) or int(w) >> c["b"]:
                raise Bad("number %d, %s, is not a natural below 2^%d" % (i, w[:100], c["b"]))
        if "%d pseudo-random numbers of maximum %d bits" % (c["n"], c["b"]) not in r[1]:
            raise Bad("the report is %r" % r[1][-300:])
        return ["numbers"] + (["several digests"] if c["b"] > 160 else []), c["n"] > 10, []

    # --- the hash-table program ----------------------------------------------
    def gen_table(r):
        n = r.choice([r.randint(1, 12), r.randint(1, 100), r.randint(10, 500)])
        b = r.choice([r.randint(1, 16), r.randint(8, 130), r.randint(100, 600)])
        k = r.choice([1, r.randint(1, 8), r.randint(1, 60), r.randint(1, 300)])
        return {"n": n, "b": b, "k": k, "slack": r.choice([-1, 0, 0, 1, 5]), "alg": r.choice(sorted(DIGEST)), "time": r.randint(0, 2 ** 33),
                "own": r.random() < 0.5 and n >= 10, "vseed": r.randint(0, 2 ** 40)}

    def table(c, folder):
        import random
        path = os.path.join(folder, "numbers")
        if c["own"] and c["n"] >= 10:
            r = call([zz, "-b", str(c["b"]), "-n", str(c["n"]), "-o", path], timed(c), folder)
            if r[0] != 0:
                raise Bad(shown(r, [zz]))
        else:
            rnd = random.Random(c["vseed"])
            vals = [rnd.choice([rnd.getrandbits(c["b"]), rnd.getrandbits(min(c["b"], 5))]) for _ in range(c["n"])]
            with open(path, "w") as f:
                f.write("%d\n%d\n%s\n" % (c["b"], c["n"], "\n".join(map(str, vals))))
        words = open(path).read().split()[2:]
        place = [0] * c["k"]
        for w in words:
            place[int.from_bytes(DIGEST[c["alg"]](w.encode()), "little") % c["k"]] += 1
        load = max(1, max(place) + c["slack"])
        args = [hb, "-a", c["alg"], "-k", str(c["k"]), "-l", str(load), "-i", path]
        r = call(args, timed(c), folder)
        if load < max(place):
            if r[0] != 1 or not r[2].strip():
                raise Bad("a bucket of %d needs room for %d: %s" % (load, max(place), shown(r, args)))
            return ["refused"], True, []
        if r[0] != 0:
            raise Bad(shown(r, args))

        def num(tag):
            m = re.search(re.escape(tag) + r"\s*(\S+)", r[1])
            if not m:
                raise Bad("no %r in %r" % (tag, r[1][:400]))
            return float(m[1])

        n = len(words)
        avg = n / c["k"]
        var = sum((x - avg) ** 2 for x in place) / c["k"]
        for tag, want in (("N =", n), ("min =", min(place)), ("max =", max(place)), ("\nAverage.   m =", avg), ("v =", var), ("d =", math.sqrt(var)),
                          ("HashBuchets -", c["k"]), ("buckets of size", load), ("Total time to add", n)):
            if not math.isclose(num(tag), want, rel_tol=3e-5, abs_tol=3e-5):
                raise Bad("%s %g reported, it is %g: %r" % (tag.strip(), num(tag), want, r[1][:600]))
        for i in range(min(c["k"], 30)):
            if "(%d, %d)" % (i, place[i]) not in r[1]:
                raise Bad("bucket %d should hold %d: %r" % (i, place[i], r[1][:1500]))
        return ["table", c["alg"]], c["k"] >= 2, []

    # --- the simulation ------------------------------------------------------
    def gen_sim(r):
        n = r.choice([1, r.randint(1, 10), r.randint(1, 40), r.randint(1, 150)])
        least = max(1, (n - 1).bit_length())
        b = r.choice([least + r.randint(0, 3), least + r.randint(0, 40), 32, r.randint(max(least, 20), 130)])
        b = max(b, least)
        p = b + r.choice([44 + r.randint(0, 20), 81, r.randint(44, 250)])
        rr = r.choice([0, n, r.randint(0, n), min(1, n)])
        one = b < 2 * least + 12 or r.random() < 0.2
        if one and n <= 40 or b < 2 * least + 12:
            k, l = r.randint(1, 4), n
        else:
            for _ in range(1000):
                k = r.randint(1, 40)
                l = r.randint(1, 25)
                if k * poisson_tail(n / k, l) < 1e-12:
                    break
            else:
                k, l = 40, 40
        return {"n": n, "r": rr, "b": b, "p": p, "k": k, "l": l, "time": r.randint(1, 2 ** 33)}

    def holds(c):
        least = max(1, (c["n"] - 1).bit_length())
        if c["n"] < 1 or c["r"] > c["n"] or c["b"] < least or c["p"] < c["b"] + 44:
            return False
        if c["l"] >= c["n"]:
            return True
        return c["b"] >= 2 * least + 12 and c["k"] * poisson_tail(c["n"] / c["k"], c["l"]) < 1e-12

    def sim(c, folder):
        if not holds(c):
            raise Outside("a table that may be too small")
        args = [simul] + [x for f in "nrbpkl" for x in ("-" + f, str(c[f]))]
        r = call(args, timed(c), folder)
        if r[0] != 0:
            raise Bad(shown(r, args))
        m = re.search(r"Size of intersection: (\d+)", r[1])
        if not m or not c["r"] <= int(m[1]) <= c["n"]:
            raise Bad("size of intersection %s with %d common elements: %s" % (m and m[1], c["r"], shown(r, args)))
        if not re.search(r"Checking protocol intersection\.\.\.\s+correct\.", r[1]):
            raise Bad(shown(r, args))
        labels = ["simulation"]
        if c["r"] == 0:
            labels.append("nothing in common")
        if c["r"] == c["n"]:
            labels.append("everything in common")
        if c["l"] == c["n"]:
            labels.append("bucket for all")
        return labels, 0 < c["r"] < c["n"], []

    def shrink_sim(c):
        for s in smaller(c, (("n", 1), ("r", 0), ("k", 1), ("b", 1), ("p", 45), ("l", 1), ("time", 1))):
            if s["r"] > s["n"]:
                s["r"] = s["n"]
            if holds(s):
                yield s

    # --- the polynomial program ----------------------------------------------
    def gen_poly(r):
        n = r.choice([1, r.randint(1, 12), r.randint(1, 60)])
        p = r.choice([r.randint(20, 64), 113, r.randint(40, 200)])
        k = r.choice([1, r.randint(1, 6), r.randint(1, 25)])
        l = r.choice([n, n + r.randint(0, 6), max(1, (n - 1) // k)])
        return {"n": n, "b": r.randint(1, p - 2), "p": p, "k": k, "l": l, "alg": r.choice(sorted(DIGEST)), "time": r.randint(1, 2 ** 33), "vseed": r.randint(0, 2 ** 40)}

    def poly(c, folder):
        import random
        if c["k"] * c["l"] >= c["n"] > c["l"]:
            raise Outside("a table that may be too small")
        path = os.path.join(folder, "numbers")
        rnd = random.Random(c["vseed"])
        with open(path, "w") as f:
            f.write("%d\n%d\n%s\n" % (c["b"], c["n"], "\n".join(str(rnd.getrandbits(c["b"])) for _ in range(c["n"]))))
        args = [bp, "-a", c["alg"], "-k", str(c["k"]), "-l", str(c["l"]), "-p", str(c["p"]), "-i", path]
        r = call(args, timed(c), folder)
        found = []
        if c["n"] > c["k"] * c["l"]:
            if r[0] != 1 or not r[2].strip() or "Generating" in r[1]:
                raise Bad("%d numbers for %d cells: %s" % (c["n"], c["k"] * c["l"], shown(r, args)))
            return ["polynomials refused"], True, []
        if r[0] == 77 and "alloc-dealloc-mismatch (operator new [] vs operator delete)" in r[2] and re.search(r"#1 \S+ in main ", r[2]) and "Total time to blind" in r[1]:
            found = [("bptest-delete", "bptest gives an array back with the wrong form of delete when it ends")]
        elif r[0] != 0:
            raise Bad(shown(r, args))
        u = 2 * c["l"] + 1
        for what, n in (("read and pad %d numbers" % c["n"], c["n"]), ("add %d elements to the hashtable" % c["n"], c["n"]),
                        ("conceal the hashtable (fill empty buckets)", c["k"]), ("generate %d polynomials" % c["k"], c["k"]),
                        ("generate %d random unknowns" % u, u), ("evaluate %d polynomials against %d unknowns" % (c["k"], u), c["k"] * u),
                        ("blind %dx%d evaluations" % (c["k"], u), c["k"] * u)):
            m = re.search(r"Total time to " + re.escape(what) + r": (\S+) s\nAverage time to [^:]*: (\S+) ", r[1])
            if not m:
                raise Bad("no total time to %s: %s" % (what, shown(r, args)))
            total, avg = float(m[1]), float(m[2])
            if total < 0 or not math.isclose(total * 1e6, avg * n, rel_tol=3e-5, abs_tol=1e-3):
                raise Bad("%s: %s s altogether, %s us on average of %d" % (what, m[1], m[2], n))
        return ["polynomials"], c["k"] > 1, found

    # --- the factoring program -----------------------------------------------
    def gen_fact(r):
        return {"n": r.choice([r.randint(10, 40), r.randint(1, 12), r.choice([1, 9, 10, 11, 19, 20, 21])]), "d": r.choice([0, 1, r.randint(0, 12), r.randint(0, 30)]),
                "b": r.choice([r.randint(2, 16), r.randint(10, 64), r.randint(40, 160)]), "q": r.random() < 0.5, "time": r.randint(1, 2 ** 33)}

    def fact(c, folder):
        args = [pf, "-n", str(c["n"]), "-d", str(c["d"]), "-b", str(c["b"])] + (["-q"] if c["q"] else [])
        r = call(args, timed(c), folder)
        if c["n"] < 10 and not c["q"] and r[0] != 0 and (r[0] == -8 or "division by zero" in r[2] or "FPE" in r[2]):
            return ["fewer than ten experiments"], False, [("polyfact-below-ten", "polyfact -n %d without -q dies of a division by zero" % c["n"])]
        if r[0] != 0:
            raise Bad(shown(r, args))
        if c["q"]:
            rows = [r[1].split()]
        else:
            rows = [re.findall(r"(?:Avg|StdDev|Min|Max|Total): (\S+)", part) for part in r[1].split(" -- ")[3:]]
            m = re.search(r"modulo = (\d+) \((\d+) bits\)", r[1])
            if not m or int(m[1]).bit_length() != c["b"] or int(m[2]) != c["b"] or pow(3, int(m[1]), int(m[1])) != 3 % int(m[1]) or pow(2, int(m[1]), int(m[1])) != 2 % int(m[1]):
                raise Bad("a modulus of %d bits was asked: %s" % (c["b"], shown(r, args)))
            for tag, want in (("experiments", c["n"]), ("Degree", c["d"])):
                if "%s = %d\n" % (tag, want) not in r[1]:
                    raise Bad("%s: %s" % (tag, shown(r, args)))
            if len(rows) != 2:
                raise Bad(shown(r, args))
        for row in rows:
            if len(row) != 5:
                raise Bad(shown(r, args))
            avg, sd, mn, mx, total = map(float, row)
            e = 1e-5 * mx + 1e-9
            if not (0 <= mn <= avg + e and avg <= mx + e and 0 <= sd <= mx - mn + e):
                raise Bad("minimum %s, average %s, maximum %s, deviation %s" % (row[2], row[0], row[3], row[1]))
            if not math.isclose(total * 1e3, avg * c["n"], rel_tol=3e-5, abs_tol=1e-6):
                raise Bad("%s s altogether, %s ms on average of %d" % (row[4], row[0], c["n"]))
        return ["factoring"] + (["quiet"] if c["q"] else []), c["n"] > 1 and c["d"] > 1, []

    return toolcheck.drive(run, pid, tier, seed, scratch, rdir, env, replay, scale, {
        "generator": (gen_numbers, numbers, lambda c: smaller(c, (("n", 1), ("b", 1), ("time", 0))), 300, 4000),
        "table": (gen_table, table, lambda c: smaller(c, (("n", 1), ("b", 1), ("k", 1))), 500, 8000),
        "simulation": (gen_sim, sim, shrink_sim, 300, 6000),
        "polynomials": (gen_poly, poly, lambda c: smaller(c, (("n", 1), ("k", 1), ("b", 1))), 200, 3000),
        "factoring": (gen_fact, fact, lambda c: smaller(c, (("n", 1), ("d", 0), ("b", 2))), 150, 2000)}, RULE,
        ["the programs' only sources of randomness are the C library's generator and NTL's, both seeded with the time"])
