"""C18: the parameter tool never under-sizes the hash table."""
import math, os, re
import toolcheck
from toolcheck import Bad, Outside, call, shown

RULE = ("Bucket sizes 1-600, element counts 2^1-2^40, targets 2^-1 to 2^-120 (also fractional), drawn so that about one in eight is out of reach; "
        "each case runs the program verbosely and quietly and compares size and bound with the first expected load, from the bucket size down, whose "
        "Chernoff bound (computed in logarithms) meets the target. Non-trivial: a reachable target whose table is larger than the smallest one.")


def bound(l, n, mu):
    h = -(-n // mu)
    s = l / mu - 1.0
    return h, math.log(h) + mu * (s - (1 + s) * math.log1p(s))


def expect(l, n, p):
    """(buckets, log bound, expected load) or None when out of reach"""
    target = p * math.log(2)
    for mu in range(l, 0, -1):
        h, b = bound(l, n, mu)
        if abs(b - target) <= 1e-9 * max(1.0, abs(target)):
            raise Outside("a bound equals the target up to rounding")
        if b <= target:
            return h, b, mu
    return None


def generate(r):
    kind = r.random()
    l = r.choice([r.randint(1, 30), r.randint(1, 600), r.randint(1, 200), r.choice([1, 2, 3, 599, 600, 100, 30, 140])])
    n = r.choice([r.randint(1, 40), r.randint(1, 20)])
    p = -r.randint(1, 120) if r.random() < 0.7 else -round(r.uniform(0.01, 120), 3)
    if kind < 0.75:  # mostly reachable
        for _ in range(60):
            try:
                if expect(l, 2 ** n, p):
                    break
            except Outside:
                pass
            l, n, p = r.randint(max(2, min(l, 500)), 600), r.randint(1, n), (p if r.random() < 0.5 else p / 2)
            p = round(p, 3)
            if p > -0.01:
                p = -0.5
    return {"l": l, "n": n, "p": p}


def shrink(c):
    for k, lo in (("l", 1), ("n", 1)):
        v = c[k]
        for w in sorted({lo, v // 2, v - 1}):
            if lo <= w < v:
                yield dict(c, **{k: w})
    if c["p"] != int(c["p"]):
        yield dict(c, p=-max(1, int(-c["p"])))
    elif c["p"] < -1:
        yield dict(c, p=-max(1, int(-c["p"]) // 2))
        yield dict(c, p=c["p"] + 1)


def number(out, tag):
    m = re.search(re.escape(tag) + r"\s*=\s*(\S+)", out)
    if not m:
        raise Bad("no \"%s\" in the output: %r" % (tag, out[:500]))
    return float(m[1])


def main(run, pid, tier, seed, scratch, rdir, env, replay, scale):
    exe = run.build_tool("cherpars")

    def check(c, folder):
        l, n, p = c["l"], 2 ** c["n"], c["p"]
        args = [exe, "-l", str(l), "-n", str(c["n"]), "-p", repr(p)]
        want = expect(l, n, p)
        v, q = call(args, env, folder), call(args + ["-q"], env, folder)
        found = []
        if want is None:
            # out of reach: no size may be given as if it were one
            if v[0] != 0 and q[0] != 0:
                return ["out of reach"], False, []
            if v[0] != 0 or q[0] != 0:
                raise Bad("verbose and quiet disagree: %s; %s" % (shown(v, args), shown(q, args)))
            h, b = bound(l, n, 1)
            try:
                size, prob = number(v[1], "Size of hash table"), number(v[1], "Overflow probability")
            except Bad:
                return ["out of reach"], False, []
            if size != h or not math.isclose(prob, math.exp(b), rel_tol=1e-4) or q[1].strip() != str(h):
                raise Bad("target out of reach for l=%d n=%d p=%s: printed size %s and bound %s, for expected load 1 they are %d and %g" % (l, n, p, size, prob, h, math.exp(b)))
            found.append(("unreachable-target", "target 2^%s is out of reach for 2^%d elements in buckets of %d, yet a table of %d buckets is printed" % (p, c["n"], l, h)))
            return ["out of reach"], False, found
        h, b, mu = want
        if v[0] != 0 or q[0] != 0:
            raise Bad(shown(v, args) + "; " + shown(q, args))
        if not re.fullmatch(r"\s*\d+\s*", q[1]):
            raise Bad("quiet output is %r" % q[1][:200])
        if int(q[1]) != h:
            raise Bad("l=%d n=2^%d p=%s: quiet size %d, the smallest sufficient one is %d (expected load %d)" % (l, c["n"], p, int(q[1]), h, mu))
        size = number(v[1], "Size of hash table")
        if size != h:
            raise Bad("l=%d n=2^%d p=%s: size %s, the smallest sufficient one is %d (expected load %d)" % (l, c["n"], p, size, h, mu))
        prob = number(v[1], "Overflow probability")
        if not math.isclose(prob, math.exp(b), rel_tol=1e-4):
            raise Bad("l=%d n=2^%d p=%s: bound printed %g, it is %g" % (l, c["n"], p, prob, math.exp(b)))
        if not math.isclose(number(v[1], "Target probability"), 2.0 ** p, rel_tol=1e-4):
            raise Bad("l=%d n=2^%d p=%s: target printed %g" % (l, c["n"], p, number(v[1], "Target probability")))
        if number(v[1], "Size of bucket") != l:
            raise Bad("l=%d: size of bucket printed %g" % (l, number(v[1], "Size of bucket")))
        got = number(v[1], "Mu")
        if got == mu - 1:
            found.append(("mu-off-by-one", "the expected load printed is one less than the one the size and the bound belong to"))
        elif got != mu:
            raise Bad("l=%d n=2^%d p=%s: Mu printed %g, the size belongs to %d" % (l, c["n"], p, got, mu))
        labels = ["reachable"]
        if mu == 1:
            labels.append("expected load 1")
        if p != int(p):
            labels.append("fractional target")
        if n > 2 ** 32:
            labels.append("more than 2^32 elements")
        return labels, h > -(-n // l), found

    return toolcheck.drive(run, pid, tier, seed, scratch, rdir, env, replay, scale,
                           {"sizes": (generate, check, shrink, 1500, 30000)}, RULE,
                           ["the Chernoff bound computed in double-precision logarithms is accurate to 1e-9"])
