"""Driver of the properties about the command-line programs: generated
arguments, parallel runs, shrinking, replay files and evidence."""
import json, os, random, resource, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

WALL = 300


class Bad(Exception):
    pass


class Outside(Exception):
    """The case turned out to lie outside the property's domain."""


def limit():
    resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(argv, env, cwd):
    try:
        p = subprocess.run(argv, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=WALL, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise Outside("no answer within %d s of wall time" % WALL)
    out, err = p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        raise Bad("%s used more than 60 s of CPU" % " ".join(argv))
    return p.returncode, out, err


def shown(r, argv):
    return "%s ended with status %d; standard output %r, standard error %r" % (" ".join([os.path.basename(argv[0])] + argv[1:]), r[0], r[1][-400:], r[2][-600:])


def drive(run, pid, tier, seed, scratch, rdir, env, replay, scale, subs, rule, assume):
    """subs: {name: (generate, check, shrink, quick, thorough)}
    generate(rnd) -> case (JSON); check(case, folder) -> (labels, nontrivial, [(known key, text)])"""
    t0 = time.time()
    known = dict(run.known_findings(pid))
    hits = {}

    def one(sub, case, tag):
        folder = os.path.join(scratch, tag)
        os.makedirs(folder, exist_ok=True)
        try:
            labels, nontriv, found = subs[sub][1](case, folder)
            fresh = [f for f in found if f[0] not in known]
            if fresh:
                raise Bad(fresh[0][1])
            return "ok", labels, nontriv, found
        except Bad as e:
            return "bad", str(e), None, []
        except Outside as e:
            return "outside", str(e), None, []
        finally:
            import shutil
            shutil.rmtree(folder, ignore_errors=True)

    if replay:
        d = json.load(open(replay))
        r = one(d["sub"], d["case"], "replay")
        print("case: %s\n%s" % (json.dumps(d["case"]), r[1] if r[0] != "ok" else "the property holds"))
        if r[0] == "bad":
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0

    cases = []
    for name, s in subs.items():
        n = max(1, int((s[4] if tier == "thorough" else s[3]) * scale))
        for i in range(n):
            cases.append((name, s[0](random.Random("%s/%d/%s/%d" % (pid, seed, name, i)))))
    regress = sorted(os.path.join(run.HERE, "regress", f) for f in (os.listdir(os.path.join(run.HERE, "regress")) if os.path.isdir(os.path.join(run.HERE, "regress")) else [])
                     if f.startswith(pid + "-"))
    for f in regress:
        d = json.load(open(f))
        cases.insert(0, (d["sub"], d["case"]))
    labels, distinct, samples, done, nontriv, outside, failure = {}, set(), [], 0, 0, [], None
    deadline = t0 + run.CAP[tier]
    with ThreadPoolExecutor(run.WORKERS) as ex:
        step = 256
        for at in range(0, len(cases), step):
            if time.time() > deadline:
                outside.append("stopped after %d of %d cases for lack of time" % (done, len(cases)))
                break
            part = cases[at:at + step]
            rs = list(ex.map(lambda ic: one(ic[1][0], ic[1][1], "c%d" % ic[0]), enumerate(part)))
            for (sub, case), r in zip(part, rs):
                if r[0] == "outside":
                    outside.append(r[1])
                    continue
                done += 1
                if r[0] == "bad":
                    failure = failure or (sub, case, r[1])
                    continue
                for l in r[1]:
                    labels[l] = labels.get(l, 0) + 1
                for k, text in r[3]:
                    hits.setdefault(k, text)
                if r[2]:
                    nontriv += 1
                    key = sub + json.dumps(case, sort_keys=True)
                    if key not in distinct:
                        distinct.add(key)
                        if len(samples) < 12 and sum(1 for s in samples if s.startswith(sub)) < 6:
                            samples.append(sub + ": " + json.dumps(case)[:600])
            if failure:
                break
    path = None
    if failure:
        sub, case, msg = failure
        # deterministic: the time the programs see is part of the case
        again = [one(sub, case, "again%d" % i) for i in range(2)]
        if any(a[0] != "bad" for a in again):
            outside.append("not reproducible: " + msg)
            failure = None
        else:
            stop = time.time() + (60 if tier == "quick" else 180)
            progress = True
            while progress and time.time() < stop:
                progress = False
                for smaller in subs[sub][2](case):
                    if time.time() > stop:
                        break
                    r = one(sub, smaller, "shrink")
                    if r[0] == "bad":
                        case, msg, progress = smaller, r[1], True
                        break
            n = 1
            while os.path.exists(os.path.join(rdir, "%s-%d.json" % (pid, n))):
                n += 1
            path = os.path.join(rdir, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": sub, "case": case, "failure": msg}, f, indent=1)
    cov = {"evaluations": done, "distinct_nontrivial": len(distinct), "rule": rule, "samples": samples, "planned": len(cases), "nontrivial": nontriv,
           "outside_domain": len(outside), "label_counts": labels, "regression_cases_replayed": len(regress), "known_findings_met": sorted(hits)}
    if failure:
        cov["failure"] = msg
    if outside:
        cov["inconclusive"] = outside[:20]
    run.write_evidence(pid, tier, seed, cov, time.time() - t0, 1 if failure else 0, run.ASSUME + assume)
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, done, len(distinct), time.time() - t0))
    if failure:
        print(msg[:1500])
        print("case: " + json.dumps(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
