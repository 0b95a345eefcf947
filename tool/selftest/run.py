#!/usr/bin/env python3
"""Development aid: applies each case of cases*.py to a scratch copy of /repo, type-checks it by running the
analyser, and compares which checks raise an alarm with what the case expects.
usage: run.py [-j N] [-v] [--full] [--pairs N SEED] [name-or-glob ...]
Only the messages in the edited files, the dispatching ones and a sample of the others are looked at, unless --full.
--pairs puts N random cases on top of a random case that keeps the behaviour."""
import random, sys, os, subprocess, shutil, tempfile, re, fnmatch, importlib.util
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
ALL = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C16,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26,C27".split(",")


def load():
    out = []
    for f in sorted(os.listdir(here)):
        if f.startswith("cases") and f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(here, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            out += m.CASES
    return out


def find(root, suffix):
    hits = []
    for d, dn, fn in os.walk(root):
        if "/test/" in d + "/" or "/build" in d:
            continue
        for f in fn:
            p = os.path.join(d, f)
            if p.endswith("/" + suffix):
                hits.append(p)
    if not hits:
        return None
    return sorted(hits)[0]


def one(case, verbose):
    tmp = tempfile.mkdtemp(prefix="selftest.")
    try:
        repo, home = tmp + "/repo", tmp + "/verif"
        os.mkdir(repo)
        subprocess.check_call("cd /repo && tar cf - --exclude=.git --exclude=build . | tar xf - -C " + repo, shell=True)
        os.mkdir(home)
        for n in ("tool", "spec", "build", "known-findings.txt"):
            os.symlink(os.path.join(verif, n), os.path.join(home, n)) if n != "tool" else subprocess.check_call(
                ["cp", "-a", os.path.join(verif, "tool"), home])
        os.mkdir(home + "/evidence")
        for e in case["edits"]:
            if e[0].startswith("glob:"):
                n = 0
                for d, dn, fn in os.walk(repo):
                    for x in fn:
                        q = os.path.join(d, x)
                        if re.search(e[0][5:] + "$", q) and "/build/" not in q:
                            s = open(q).read()
                            t = e[2](s)
                            if t != s:
                                n += 1
                                open(q, "w").write(t)
                if n == 0:
                    return case, None, "changes nothing"
                case["n"] = n
                continue
            if e[0].startswith("new:"):
                q = os.path.join(repo, e[0][4:])
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write(e[2])
                continue
            f = find(repo, e[0])
            if f is None:
                return case, None, "no file " + e[0]
            s = open(f).read()
            if e[1] is None:
                try:
                    s = e[2](s)
                except (ValueError, AssertionError, AttributeError, IndexError) as x:
                    return case, None, str(x)
            elif s.count(e[1]) < 1:
                return case, None, "pattern not in " + e[0] + ": " + e[1][:60]
            else:
                s = s.replace(e[1], e[2], e[3] if len(e) > 3 else 1)
            open(f, "w").write(s)
        env = dict(os.environ, REPO=repo)
        if not FULL and not any(e[0].startswith("glob:") for e in case["edits"]):
            env["WIREFX_ONLY"] = ",".join(sorted({os.path.basename(e[0])[:-5] for e in case["edits"]}))
        p = subprocess.run(["timeout", "300", home + "/tool/run.sh", "check", ",".join(ALL)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got, und = set(), {}
        for l in p.stdout.splitlines():
            m = re.match(r"VIOLATION property=(\w+)", l)
            if m:
                got.add(m.group(1))
            m = re.match(r"(C\d\d): .* (\d+) undecided", l)
            if m and int(m.group(2)):
                und[m.group(1)] = int(m.group(2))
        done = set(re.findall(r"^(C\d\d): ", p.stdout, re.M))
        noans = [i for i in ALL if i not in done] if p.returncode not in (0, 1) else []
        return case, (got, und, noans), p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


FULL = False


def pairs(cases, n, seed):
    g = random.Random(seed)
    same = [c for c in cases if not c["bad"] and not any(e[0].startswith("glob:") for e in c["edits"])]
    rest = [c for c in cases if not any(e[0].startswith("glob:") for e in c["edits"])]
    files = lambda c: {e[0] for e in c["edits"]}
    out = []
    while len(out) < n:
        a, b = g.choice(same), g.choice(rest)
        if a is b or not files(a) & files(b):
            continue
        out.append(dict(name=a["name"] + "+" + b["name"], edits=list(a["edits"]) + list(b["edits"]), bad=b["bad"], pair=True))
    return out


def main():
    global FULL
    a = sys.argv[1:]
    j, verbose, pr = 4, False, None
    while a and a[0].startswith("-"):
        if a[0] == "-j":
            j = int(a[1]); a = a[2:]
        elif a[0] == "--full":
            FULL = True; a = a[1:]
        elif a[0] == "--pairs":
            pr = (int(a[1]), int(a[2])); a = a[3:]
        else:
            verbose = True; a = a[1:]
    cases = [c for c in load() if not a or any(fnmatch.fnmatch(c["name"], g) for g in a)]
    if pr:
        cases = pairs(cases, *pr)
    subprocess.check_call([os.path.join(verif, "tool", "build.sh")])
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for case, r, out in ex.map(lambda c: one(c, verbose), cases):
            if case.get("pair") and (r is None or len(r[2]) == len(ALL)):
                continue  # the two do not go together
            if r is None:
                print("BROKEN CASE %-32s %s" % (case["name"], out)); bad += 1
                continue
            got, und, noans = r
            want = set(case["bad"])
            ok = want <= got and not (not want and got) and not noans
            bad += not ok
            print("%s %-34s want=%s got=%s%s%s" % ("ok  " if ok else "FAIL", case["name"], ",".join(sorted(want)) or "-", ",".join(sorted(got)) or "-",
                  "".join(" ?%s:%d" % x for x in sorted(und.items())), " NOANSWER " + ",".join(noans) if noans else ""), flush=True)
            if verbose or not ok and not want:
                print("\n".join("    " + l[:260] for l in out.splitlines() if re.match("VIOLATION|UNDEC|  |NO ANS|Exception|/.*error", l))[:3500])
            elif not ok and ("error" in out or noans):
                print("\n".join(out.splitlines()[-6:])[:1500])
    print("%d cases, %d not as expected" % (len(cases), bad))


main()
