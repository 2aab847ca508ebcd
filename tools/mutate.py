#!/usr/bin/env python3
"""How much the Verus contracts notice: change one operator or constant of an extracted function at a time.

  mutate.py MODULE [count] [seed]      (development aid; works on a scratch copy of /repo's sources)

Prints for each change whether an obligation failed, the function left the verifier's reach, or all was accepted
(then the change keeps the contract, or the contract is too weak)."""
import os, random, re, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
MUT = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"(?<![\w.x])0(?![\w.x])", ["1"]), (r"(?<![\w.x])1(?![\w.x])", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\breturn;", [";"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r"push_back", ["push_front"]), (r"pop_front", ["pop_back"])]


def main():
    mod, n, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 20, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        os.environ["VERIF_REPO"] = tmp
        import vextract as v
        _, items = v.parse(os.path.join(root, "verus", mod + ".rs"))
        sites = []
        for it in items:
            if isinstance(it, str) or it.get("trusted"):
                continue
            src = open("%s/src/%s" % (tmp, it["file"])).read()
            try:
                sig, body, line = v.find_fn(it["file"], it["qual"])
            except v.Lost as e:
                print("lost", it["qual"], e)
                continue
            a = src.find(body)
            if a < 0:
                continue
            m = v.mask(body)
            for pat, tos in MUT:
                for k in re.finditer(pat, m):
                    for to in tos:
                        sites.append((it["file"], it["qual"], a + k.start(), a + k.end(), to, line + body[:k.start()].count("\n")))
        sites = sorted(set(sites))
        random.Random(seed).shuffle(sites)
        print(len(sites), "possible changes")

        class C:
            thorough = False

        def sh(cmd, cwd, env, limit):
            e = dict(os.environ, **env)
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
            return p.returncode, p.stdout
        for f, q, a, b, to, line in sites[:n]:
            p = "%s/src/%s" % (tmp, f)
            s = open(p).read()
            open(p, "w").write(s[:a] + to + s[b:])
            r = v.run_module(C, sh, os.path.join(root, "verus", mod + ".rs"), tmp)
            st = "FAILED " if r["fails"] else "gaveup " if r["gave"] else "reach  " if r["stubs"] or r["error"] else "ACCEPTED"
            print(st, q, "src/%s:%d" % (f, line), repr(s[a:b]), "=>", repr(to), "|", s[s.rfind("\n", 0, a) + 1:s.find("\n", a)].strip()[:90], flush=True)
            open(p, "w").write(s)
    finally:
        shutil.rmtree(tmp)


main()
