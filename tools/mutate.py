#!/usr/bin/env python3
"""Mutation campaign (development tool only): mutate.py list | run OUT.jsonl [start step].
Every mutant of include/tiny/optional.h that compiles and survives two configurations of the repository's tests is given to the checks,
until one of them reports; mutants no check reports are listed for manual triage (equivalent, not covered by a property, or a miss)."""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDR = "/repo/include/tiny/optional.h"


def mask_comments(s):
    out = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)
    return re.sub(r'"(?:[^"\\\n]|\\.)*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', out)


def close(s, i, o="(", c=")"):
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def mutants(s):
    m = mask_comments(s)
    # ranges of static_assert(...) and preprocessor lines are skipped
    skip = []
    for x in re.finditer(r"static_assert\s*\(", m):
        skip.append((x.start(), close(m, x.end() - 1)))
    for x in re.finditer(r"^\s*#.*(?:\\\n.*)*", m, re.M):
        if "TINY_OPTIONAL_IMPL_COMPARE" not in x.group(0):
            skip.append((x.start(), x.end()))
    ok = lambda i: not any(a <= i <= b for a, b in skip)
    res = []

    def add(a, b, new, what):
        if ok(a) and s[a:b] != new:
            res.append((a, b, new, what))

    for x in re.finditer(r"std::move\(", m):
        e = close(m, x.end() - 1)
        add(x.start(), e + 1, s[x.end():e], "no move")
    for x in re.finditer(r"std::forward<\w+>\(", m):
        e = close(m, x.end() - 1)
        add(x.start(), e + 1, s[x.end():e], "no forward")
    for x in re.finditer(r"std::addressof\(", m):
        e = close(m, x.end() - 1)
        add(x.start(), e + 1, "&" + s[x.end():e], "no addressof")
    for x in re.finditer(r"\b(?:std::)?(?:my_)?(remove_cv_t|remove_const_t|remove_cvref_t|decay_t|remove_reference_t)<", m):
        e = close(m, x.end() - 1, "<", ">")
        add(x.start(), e + 1, s[x.end():e], "no " + x.group(1))
    for x in re.finditer(r"!?std::is_\w+_v<", m):
        e = close(m, x.end() - 1, "<", ">")
        add(x.start(), e + 1, "true", "trait true")
        add(x.start(), e + 1, "false", "trait false")
    for x in re.finditer(r"(?<=[\w)>] )(&&|\|\|)(?= ?[!\w(*])", m):
        add(x.start(), x.end(), "||" if x.group(1) == "&&" else "&&", "and/or")
    for x in re.finditer(r"(?<= )(==|!=|<=|>=|<|>)(?= [\w*])", m):
        for n in {"==": ["!="], "!=": ["=="], "<=": ["<", ">="], ">=": [">", "<="], "<": ["<=", ">"], ">": [">=", "<"]}[x.group(1)]:
            add(x.start(), x.end(), n, "compare")
    for x in re.finditer(r"\b(true|false)\b", m):
        add(x.start(), x.end(), "false" if x.group(1) == "true" else "true", "bool")
    for x in re.finditer(r"(?<=[ (])!(?=[\w])", m):
        add(x.start(), x.end(), "", "no not")
    for x in re.finditer(r"^ +[^\n;{}]*;\n", m, re.M):
        t = x.group(0).strip()
        if re.match(r"(using|static|template|return|typename|class|struct|bool |std::|throw|friend|typedef)", t) and not t.startswith(("using Base::", "std::mem")):
            continue
        add(x.start(), x.end(), "\n", "delete statement")
    for x in re.finditer(r"noexcept\(", m):
        e = close(m, x.end() - 1)
        add(x.start(), e + 1, "noexcept(true)", "noexcept true")
        add(x.start(), e + 1, "noexcept(false)", "noexcept false")
    for x in re.finditer(r"\) (const )?(&&?)? ?noexcept\n", m):
        i = s.index("noexcept", x.start())
        add(i, i + 8, "", "no noexcept")
    for x in re.finditer(r"\bexplicit ", m):
        add(x.start(), x.end(), "", "no explicit")
    for x in re.finditer(r"= default;", m):
        add(x.start(), x.end(), "= delete;", "default to delete")
    for x in re.finditer(r"= delete;", m):
        add(x.start(), x.end(), "= default;", "delete to default")
    for x in re.finditer(r"\b(0x[0-9a-f']+|\d+)(?:ull)?\b", m):
        if "value = " in s[s.rfind("\n", 0, x.start()):x.start()]:
            add(x.start(), x.end(), "(" + x.group(0) + " ^ 2)", "constant")
    for x in re.finditer(r"\b([A-Z]+_(?:MAX|MIN))\b", m):
        add(x.start(), x.end(), "(" + x.group(1) + (" - 1)" if x.group(1).endswith("MAX") else " + 1)"), "limit")
    for x in re.finditer(r"sizeof\([^()]*\)", m):
        add(x.start(), x.end(), "(" + x.group(0) + " - 1)", "sizeof - 1")
    for x in re.finditer(r" (const) &(?=[ )])", m):
        add(x.start(1), x.end(1) + 1, "", "no const")
    for x in re.finditer(r" const &&?(?= (noexcept|\n))", m):
        pass
    for x in re.finditer(r"\bif \(", m):
        e = close(m, x.end() - 1)
        add(x.end(), e, "!(" + s[x.end():e] + ")", "negate if")
    for x in re.finditer(r"throw std::bad_optional_access\{\};", m):
        add(x.start(), x.end(), "throw std::runtime_error(\"\");", "other exception")
    seen, out = set(), []
    for a, b, n, w in sorted(res):
        if (a, b, n) not in seen:
            seen.add((a, b, n))
            out.append((a, b, n, w))
    return out


CHEAP = ["C05", "C20", "C10", "C09", "C13", "C21", "C12", "C14", "C19", "C07", "C06", "C01", "C02", "C03", "C18", "C11", "C08", "C17", "C04", "C16", "C15"]


def sh(cmd, timeout=600):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def main():
    s = open(HDR).read()
    ms = mutants(s)
    if sys.argv[1] == "list":
        for i, (a, b, n, w) in enumerate(ms):
            print(i, s.count("\n", 0, a) + 1, w, "|", s[a:b].replace("\n", " ")[:70], "->", n.replace("\n", " ")[:70])
        return
    out, start, step = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    base = "/tmp/mut%d" % start
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/vp")
    repo = base + "/repo"
    sh("git clone -q /repo %s" % repo)
    for f in os.listdir("/opt/vp"):
        if f.endswith((".py", ".sh")):
            t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/", base + "/vp/")
            if f == "genbuild.py":
                t = re.sub(r"CONFIGS = \[.*?\]", 'CONFIGS = ["gcc_x64_cpp17_debug", "gcc_x64_cpp20_release_noUB"]', t, count=1, flags=re.S)
            open(base + "/vp/" + f, "w").write(t)
        else:
            shutil.copy("/opt/vp/" + f, base + "/vp/" + f)
    want = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t.split("::")[0] in ("gcc_x64_cpp17_debug", "gcc_x64_cpp20_release_noUB")]
    assert want, "no tests"
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["i"] for l in open(out)}
    import random
    order = list(range(len(ms)))
    random.Random(7).shuffle(order)
    for k in range(start, len(order), step):
        i = order[k]
        if i in done:
            continue
        a, b, n, w = ms[i]
        line = s.count("\n", 0, a) + 1
        rec = {"i": i, "line": line, "what": w, "old": s[a:b], "new": n}
        open(repo + "/include/tiny/optional.h", "w").write(s[:a] + n + s[b:])
        rc, o = sh("g++ -std=c++17 -fsyntax-only -I%s/include %s/tests/ConstructionTests.cpp" % (repo, repo))
        if rc != 0:
            rec["result"] = "does not compile"
        else:
            # the repository's own tests first: what they notice is not interesting
            sh("bash %s/vp/test.sh %s/out.json" % (base, base), 900)
            try:
                passed = set(json.load(open(base + "/out.json"))["passed"])
            except Exception:
                passed = set()
            rec["result"] = "tests fail" if [t for t in want if t not in passed] else "SURVIVED"
        if rec["result"] == "SURVIVED":
            env = "VERIF_REPO=%s VERIF_SEED=1 VERIF_EVIDENCE=%s/ev " % (repo, base)
            for c in (["C07"] if s[a:b].strip().startswith("assert(") else CHEAP):
                rc, o = sh("cd %s && %s python3 check.py %s --tier quick" % (VERIF, env, c), 1200)
                if rc == 1:
                    rec["result"] = "caught"
                    rec["by"] = c
                    rec["msg"] = next((l.strip() for l in o.splitlines() if l.startswith("  ")), "")[:300]
                    break
                if rc != 0:
                    rec.setdefault("odd", []).append([c, rc, o[-300:]])
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")


main()
