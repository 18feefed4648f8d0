#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property on the working tree of /repo."""
import os
import re
import shlex
import shutil
import sys

from vlib import HARNESS, INCLUDE, Build, Check, InfraError, Run, run_cmd

G20 = "g++ -std=c++20"
G17 = "g++ -std=c++17"
C20 = "clang++ -std=c++20"
C17 = "clang++ -std=c++17"
ASAN = " -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
RT = [("mon.cpp", []), ("payloads.cpp", []), ("vassert.cpp", [])]
ALL_GROUPS = list(range(19))
PORTABLE = [g for g in ALL_GROUPS if g not in (9, 10)]  # without types whose size differs between platforms


def eng(groups=ALL_GROUPS, flags=(), src="eng_groups.cpp"):
    return [(src, ["-DGROUP=%d" % g] + list(flags)) for g in groups] + [(s, f + list(flags)) for s, f in RT]


def prog(*srcs, flags=()):
    return [(s, list(flags)) for s in srcs] + [(s, f + list(flags)) for s, f in RT]


def parts(src, ps):
    return [(src, ["-DPART=%d" % p]) for p in ps] + [(s, f) for s, f in RT]


RULE_ENG = ("random operation histories on 4 slots (hist) and every operation in every combination of prepared operand states "
            "(enum) for ~143 optional flavours, each step also applied to std::optional; a case is distinct and non-trivial by "
            "(flavour, operation, operand states, fault point, observation hash)")


def std_runs(c, modes, tags, scale, seeds=1, cpu=240):
    return [Run("--mode", m, "--tags", tags, "--scale", scale, "--seed", c.seed + 1000 * k, cpu=cpu)
            for k in range(seeds) for m in modes]


CHECKS = {}


def check(pid, level, technique, note, rule, assumptions=()):
    def deco(f):
        CHECKS[pid] = dict(fn=f, level=level, technique=technique, note=note, rule=rule, assumptions=list(assumptions))
        return f
    return deco


# ------------------------------------------------------------------------------------------------------------ engine
@check("C01", "exploration", "differential runtime monitor against std::optional over generated histories",
       "Held on the histories and operand-state combinations executed; std::optional of the installed libstdc++ is the trusted "
       "oracle. Payload values are sampled (all special values of each type plus random ones).", RULE_ENG)
def c01(c):
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", eng(), std_runs(c, ["hist"], "obs", 12) + std_runs(c, ["enum"], "obs", 2))])
    else:
        b = []
        for n, cc in [("g20O0", G20 + " -O0"), ("g17O2", G17 + " -O2"), ("c20O1", C20 + " -O1"), ("c17O3", C17 + " -O3"),
                      ("g20O3", G20 + " -O3 -DNDEBUG")]:
            b.append(Build(n, cc, eng(), std_runs(c, ["hist"], "obs", 300, 4, cpu=1500) +
                           std_runs(c, ["enum"], "obs", 12, 1, cpu=1500)))
        c.go(b)


@check("C02", "exploration", "lifetime registry monitor + AddressSanitizer/LeakSanitizer over generated histories and faults",
       "Every construction and destruction of the instrumented payloads is matched online; heap-owning payloads are watched by "
       "ASan/LSan. Held on the executed histories.", RULE_ENG)
def c02(c):
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", eng([1, 2, 6, 7, 8, 12, 14, 15, 16, 17, 18]),
                    std_runs(c, ["hist,fault"], "life", 12) + std_runs(c, ["enum,fault"], "life", 1)),
              Build("asan", C17 + " -O0" + ASAN, eng([1, 2, 8]), std_runs(c, ["hist,fault", "hist", "enum"], "life", 3)),
              Build("shapes", C20 + " -O0" + ASAN, parts("c02.cpp", [0]), [Run("--tags", "life", "--seed", c.seed)]),
              Build("traits", C17 + " -O0 -DNDEBUG", parts("c03.cpp", range(20)), [Run("--tags", "life")])])
    else:
        c.go([Build("shapes", C20 + " -O1" + ASAN, parts("c02.cpp", [0]), [Run("--tags", "life", "--scale", 40, "--seed", c.seed, cpu=1500)]),
              Build("shapesg", G17 + " -O2", parts("c02.cpp", [0]), [Run("--tags", "life", "--scale", 40, "--seed", c.seed, cpu=1500)]),
              Build("g20O2", G20 + " -O2", eng(), std_runs(c, ["hist,fault", "hist"], "life", 300, 3, cpu=1500) +
                    std_runs(c, ["enum,fault"], "life", 4, cpu=1500)),
              Build("asan17", C17 + " -O1" + ASAN, eng(), std_runs(c, ["hist,fault", "hist"], "life", 60, 2, cpu=1500) +
                    std_runs(c, ["enum,fault"], "life", 1, cpu=1500)),
              Build("asang20", G20 + " -O1" + ASAN, eng(), std_runs(c, ["hist,fault", "hist"], "life", 60, 2, cpu=1500))])


@check("C03", "fault_enumeration", "exception injection at every payload operation, differential monitor against std::optional",
       "For every operation x operand state, a fault is injected at each fault point the operation passes until it passes none; "
       "outcome, states, further use and lifetimes are compared with std::optional. Value variants are sampled.", RULE_ENG)
def c03(c):
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", eng([1, 2, 6, 7, 8, 15, 16, 17, 18]),
                    std_runs(c, ["hist,fault"], "obs,life", 20) + std_runs(c, ["enum,fault"], "obs,life", 1)),
              Build("traits", G20 + " -O1 -DNDEBUG", parts("c03.cpp", range(20)), [Run("--tags", "obs,life")])])
    else:
        c.go([Build(n, cc, eng(), std_runs(c, ["hist,fault"], "obs,life", 400, 3, cpu=1500) +
                    std_runs(c, ["enum,fault"], "obs,life", 4, cpu=1500))
              for n, cc in [("g20O0", G20 + " -O0"), ("g17O2", G17 + " -O2"), ("c20O2", C20 + " -O2"), ("c17O0", C17 + " -O0")]]
             + [Build("asan", C20 + " -O1" + ASAN, eng(), std_runs(c, ["hist,fault"], "obs,life", 40, 2, cpu=1500))]
             + [Build("traits-" + n, cc, parts("c03.cpp", range(20)), [Run()])
                for n, cc in [("g20", G20 + " -O0"), ("c17nd", C17 + " -O2 -DNDEBUG"), ("g17m32", G17 + " -O2 -m32"),
                              ("asan", C20 + " -O1" + ASAN), ("g23", "g++ -std=c++23 -O3")]])


@check("C08", "exploration", "canary bytes and address monitor around every optional + AddressSanitizer",
       "Canaries directly before and after each optional are compared after every operation, payload address, alignment and "
       "offset are checked on every step; ASan watches heap and stack neighbours.", RULE_ENG)
def c08(c):
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", eng(), std_runs(c, ["hist,fault"], "mem", 8) + std_runs(c, ["enum"], "mem", 1)),
              Build("asan", C17 + " -O0" + ASAN, eng([0, 2, 3, 4, 5, 7, 8, 13]), std_runs(c, ["hist,fault", "enum"], "mem", 1))])
    else:
        c.go([Build(n, cc, eng(), std_runs(c, ["hist,fault"], "mem", 200, 2, cpu=1500) + std_runs(c, ["enum"], "mem", 6, cpu=1500))
              for n, cc in [("g20O0", G20 + " -O0"), ("g17O2", G17 + " -O2"), ("c20O2", C20 + " -O2"),
                            ("asan", C20 + " -O1" + ASAN)]])


@check("C10", "exploration", "payload event-trace monitor: sequence compared online with the one std::optional produces",
       "The full sequence of payload special-member calls of every operation is compared with std::optional's for the same "
       "operation, states and categories. Trusted: libstdc++'s std::optional as specification of the sequence.", RULE_ENG)
def c10(c):
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", eng([2, 6, 7, 8, 15, 16, 17, 18]),
                    std_runs(c, ["hist", "hist,fault"], "ev", 30) + std_runs(c, ["enum"], "ev", 4)),
              Build("traits", C20 + " -O0", parts("c03.cpp", range(20)), [Run("--tags", "ev")])])
    else:
        c.go([Build(n, cc, eng([2, 6, 7, 8, 15, 16, 17, 18]), std_runs(c, ["hist", "hist,fault"], "ev", 600, 2, cpu=1500) +
                    std_runs(c, ["enum", "enum,fault"], "ev", 4, cpu=1500))
              for n, cc in [("g20O0", G20 + " -O0"), ("g17O2", G17 + " -O2"), ("c20O2", C20 + " -O2"), ("c17O0", C17 + " -O0")]])


@check("C18", "exploration", "UBSan + AddressSanitizer + MemorySanitizer (+ valgrind memcheck) over generated histories",
       "Sanitizers watch every step; storage is poisoned/filled with garbage before each construction. Held on the executed "
       "histories; MSan runs leave out payloads whose code lives in the uninstrumented libstdc++.so.", RULE_ENG)
def c18(c):
    msan = C20 + " -O1 -g1 -fsanitize=memory -fsanitize-memory-track-origins=0 -fno-omit-frame-pointer"
    msan_groups = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13]
    if c.tier == "quick":
        c.go([Build("msan", msan.replace("-O1", "-O0"), eng([2, 3, 5, 7]), std_runs(c, ["hist", "enum"], "none", 1)),
              Build("ubsan", C17 + " -O0" + ASAN, eng([0, 3, 4, 7]), std_runs(c, ["hist", "enum"], "none", 1))])
    else:
        vg = ["valgrind", "-q", "--error-exitcode=97", "--track-origins=no"]
        c.go([Build("msan", msan, eng(msan_groups), std_runs(c, ["hist", "hist,fault"], "none", 60, 2, cpu=1500) +
                    std_runs(c, ["enum"], "none", 3, cpu=1500)),
              Build("ubsanc", C17 + " -O1" + ASAN, eng(), std_runs(c, ["hist", "hist,fault"], "none", 60, 2, cpu=1500) +
                    std_runs(c, ["enum"], "none", 3, cpu=1500)),
              Build("ubsang", G20 + " -O2" + ASAN, eng(), std_runs(c, ["hist", "hist,fault"], "none", 60, 2, cpu=1500) +
                    std_runs(c, ["enum"], "none", 3, cpu=1500)),
              Build("vg", G20 + " -O1 -g1", eng(), [Run("--mode", "hist,fault", "--tags", "none", "--scale", 1, "--seed", c.seed,
                                                        wrap=vg, cpu=1500)])])


# ------------------------------------------------------------------------------------------------------- value ranges
MACROS = {"def": "", "noub": " -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS",
          "nobits": " -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS",
          "nomem": " -DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER"}
M32 = " -m32 -msse2 -mfpmath=sse"


@check("C04", "exploration", "value conservation monitor: every stored bit pattern is read back and compared",
       "All 2^32 float bit patterns are stored and read back; doubles and pointers: all patterns within a few bits of the reserved "
       "one, all single-byte neighbours, special values and random ones; bool both values.",
       "a stored value (bit pattern x construction route x optional flavour) that is read back and compared bit for bit")
def c04(c):
    def shards(n, extra=""):
        return [Run("--mode", "shard:%d:%d%s" % (k, n, extra), "--seed", c.seed, cpu=900) for k in range(n)]
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O2", prog("c04.cpp"), [Run("--scale", 4, "--seed", c.seed)] + shards(8)),
              Build("m32", C17 + " -O1" + M32, prog("c04.cpp"), [Run("--scale", 2, "--seed", c.seed)])])
    else:
        b = []
        for n, cc in [("g20", G20 + " -O2"), ("c17", C17 + " -O2"), ("g17m32", G17 + " -O2" + M32), ("c20m32", C20 + " -O2" + M32),
                      ("g20O0", G20 + " -O0")]:
            b.append(Build(n, cc, prog("c04.cpp"), [Run("--scale", 60, "--seed", c.seed + k, cpu=900) for k in range(3)] +
                           (shards(16) + shards(16, ",member") if n != "g20O0" else [])))
        c.go(b)


@check("C05", "exploration", "run-time evaluation of sizes, alignment and helper constants for a type matrix in every configuration",
       "sizeof/alignof/is_compressed are read for a matrix of payloads and flavours under both compilers, 32 and 64 bit and all four "
       "macro settings. Only types in the matrix are covered.",
       "an optional type whose size, alignment and helper constants were compared with the documented ones in one configuration")
def c05(c):
    b = []
    for m, d in MACROS.items():
        confs = [("g20", G20 + " -O0"), ("c17", C17 + " -O0"), ("g17m32", G17 + " -O0 -m32"), ("c20m32", C20 + " -O0 -m32")]
        if c.tier == "quick":
            confs = {"def": confs, "noub": confs[:1], "nobits": confs[1:2], "nomem": confs[2:3]}[m]
        for n, cc in confs:
            b.append(Build(n + m, cc + d, prog("c05.cpp"), [Run("--seed", c.seed)]))
    c.go(b)


@check("C06", "exploration", "value conservation monitor over all storing operations (8/16 bit values exhaustive)",
       "All values of 8 and 16 bit types, for wider types all 1 and 2 bit neighbours, per-byte variants, shifts, extremes and random "
       "values, aggregates with unrestricted other members; each through every storing operation.",
       "a (optional flavour, value) pair stored through every storing operation and read back")
def c06(c):
    src = parts("c06.cpp", range(4))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O1", src, [Run("--scale", 4, "--seed", c.seed)]),
              Build("c17m32", C17 + " -O0" + M32, src, [Run("--scale", 1, "--seed", c.seed)])])
    else:
        c.go([Build(n, cc, src, [Run("--scale", 60, "--seed", c.seed + k, cpu=1200) for k in range(3)])
              for n, cc in [("g20", G20 + " -O2"), ("c20", C20 + " -O2"), ("g17m32", G17 + " -O2" + M32), ("c17", C17 + " -O0"),
                            ("asan", C20 + " -O1" + ASAN), ("g17noub", G17 + " -O2" + MACROS["nomem"])]])


@check("C07", "fault_enumeration", "forked misuse cases whose end is observed + assertion monitor over legal generated histories",
       "Every documented misuse x construction route x flavour in a matrix is run to its end in a child process; legal histories of "
       "the engine run with assertions enabled and an assertion hook.",
       "a misuse case (operation x flavour) whose end was observed, or an engine case (flavour, operation, states, observation)")
def c07(c):
    src = parts("c07.cpp", range(3))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", src, [Run("--seed", c.seed)]),
              Build("c17O2", C17 + " -O2", parts("c07.cpp", [0]), [Run("--seed", c.seed)]),
              Build("ndebug", G17 + " -O1 -DNDEBUG", parts("c07.cpp", [0, 2]), [Run("--seed", c.seed)]),
              Build("eng", C20 + " -O0", eng([2, 4, 5, 8]), std_runs(c, ["hist", "hist,fault"], "none", 8) +
                    std_runs(c, ["enum"], "none", 1))])
    else:
        b = [Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in
             [("g20", G20 + " -O0"), ("c17", C17 + " -O2"), ("g17O3", G17 + " -O3"), ("c20m32", C20 + " -O1 -m32"),
              ("nd1", G20 + " -O2 -DNDEBUG"), ("nd2", C17 + " -O0 -DNDEBUG"), ("nd3", C20 + " -O3 -DNDEBUG")]]
        b += [Build("eng" + n, cc, eng(), std_runs(c, ["hist", "hist,fault"], "none", 200, 2, cpu=1500) +
                    std_runs(c, ["enum"], "none", 6, cpu=1500)) for n, cc in [("g", G20 + " -O1"), ("c", C17 + " -O2")]]
        c.go(b)


@check("C09", "exploration", "online trace monitor: automaton per flag address over manipulator calls and payload lifetimes",
       "All manipulator calls and payload lifetime events of random histories with injected exceptions are checked against the "
       "protocol automaton; temporaries and vector reallocation included. Held on the executed histories.",
       "a distinct event sequence of one operation (operation, operand states, fault, manipulator and payload events)")
def c09(c):
    src = parts("c09.cpp", range(4))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O1", src, [Run("--scale", 60, "--seed", c.seed)]),
              Build("asan", C17 + " -O1" + ASAN, src, [Run("--scale", 8, "--seed", c.seed + 7)])])
    else:
        c.go([Build(n, cc, src, [Run("--scale", s, "--seed", c.seed + k, cpu=1500) for k in range(4)])
              for n, cc, s in [("g20", G20 + " -O2", 1500), ("c17", C17 + " -O0", 400), ("g17nd", G17 + " -O2 -DNDEBUG", 1500),
                               ("asan", C20 + " -O1" + ASAN, 200), ("asang", G20 + " -O1" + ASAN, 200)]])


@check("C11", "exploration", "spy callables: invocation count, categories, addresses, events and results checked online",
       "All combinations of 4 categories of the optional x 4 of the callable x engaged/empty x result kinds (throwing and noexcept callables, results that count their events) for 28 flavours; "
       "exceptions and mutations by the callable; other kinds of callables by example.",
       "a (flavour, operation and result kind, category of optional, category of callable, state) combination")
def c11(c):
    src = parts("c11.cpp", range(14))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", src, [Run("--seed", c.seed)]), Build("c17", C17 + " -O1", parts("c11.cpp", range(8)), [Run("--seed", c.seed)])])
    else:
        c.go([Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in
              [("g20", G20 + " -O0"), ("c17", C17 + " -O1"), ("g17nd", G17 + " -O2 -DNDEBUG"), ("c20", C20 + " -O2"),
               ("g23", "g++ -std=c++23 -O1"), ("asan", C20 + " -O0" + ASAN)]])


@check("C12", "exploration", "probe payload operators that record calls and answer as told + differential monitor against std::optional",
       "24 pairs of flavours (and values, nullopt) x 6 operators and <=> x all operand states with monitored payload operators whose "
       "answers are independent of each other; differential against std::optional over ordinary types including NaN.",
       "a (pair of operand types, operator, operand states, answer of the payload) or (types, form, value pair) combination")
def c12(c):
    src = parts("c12.cpp", range(7))
    confs = [("g20", G20 + " -O0"), ("c17", C17 + " -O0"), ("c20", C20 + " -O0"), ("g17", G17 + " -O0")]
    if c.tier == "thorough":
        confs += [("g23", "g++ -std=c++23 -O2"), ("g20O3", G20 + " -O3 -DNDEBUG"), ("asan", C20 + " -O1" + ASAN),
                  ("noub", G20 + " -O1" + MACROS["noub"]), ("m32", G20 + " -O1 -m32")]
    c.go([Build(n, cc, src, [Run("--seed", c.seed + k) for k in range(1 if c.tier == "quick" else 4)]) for n, cc in confs])


    # with clang and C++20, libstdc++'s own constraints get in the way (known finding)
    cmd = shlex.split(C20) + ["-fsyntax-only", "-I" + INCLUDE, os.path.join(HARNESS, "c12_known.cpp")]
    rc, out = run_cmd(cmd, cpu=100, wall=200)
    c.add(1, 1, ["tiny::optional<std::optional<int>> with std::optional under clang C++20: %s" % ("compiles" if rc == 0 else "does not compile")])
    if rc != 0:
        err = next((l for l in out.splitlines() if "error:" in l), out[-300:])
        c.violation("clang C++20: tiny::optional<std::optional<int>> < std::optional does not compile: %s" % err, out[-3000:],
                    [" ".join(map(shlex.quote, cmd))])


@check("C13", "exploration", "hash monitor against the payload's std::hash + unordered containers against a reference model",
       "Hash values, calls and enabledness for a matrix of flavours; all routes to the empty state; random container histories.",
       "a (flavour, payload hash value or route to the empty state or container key) combination")
def c13(c):
    src = parts("c13.cpp", range(3))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", src, [Run("--scale", 2, "--seed", c.seed)]),
              Build("c17", C17 + " -O0", src, [Run("--scale", 2, "--seed", c.seed + 5)])])
    else:
        c.go([Build(n, cc, src, [Run("--scale", 100, "--seed", c.seed + k, cpu=1200) for k in range(2)]) for n, cc in
              [("g20", G20 + " -O2"), ("c17", C17 + " -O2"), ("g17m32", G17 + " -O1" + M32), ("c20nd", C20 + " -O3 -DNDEBUG"),
               ("asan", C20 + " -O1" + ASAN), ("noub", G20 + " -O1" + MACROS["noub"]), ("nomem", G17 + " -O1" + MACROS["nomem"]),
               ("nobits", C20 + " -O1" + MACROS["nobits"])]])


@check("C14", "exploration", "run-time rows of type traits, expression types and noexcept compared with std::optional's, plus spied swaps",
       "673 optional types (payloads with all combinations of available/missing/throwing members) and 2010 optional/argument pairs "
       "are compared; whether overloads exist is read from traits in the built program. Only types in the matrix are covered.",
       "a (optional type, [argument type,] trait) triple compared with std::optional's")
def c14(c):
    src = parts("c14.cpp", range(13))
    confs = [("g20", G20 + " -O0"), ("c17", C17 + " -O0")]
    if c.tier == "thorough":
        confs += [("g17", G17 + " -O0"), ("c20", C20 + " -O0"), ("g23", "g++ -std=c++23 -O0"), ("m32", G17 + " -O0 -m32"),
                  ("noub", C17 + " -O0" + MACROS["noub"]), ("nomem", G20 + " -O0" + MACROS["nomem"]),
                  ("nobits", C20 + " -O0" + MACROS["nobits"])]
    c.go([Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in confs])


def obs_diff(c, builds):
    """Compares the OBS lines (observations of the same histories) of all builds with each other."""
    logs = {}
    for b in builds:
        for r in b.runs:
            for line in (getattr(r, "out", "") or "").splitlines():
                if line.startswith("OBS "):
                    k, v = line.rsplit(" ", 1)
                    logs.setdefault(k, {}).setdefault(v, []).append(b.name)
    compared = 0
    kinds = set()
    for k, vals in logs.items():
        names = [n for ns in vals.values() for n in ns]
        if len(names) > 1:
            compared += 1
            kinds.add(k.split()[1])
    bad = [(k, vals) for k, vals in logs.items() if len(vals) > 1]
    reported = set()
    for k, vals in bad:
        kind = k.split()[1]
        if kind in reported or len(reported) > 5:
            continue
        reported.add(kind)
        c.violation("the same history gives different observations in different configurations: %s: %s"
                    % (k, "; ".join("%s in %s" % (v, ",".join(ns)) for v, ns in sorted(vals.items(), key=lambda x: len(x[1])))),
                    "\n".join("%s %s" % (kk, vv) for kk, vv in bad[:200]), [x for b in builds for x in getattr(b, "cmds", [])])
    c.extra["histories and operations compared across configurations"] = compared
    c.extra["flavours compared across configurations"] = len(kinds)
    c.extra["configurations"] = [b.name + ": " + " ".join(b.cc) for b in builds]
    if compared == 0 and not c.violations:
        c.infra.append("no observations to compare")


@check("C15", "exploration", "observation logs of the same histories compared across compilers, standards, optimisation and macro settings",
       "The same seeded histories run in 9 (thorough: 24) configurations; each is compared online with std::optional, and the "
       "observation logs of all configurations with each other. or_else (C++20 only) and the comparison of floating point payloads (not "
       "specified with fast-math) are left out.", RULE_ENG + "; additionally compared between configurations")
def c15(c):
    p = " -DENG_PORTABLE"
    fm = " -ffast-math"
    m = MACROS
    if c.tier == "quick":
        confs = [("g20O2", G20 + " -O2", [3, 7]), ("c17O3", C17 + " -O3", [3, 8]), ("g17fast", G17 + " -O1 -DNDEBUG" + fm, [3, 5]),
                 ("c20fast", C20 + " -O1 -DNDEBUG" + fm, [3, 7]), ("g20m32", G20 + " -O1" + M32, [3, 5]),
                 ("c17nobits", C17 + " -O0" + m["nobits"], [3, 5, 8]), ("g17noub", G17 + " -O0" + m["noub"], [3, 7, 8]),
                 ("c20nomem", C20 + " -O0" + m["nomem"], [5, 7, 8]), ("g17O0", G17 + " -O0", [0, 3, 5, 7, 8])]
        probes = [("p" + n, cc) for n, cc in [
            ("g17O0", G17 + " -O0"), ("g20O0", G20 + " -O0"), ("c17O0", C17 + " -O0"), ("c20O0", C20 + " -O0"),
            ("g17O1nd", G17 + " -O1 -DNDEBUG"), ("g20O2nd", G20 + " -O2 -DNDEBUG"), ("c17O1nd", C17 + " -O1 -DNDEBUG"),
            ("c20O2nd", C20 + " -O2 -DNDEBUG"), ("g20Os", G20 + " -Os"), ("c17Oz", C17 + " -Oz"), ("g23O1", "g++ -std=c++23 -O1"),
            ("c23O1", "clang++ -std=c++23 -O1"), ("g20fast", G20 + " -O2" + fm), ("c17fast", C17 + " -O2" + fm),
            ("c17m32", C17 + " -O1" + M32), ("g20m32nd", G20 + " -O0 -DNDEBUG" + M32), ("c20nobits", C20 + " -O1" + m["nobits"]),
            ("g17nomem", G17 + " -O1" + m["nomem"]), ("c17noub", C17 + " -O1 -DNDEBUG" + m["noub"]), ("g20noub", G20 + " -O0" + m["noub"]),
            ("g17m32noub", G17 + " -O1" + M32 + m["noub"]), ("c20nomemnobits", C20 + " -O0" + m["nomem"] + m["nobits"])]]
        builds = [Build(n, cc + p, eng(gs), [Run("--mode", "hist", "--tags", "obs,life", "--scale", 2, "--seed", c.seed, "--log"),
                                             Run("--mode", "enum", "--tags", "obs,life", "--scale", 1, "--seed", c.seed, "--log")])
                  for n, cc, gs in confs]
    else:
        builds = []
        gs = PORTABLE
        for n, cc in [("g20", G20), ("c20", C20), ("g17", G17), ("c17", C17)]:
            confs = [("O0", " -O0"), ("O3nd", " -O3 -DNDEBUG"), ("fast", " -O2 -DNDEBUG" + fm), ("m32", " -O2" + M32),
                     ("noub", " -O1" + m["noub"]), ("nobits", " -O2" + m["nobits"]) if n[0] == "g" else
                     ("nomem", " -O2" + m["nomem"])]
            for cn, flags in confs:
                builds.append(Build(n + cn, cc + flags + p, eng(gs), [
                    Run("--mode", "hist,acc", "--tags", "obs,life", "--scale", 40, "--seed", c.seed + k, "--log", cpu=1500)
                    for k in range(1)] + [Run("--mode", "enum", "--tags", "obs,life", "--scale", 2, "--seed", c.seed, "--log", cpu=1500)]))
        probes = []
        for n, cc in [("g", "g++"), ("c", "clang++")]:
            for std in ("17", "20", "23"):
                for o in ("O0", "O2", "O3", "Os"):
                    for nd in ("", " -DNDEBUG"):
                        for mn, mf in m.items():
                            probes.append(("p" + n + std + o + nd[-5:] + mn, "%s -std=c++%s -%s%s%s" % (cc, std, o, nd, mf)))
                for x, fl in [("fast", " -O2" + fm), ("m32", " -O2" + M32), ("m32nd", " -O0 -DNDEBUG" + M32), ("m32fast", " -O1" + M32 + fm)]:
                    probes.append(("p" + n + std + x, "%s -std=c++%s%s" % (cc, std, fl)))
    builds += [Build(n, cc, parts("c15_probe.cpp", range(4)), [Run("--seed", c.seed)]) for n, cc in probes]
    tr = [("tg17", G17 + " -O0"), ("tc20nd", C20 + " -O1 -DNDEBUG"), ("tg20nd", G20 + " -O2 -DNDEBUG" + fm), ("tc17", C17 + " -O0" + M32)]
    ps = [0, 2, 8, 10, 17, 19]
    if c.tier != "quick":
        tr += [("tg17nd", G17 + " -O3 -DNDEBUG"), ("tg20", G20 + " -Os"), ("tc17nd", C17 + " -O0 -DNDEBUG" + m["nomem"]), ("tnobits", G20 + " -O1" + m["nobits"])]
        ps = [x for x in range(20) if x // 4 != 1]
    builds += [Build(n, cc, parts("c03.cpp", ps), [Run("--log", "--tags", "none")]) for n, cc in tr]
    c.go(builds)
    obs_diff(c, builds)


EFFECTIVE = {"def": "", "nobits": MACROS["nobits"], "nomem": MACROS["nomem"], "noub": MACROS["noub"]}


def other_version(c):
    """A copy of the headers that claims to be another version; None if the version macro is not found."""
    d = os.path.join(c.tmp, "other_version")
    if os.path.isdir(d):
        return d
    shutil.copytree(INCLUDE, d)
    n = 0
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
            s, k = re.subn(r"^(\s*#\s*define\s+TINY_OPTIONAL_VERSION\s+)\S+", r"\g<1>990907", s, flags=re.M)
            n += k
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(s)
    c.extra["header of another version"] = "version macro replaced in %d place(s)" % n
    return d if n else None


def link_pairs(c, cc, name, variants):
    """Links the caller of every variant with the provider of every other one: no function that takes an optional may resolve."""
    variants = dict(variants)
    d = other_version(c)
    if d:
        variants["otherver"] = " -I" + d
    builds = {v: Build("link-%s-%s" % (name, v), cc + fl, [("c16_link.cpp", ["-DROLE=0"]), ("c16_link.cpp", ["-DROLE=1"])], [Run()])
              for v, fl in variants.items()}
    linked = c.compile_all(list(builds.values()))
    if len(linked) != len(builds):
        return                     # already reported: it does not even work within one setting
    c.run_all(linked)

    def syms(obj):
        rc, out = run_cmd(["nm", obj], cpu=60, wall=120)
        if rc != 0:
            raise InfraError("nm: " + out[-300:])
        return {m.group(3): m.group(2) for m in re.finditer(r"^\s*([0-9a-f]*)\s+(\w)\s+(_Z\d+lp[a-z]+_\d+\S*)$", out, re.M)}

    probe = re.compile(r"_Z\d+(lp[a-z]+_\d+?)(?=\D)")
    objs = {v: [c.obj(*x) for x in b.srcs] for v, b in builds.items()}
    wants = {v: {probe.match(s).group(1) for s, t in syms(o[0]).items() if t == "U"} for v, o in objs.items()}
    has = {v: {probe.match(s).group(1) for s, t in syms(o[1]).items() if t == "T"} for v, o in objs.items()}
    for v1 in variants:
        for v2 in variants:
            if v1 == v2:
                continue
            common = wants[v1] & has[v2]
            cmd = builds[v1].cc + [objs[v1][0], objs[v2][1], "-Wl,--no-demangle", "-o", os.path.join(c.tmp, "mixed")]
            rc, out = run_cmd(cmd, cpu=100, wall=200)
            if rc is None or rc < 0 or not common:
                raise InfraError("linker gave no answer: " + out[-300:])
            undef = {m.group(1) for m in re.finditer(r"undefined reference to [`'\"]_Z\d+(lp[a-z]+_\d+?)(?=\D)", out)}
            mixed = sorted(common - undef)
            c.add(len(common), len(common), ["%s: caller %s, callee %s: %d of %d functions taking an optional do not resolve"
                                             % (name, v1, v2, len(common) - len(mixed), len(common))])
            if mixed:
                c.violation("%s: a caller compiled under '%s' links with callees compiled under '%s': %s" % (
                    name, v1, v2, ", ".join(mixed[:12])), out[-6000:],
                    builds[v1].cmds[:1] + builds[v2].cmds[1:2] + [" ".join(map(shlex.quote, cmd))])


@check("C16", "exploration", "linker verdict on mixed programs, and differential monitor inside programs that mix all settings",
       "Every ordered pair of the four effective settings x 32 optional types x 9 ways of passing; programs that contain the histories "
       "of all four settings, each compared with std::optional, with unoptimised code so that wrongly shared functions are really shared. "
       "Return types, global variables and user-defined classes with optional members are not part of function names and therefore not "
       "covered by the library's mechanism.",
       RULE_ENG + " within a program that mixes the settings; or a (pair of settings, function taking an optional) link verdict")
def c16(c):
    def mixed(name, ccs, groups, scale, rot):
        names = list(EFFECTIVE)
        names = names[rot:] + names[:rot]
        srcs = []
        for n, cc in zip(names, ccs):
            ns = ["-Deng=eng_" + n, "-Dkd=kd_" + n, "-DENG_PREFIX=\"%s:\"" % n]
            srcs += [("eng_groups.cpp", ["-DGROUP=%d" % g] + ns + EFFECTIVE[n].split(), cc) for g in groups]
        return Build(name, ccs[0], srcs + RT, [Run("--mode", "hist", "--tags", "obs,life", "--scale", scale, "--seed", c.seed, cpu=900),
                                               Run("--mode", "enum", "--tags", "obs,life", "--scale", 1, "--seed", c.seed, cpu=900)])
    if c.tier == "quick":
        link_pairs(c, G20 + " -O0", "g20", EFFECTIVE)
        link_pairs(c, C17 + " -O0", "c17", EFFECTIVE)
        c.go([mixed("mixed0", [G20 + " -O0"] * 4, [3, 7], 3, 0), mixed("mixed1", [C17 + " -O0"] * 4, [3, 5], 3, 2)])
    else:
        for n, cc in [("g20", G20), ("c17", C17), ("g17", G17), ("c20", C20), ("m32", G20 + M32)]:
            link_pairs(c, cc + " -O0", n + "O0", EFFECTIVE)
            link_pairs(c, cc + " -O2", n + "O2", EFFECTIVE)
        b = []
        for rot in range(4):
            b.append(mixed("g20-%d" % rot, [G20 + " -O0"] * 4, range(9), 30, rot))
            b.append(mixed("c17-%d" % rot, [C17 + " -O0"] * 4, range(9), 30, rot))
            b.append(mixed("mix-%d" % rot, [G20 + " -O0", C17 + " -O1", G17 + " -O2", C20 + " -O0"], range(9), 30, rot))
        c.go(b)


@check("C17", "exploration", "ThreadSanitizer over concurrent const access and mutation of adjacent optionals; each thread verifies what it sees",
       "52 flavours, 4 threads: 22 const operations on one shared optional, 18 mutations on adjacent optionals and plain neighbours. "
       "TSan's happens-before analysis reports conflicting accesses independent of timing for the executed operations.",
       "a concurrent phase with its own random operation sequences of the 4 threads, and an observed interleaving of the threads", ["ThreadSanitizer runtime; payload code is not instrumented code of libstdc++.so"])
def c17(c):
    src = parts("c17.cpp", range(8))
    tsan = " -O1 -g1 -fsanitize=thread -pthread"
    if c.tier == "quick":
        c.go([Build("tsan", C20 + tsan, src, [Run("--scale", 4, "--seed", c.seed + k) for k in range(2)]),
              Build("g17", G17 + " -O2 -pthread", src, [Run("--scale", 200, "--seed", c.seed)])])
    else:
        c.go([Build(n, cc, src, [Run("--scale", s, "--seed", c.seed + k, cpu=3000) for k in range(2)]) for n, cc, s in
              [("tsanc20", C20 + tsan, 1500), ("tsang17", G17 + tsan, 1500), ("tsanO3", C17 + tsan + " -O3", 1500), ("g20", G20 + " -O3 -pthread", 20000),
               ("c17", C17 + " -O2 -pthread", 20000), ("nomem", C20 + tsan + MACROS["nomem"], 800)]])


@check("C19", "exploration", "address/value/byte monitor over all accessors, exception monitor, value_or differential against std::optional",
       "143 flavours x 12 routes to the engaged state with random writes through all accessors; value() on empty optionals reached "
       "through 10 routes x 4 categories; value_or compared with std::optional in result, source, default and payload events.",
       "a (flavour, accessor or route, value) combination")
def c19(c):
    src = eng(src="c19.cpp")
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", src, [Run("--scale", 10, "--seed", c.seed)]),
              Build("c17", C17 + " -O2", src, [Run("--scale", 10, "--seed", c.seed + 3)])])
    else:
        c.go([Build(n, cc, src, [Run("--scale", s, "--seed", c.seed + k, cpu=1500) for k in range(3)]) for n, cc, s in
              [("g20", G20 + " -O2", 400), ("c17", C17 + " -O2", 400), ("g17O0", G17 + " -O0", 100), ("c20nd", C20 + " -O3 -DNDEBUG", 400),
               ("m32", G20 + " -O1" + M32, 200), ("asan", C20 + " -O1" + ASAN, 40), ("noub", G20 + " -O1" + MACROS["noub"], 100),
               ("nobits", C17 + " -O1" + MACROS["nobits"], 100), ("nomem", G17 + " -O1" + MACROS["nomem"], 100)]])


@check("C20", "exploration", "spy payload and spy arguments: construction event log compared with std::optional's for the same expression",
       "~530 construction and assignment expressions (all argument category combinations up to three arguments) for 6 flavours, "
       "the same expressions with ordinary library types, make_optional, deduction guide, nested and scalar flavours.",
       "a (flavour, expression, event log) combination")
def c20(c):
    src = parts("c20.cpp", range(7))
    if c.tier == "quick":
        c.go([Build("g20", G20 + " -O0", src, [Run("--seed", c.seed)]),
              Build("c17", C17 + " -O0 -DSNX=15", parts("c20.cpp", [0, 1, 5, 6]), [Run("--seed", c.seed)]),
              Build("g17nx", G17 + " -O0 -DSNX=9", parts("c20.cpp", [0, 2, 4, 5]), [Run("--seed", c.seed)])])
    else:
        c.go([Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in
              [("g20", G20 + " -O2"), ("c17", C17 + " -O0"), ("g17", G17 + " -O0"), ("c20", C20 + " -O2"), ("g23", "g++ -std=c++23 -O0"),
               ("m32", G17 + " -O1 -m32"), ("asan", C20 + " -O0" + ASAN), ("nomem", C17 + " -O0" + MACROS["nomem"])] +
              [("nx%d" % k, G20 + " -O0 -DSNX=%d" % k) for k in (1, 2, 4, 6, 8, 9, 13, 14, 15)]])


@check("C21", "exploration", "hostile payloads that report every call of their overloads, differential against std::optional",
       "42 hostile payload types x 4 flavours through one battery of ~110 observations each, hostile flag types, volatile, prvalue-only "
       "and ADL traps. Payload types are hand-picked.",
       "an observation (payload, flavour, all observations and hostile calls so far)")
def c21(c):
    src = parts("c21.cpp", range(9))
    if c.tier == "quick":
        c.go([Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in
              [("g20", G20 + " -O0"), ("c17", C17 + " -O0"), ("g20nx", G20 + " -O0 -DHNX=1")]])
    else:
        c.go([Build(n, cc, src, [Run("--seed", c.seed)]) for n, cc in
              [("g20", G20 + " -O2"), ("c17", C17 + " -O0"), ("g17", G17 + " -O0"), ("c20", C20 + " -O2"), ("g23", "g++ -std=c++23 -O0"),
               ("g20nx", G20 + " -O2 -DHNX=1"), ("c17nx", C17 + " -O1 -DHNX=1"),
               ("m32", G17 + " -O1 -m32"), ("asan", C20 + " -O0" + ASAN + " -fno-sanitize=vptr"),  # vptr: flags in members are read without
               ("asang", G17 + " -O1" + ASAN + " -fno-sanitize=vptr"),  # a living object by design
               ("nomem", C17 + " -O0" + MACROS["nomem"])]])


def setup():
    """Nothing is prebuilt (every check builds from the working tree); this only makes sure that the tools are usable."""
    import subprocess
    for cmd in (["g++", "--version"], ["clang++", "--version"], ["valgrind", "--version"]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        print(r.stdout.splitlines()[0] if r.returncode == 0 and r.stdout else "not usable: " + " ".join(cmd))
    return 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pids = []
    if args[:1] == ["--setup"]:
        return setup()
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        else:
            pids.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    worst = 0
    for pid in pids:
        d = CHECKS[pid]
        c = Check(pid, tier, seed, d["level"], d["rule"], d["assumptions"])
        try:
            d["fn"](c)
            rc = c.finish()
        except InfraError as e:
            print("NO ANSWER: %s" % e)
            rc = 2
        worst = max(worst, rc) if 1 not in (worst, rc) else 1
    return worst


if __name__ == "__main__":
    sys.exit(main())
