"""What each check runs."""
import zlib

ASSUMPTIONS = [
    "OpenSSL 3.0's own implementation of the algorithms, called separately by the driver, is the standard",
    "the outside world (clock, output protection state, caller identity, random source, allocator) is what the driver's stand-ins say",
]

def jid(name, seed, i): return (zlib.crc32(name.encode()) % 9000 + 1000 * seed + i * 7919) % 1000000007

def replay(profile, n, shards, seed, pub=False, args=(), depth=60, tag=""):
    out = []
    for i in range(shards):
        name = "%s%s%s-%d" % (profile, "-pub" if pub else "", tag, i)
        out.append(dict(kind="replay", name=name, module="Gen", variant="asan", exe="replay", n=n, depth=3 * depth + 25, seed=jid(profile + str(pub) + tag, seed, i), cost=n,
                        consts={"Slots": 256, "Profile": '"%s"' % profile, "Depth": depth, "NSes": 1 if pub else 3, "Uuids": "{1}" if pub else "{1, 2, 3}", "Pub1": "TRUE" if pub else "FALSE"},
                        args=(["--pub"] if pub else []) + list(args)))
    return out

def scale(tier, q, t): return q if tier == "quick" else t

def secmc(tier, scope):
    """the specification itself over a small scope, exhaustively, against the properties in their own words (SecMC.tla)"""
    K, C, S, slots = {"perm": (1, 2, 1, 2), "chain": (2, 0, 1, 4), "iso": (1, 1, 2, 2), "handles": (4, 1, 1, 3), "stream": (1, 1, 1, 2)}[scope]
    deep = "FALSE"
    if tier == "thorough": (K, C, S, slots), deep = {"perm": (1, 2, 1, 2), "chain": (2, 0, 1, 4), "iso": (2, 1, 2, 2), "handles": (4, 2, 1, 3), "stream": (1, 2, 1, 2)}[scope], "TRUE"
    return mc("sec-" + scope, "SecMC", {"Slots": slots, "Scope": '"%s"' % scope, "MaxK": K, "MaxC": C, "MaxS": S, "Deep": deep}, ["P02", "P06", "CapInv", "ClosedInv", "StreamInv"], cost=1000, workers=2 if tier == "quick" else 4, timeout=scale(tier, 700, 20000))

def std(profile, other=(), q=170, t=4000, shards=5, huge=None, scope=None):
    """mostly the property's own profile, some of it through the client library, and a share of other profiles"""
    def jobs(tier, seed):
        n = scale(tier, q, t)
        j = replay(profile, n, shards, seed) + replay(profile, n, 2, seed, pub=True)
        for o in other or ("all",): j += replay(o, n, 1, seed)
        for i in range(2 if huge else 0): j.append(misc("huge-" + huge, scale(tier, 5, 150), seed, huge, 1, i=i, crash=["P07"] if huge == "stream" else ["P12"]))
        if scope: j.append(secmc(tier, scope))
        return j
    return dict(jobs=jobs)

def p05(tier, seed):
    n = scale(tier, 70, 2500); j = []
    for p in ("all", "value", "export", "cipher", "mac", "sign", "handles", "size"): j += replay(p, n, 1, seed, args=["--faults"], tag="-faults")
    for p in ("all", "value", "cipher"): j += replay(p, n, 1, seed, pub=True, args=["--faults"], tag="-faults")
    j.append(gen("ContGen", "cont", "cont-faults", scale(tier, 70, 2500), seed, 1, {"Slots": 256, "Depth": 12, "Pub1": "FALSE", "Sort": '"both"'}, ["--faults"], depth=20))
    m = scale(tier, 120, 4000)
    for pub in (False, True):
        a = (["--pub"] if pub else []) + ["--faults"]; P1 = "TRUE" if pub else "FALSE"
        j.append(gen("SvpGen", "svp", "svp-faults%s" % ("-pub" if pub else ""), m, seed, 1, {"Slots": 256, "Depth": 40, "Who": '"ta"' if pub else '"all"', "Pub1": P1, "Profile": '"mix"'}, a))
        j.append(gen("CencGen", "cenc", "cenc-faults%s" % ("-pub" if pub else ""), 2 * m, seed, 1, {"Depth": 12, "Pub1": P1}, a, depth=20))
    for p in ("all", "iso"): j += replay(p, scale(tier, 120, 3000), 1, seed)
    j += replay("all", scale(tier, 120, 3000), 1, seed, pub=True)
    j.append(secmc(tier, "iso"))
    return j

def gen(module, exe, name, n, seed, i, consts, args=(), depth=200, variant="asan", crash=None, **kw):
    """behaviours of a generator module replayed by a driver of its own"""
    j = dict(kind="replay", name="%s-%d" % (name, i), module=module, variant=variant, exe=exe, n=n, depth=depth, seed=jid(name, seed, i), cost=n, consts=consts, args=list(args), **kw)
    if crash: j["crash_props"] = crash
    return j

def mc(name, module, consts, invs, cost=100, init="Init", nxt="Next", **kw):
    return dict(kind="mc", name=name, module=module, consts=consts, cfg="INIT %s\nNEXT %s\n" % (init, nxt) + "".join("INVARIANT %s\n" % i for i in invs), cost=cost, **kw)

def p09(tier, seed):
    n = scale(tier, 450, 6000); j = []
    def c(who, pub, profile): return {"Slots": 256, "Depth": 40, "Who": '"%s"' % who, "Pub1": "TRUE" if pub else "FALSE", "Profile": '"%s"' % profile}
    for i in range(2): j.append(gen("SvpGen", "svp", "svp-mix", n, seed, i, c("all", False, "mix")))
    j.append(gen("SvpGen", "svp", "svp-two", n, seed, 0, c("two", False, "mix")))
    j.append(gen("SvpGen", "svp", "svp-cipher", n, seed, 0, c("all", False, "cipher")))
    j.append(gen("SvpGen", "svp", "svp-pub", n, seed, 0, c("ta", True, "mix"), ["--pub"]))
    j.append(gen("SvpGen", "svp", "svp-pub-cipher", n // 2, seed, 0, c("ta", True, "cipher"), ["--pub"]))
    j.append(gen("SvpGen", "svp", "svp-pub-ree", n // 2, seed, 0, c("ree", True, "mix"), ["--pub", "--u", "0"]))
    j += replay("cipher", scale(tier, 100, 2000), 1, seed) + replay("rights", scale(tier, 100, 2000), 1, seed)
    j.append(mc("svp-exhaustive", "SvpMC", {"Slots": 256, "MaxBuf": 2, "MaxSize": 2, "MaxTk": scale(tier, 4, 6)}, ["NoLeakInv"], cost=1000, workers=2, timeout=scale(tier, 700, 10000)))
    return j

def p10(tier, seed):
    n = scale(tier, 700, 12000); j = []
    for i in range(3): j.append(gen("CencGen", "cenc", "cenc", n, seed, i, {"Depth": 12, "Pub1": "FALSE"}, depth=20))
    for i in range(2): j.append(gen("CencGen", "cenc", "cenc-pub", n, seed, i, {"Depth": 12, "Pub1": "TRUE"}, ["--pub"], depth=20))
    j.append(mc("cenc-exhaustive", "CencMC", {"MaxN": scale(tier, 100, 340), "MaxPat": scale(tier, 4, 6)}, ["Agree", "WholeBlocks"], cost=2000, workers=2, timeout=scale(tier, 700, 10000)))
    return j

def p11(tier, seed):
    n = scale(tier, 900, 20000); nf = scale(tier, 70, 2500); j = []
    def c(sort, pub): return {"Slots": 256, "Depth": 12, "Pub1": "TRUE" if pub else "FALSE", "Sort": '"%s"' % sort}
    for i in range(2):
        j.append(gen("ContGen", "cont", "typej", n, seed, i, c("typej", False), depth=20, crash=["P11"]))
        j.append(gen("ContGen", "cont", "soc", n, seed, i, c("soc", False), depth=20, crash=["P11"]))
    j.append(gen("ContGen", "cont", "cont-pub", n, seed, 0, c("both", True), ["--pub"], depth=20, crash=["P11"]))
    j.append(gen("ContGen", "cont", "cont-faults", nf, seed, 0, c("both", False), ["--faults"], depth=20, crash=["P11"]))
    j.append(gen("ContGen", "cont", "cont-pub-faults", nf, seed, 0, c("both", True), ["--pub", "--faults"], depth=20, crash=["P11"]))
    return j

def p14(tier, seed):
    j = []; n = scale(tier, 60, 2500)
    for p in ("all", "value", "export", "cipher", "mac", "sign", "size", "handles"): j += replay(p, n, 1, seed, pub=True, tag="-bound")
    def sv(who, profile): return {"Slots": 256, "Depth": 40, "Who": '"%s"' % who, "Pub1": "TRUE", "Profile": '"%s"' % profile}
    j.append(gen("SvpGen", "svp", "svp-bound", 2 * n, seed, 0, sv("ta", "mix"), ["--pub"]))
    j.append(gen("SvpGen", "svp", "svp-bound-cipher", n, seed, 0, sv("ta", "cipher"), ["--pub"]))
    j.append(gen("CencGen", "cenc", "cenc-bound", 3 * n, seed, 0, {"Depth": 12, "Pub1": "TRUE"}, ["--pub"], depth=20))
    j.append(gen("ContGen", "cont", "cont-bound", 3 * n, seed, 0, {"Slots": 256, "Depth": 12, "Pub1": "TRUE", "Sort": '"both"'}, ["--pub"], depth=20))
    for x in j: x["boundary"] = True
    # the other way the client library can pass its parameters
    s = replay("all", n, 1, seed, pub=True, tag="-shm") + replay("value", n, 1, seed, pub=True, tag="-shm") + replay("size", n, 1, seed, pub=True, tag="-shm") + replay("all", scale(tier, 20, 1000), 1, seed, pub=True, args=["--faults"], tag="-shm-faults")
    s.append(gen("SvpGen", "svp", "svp-shm", 2 * n, seed, 0, sv("ta", "mix"), ["--pub"])); s.append(gen("CencGen", "cenc", "cenc-shm", 3 * n, seed, 0, {"Depth": 12, "Pub1": "TRUE"}, ["--pub", "--faults"], depth=20)); s.append(gen("ContGen", "cont", "cont-shm", 3 * n, seed, 0, {"Slots": 256, "Depth": 12, "Pub1": "TRUE", "Sort": '"both"'}, ["--pub"], depth=20))
    for x in s: x["variant"] = "shm"; x["extra"] = True
    j += s
    m = misc("facts-bound", 3 * n, seed, "facts", 30, True); m["boundary"] = True; j.append(m)
    j.append(misc("provision-message", 1, seed, "msg", 1, True))
    for x in j: x["crash_props"] = ["P14"]
    return j

def misc(name, n, seed, what, depth, pub=False, args=(), i=0, **kw):
    return gen("MiscGen", "misc", name, n, seed, i, {"Depth": depth, "Pub1": "TRUE" if pub else "FALSE", "What": '"%s"' % what}, (["--pub"] if pub else []) + list(args), depth=depth + 5, **kw)

def p19(tier, seed):
    n = scale(tier, 400, 20000)
    j = [misc("facts", n, seed, "facts", 30), misc("facts-pub", n, seed, "facts", 30, True), misc("facts-faults", n, seed, "facts", 30, False, ["--faults"]), misc("facts-pub-faults", n, seed, "facts", 30, True, ["--faults"]),
         misc("facts-shm", n, seed, "facts", 30, True, ["--faults"], variant="shm"), misc("huge-random", 1, seed, "random", 1)]
    for x in j: x["crash_props"] = ["P19"]
    return j

def p15(tier, seed):
    j = []
    for what, q, t, depth, k in (("cipher", 500, 12000, 60, 2), ("mac", 400, 10000, 60, 1), ("kdf", 500, 12000, 60, 1), ("pkey", 260, 5000, 60, 4)):
        for i in range(k): j.append(gen("ProvGen", "prov", "prov-" + what, scale(tier, q, t), seed, i, {"Depth": depth, "NCtx": 3, "What": '"%s"' % what}, depth=depth + 5, crash=["P15"]))
    return j

def p13(tier, seed):
    j = []; k = scale(tier, 12, 40)
    def conc(profile, n, threads=3, calls=6, pub=False, variant="sched", args=(), tag="", **kw):
        name = "conc-%s%s%s" % (profile, "-pub" if pub else "", tag)
        j.append(dict(kind="conc", name=name, variant=variant, exe="conc", n=n, seed=jid(name, seed, 0), cost=n * (3 if profile == "cap" else 1), args=(["--pub"] if pub else []) + list(args),
                      consts={"Profile": '"%s"' % profile, "Threads": threads, "Calls": calls, "Pub1": "TRUE" if pub else "FALSE"}, **kw))
    K = ["--schedules", str(k)]; n = scale(tier, 60, 1500)
    for p in ("key", "cipher", "mac", "svp", "ses", "twin", "mix"): conc(p, n, args=K)
    conc("cap", n // 3, args=K); conc("cap", n // 6, pub=True, args=K)
    conc("svp", n, threads=2, calls=8, args=K, tag="-2"); conc("twin", n, threads=2, calls=5, args=K, tag="-2"); conc("mix", n // 2, threads=4, calls=5, args=K, tag="-4")
    for p in ("mix", "svp", "twin"): conc(p, n // 2, pub=True, args=K)
    # the same programs with threads of the operating system, watched by ThreadSanitizer
    for p in ("mix", "twin", "ses") + (("key", "svp", "cap") if tier == "thorough" else ()): conc(p, n, variant="tsan", args=["--free", "--schedules", str(scale(tier, 3, 20))], tag="-free", threads_=True)
    for p in ("mix",): conc(p, n, pub=True, variant="tsan", args=["--free", "--schedules", str(scale(tier, 3, 20))], tag="-free", threads_=True)
    for x in j:
        if x.pop("threads_", 0): x["threads"] = True
    # the locks and reference counts themselves, exhaustively
    for t, o, c in ((2, 2, 1),) if tier == "quick" else ((2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 3, 1)):
        j.append(dict(kind="mc", name="locks-%d-%d-%d" % (t, o, c), module="ObjStore", consts={"Threads": t, "Slots": o, "Calls": c, "Ordered": "TRUE"}, cost=50, workers=4, heap="8g", timeout=3600,
                      cfg="SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in ("Counts", "NoUseAfterFree", "DeadUnlocked", "ClientCount", "GoneIsEmpty", "OneAtATime", "NothingLeft", "CanGo")) + "PROPERTY Finishes\n"))
    return j

PLAN = {
    "P01": std("rights", scope="perm"),
    "P02": std("parent", scope="chain"),
    "P03": std("iso", scope="iso"),
    "P04": std("handles", scope="handles"),
    "P05": dict(jobs=p05, level="fault_enumeration", technique="TLA+ specification (TLC): random behaviours replayed into the implementation with every single allocation and crypto-library failure injected into their calls; the specification's refusal is a stutter step",
                note="for the calls of behaviours drawn by TLC, the 1st, 2nd, ... internal allocation / crypto-library call is made to fail in turn; the call must report an error and everything observable later must be as the specification says for a call that was not made",
                rule="one injected failure of one internal step of one call; non-trivial when the failure point was reached and failed"),
    "P06": std("export", scope="chain"),
    "P07": std("cipher", huge="stream", scope="stream"),
    "P08": std("mac", scope="stream"),
    "P09": dict(jobs=p09),
    "P10": dict(jobs=p10),
    "P11": dict(jobs=p11),
    "P12": std("value", huge="wrapped"),
    "P13": dict(jobs=p13, technique="TLA+ (TLC): programs of several threads drawn from a specification, run in the implementation under thousands of controlled schedules; TLC decides for every recorded history whether some order of the calls explains all results",
                note="the atomic specification Conc.tla is the oracle; schedules switch threads at any basic block, memory access and lock operation of the code under test; deadlock, livelock, locks left held, locks destroyed in use, memory errors and memory not given back are found by the scheduler and the sanitizers",
                assumptions=["the schedules are sequentially consistent; weaker memory orders are covered only by ThreadSanitizer's race detection on free-running threads", "a common-encryption call is one step per sample"]),
    "P14": dict(jobs=p14),
    "P15": dict(jobs=p15, note="Prov.tla says for every order of calls on provider objects which must succeed, which must fail and who owns a key afterwards; the values are those of OpenSSL's default provider with the same key",
                assumptions=["ciphers, MACs, digests, KDFs and asymmetric operations are judged against OpenSSL 3.0's default provider; KBKDF against the CMAC KDF of the secure application", "what OpenSSL's own front end does with a call before or instead of the provider is not judged"]),
    "P16": std("size"),
    "P17": std("report"),
    "P18": std("sign"),
    "P19": dict(jobs=p19),
}
NA = {}
