"""What each check runs."""


def kinds(**k):
    return ",".join("%s:%d" % x for x in k.items())


def link(c, thorough, quick, mult=6):
    """Recorded transfers judged by the Link observer; `quick` gives the number of scenarios by kind"""
    if thorough:
        for rnd in range(4):
            k = {a: n * mult // 4 for a, n in quick.items()}
            c.trace_stage("link%d" % rnd, ["link", "--kinds", kinds(**k), "--first", str(100000 * (rnd + 1))], "LinkTrace")
    else:
        c.trace_stage("link", ["link", "--kinds", kinds(**quick)], "LinkTrace")


def recv(c, thorough, quick, mult=6):
    """Scripted senders (contradicting, out of window, flooding) judged by the Assembly observer"""
    if not c.full:
        return
    if thorough:
        for rnd in range(4):
            k = {a: n * mult // 4 for a, n in quick.items()}
            c.trace_stage("recv%d" % rnd, ["recv", "--kinds", kinds(**k), "--first", str(100000 * (rnd + 1))], "AsmTrace")
    else:
        c.trace_stage("recv", ["recv", "--kinds", kinds(**quick)], "AsmTrace")


def long(c, thorough, quick):
    """Transfers of tens of thousands of packets (far parents), and of a million (packet ids come round)"""
    for rnd in range(4 if thorough else 1):
        k = {a: n * 3 for a, n in quick.items()} if thorough else quick
        c.trace_stage("long%d" % rnd if thorough else "long", ["long", "--kinds", kinds(**k), "--first", str(100000 * (rnd + 1))], "AsmTrace")


def asm(c, thorough, every=False):
    """Behaviours of the receiver specification, replayed into the real receiver: random walks, and every transition of its state graph"""
    if not c.full:
        return
    if thorough:
        c.model_stage("assembly", "Assembly", "AssemblyMC")
    if thorough or every:
        b = c.export("transitions", "Assembly", "AssemblyFew")
        k = 3 if thorough else 50
        c.replay_stage("asm-all", "asm", b[c.seed % k::k], "AsmTrace")
    if thorough or not every:
        s0 = c.seed
        for rnd in range(4 if thorough else 1):
            b = c.export("walks%d" % rnd, "Assembly", "AssemblySim", simulate=8000 if thorough else 1600, depth=60)
            c.replay_stage("asm-walks%d" % rnd, "asm", b, "AsmTrace", first=1000000 * (rnd + 1))
            c.seed += 1
        c.seed = s0


def heap(c, thorough, quick, mult=6):
    """Scenarios on a checking allocator judged by the Heap observer"""
    ks = lambda m: ",".join("%s:%d" % (a, max(1, n * m // 4)) for a, n in quick)
    if thorough:
        for rnd in range(4):
            c.trace_stage("heap%d" % rnd, ["heap", "--kinds", ks(mult), "--first", str(100000 * (rnd + 1))], "HeapTrace")
    else:
        c.trace_stage("heap", ["heap", "--kinds", ks(4)], "HeapTrace")


def sched(c, thorough, cfg, n=200):
    """Random behaviours of the design specification (its invariants are checked on the way), replayed into the code"""
    if thorough:
        c.model_stage("transfer", "Transfer", "TransferMC2" if c.prop == "C02" else "TransferMC")
    s0 = c.seed
    for rnd in range(3 if thorough else 1):
        for k in ((1, 2, 3) if thorough else (cfg,)):
            name = "sched%d%s" % (k, "-%d" % rnd if thorough else "")
            b = c.export(name, "TransferGen", "TransferGen%d" % k, simulate=4 * n if thorough else n, depth=82)
            c.replay_stage(name + "-replay", "sched", b, "LinkTrace", first=100000 * (3 * rnd + k))
        c.seed += 1000
    c.seed = s0


def eps(c, thorough, cfg, n=160):
    """Random behaviours of the connection specification (its invariants are checked on the way), replayed into the code"""
    if thorough:
        c.model_stage("endpoint", "Endpoint", "EndpointMC2" if c.prop in ("C17", "C18") else "EndpointMC")
    s0 = c.seed
    for rnd in range(3 if thorough else 1):
        for k in ((1, 2, 3) if thorough else (cfg,)):
            name = "eps%d%s" % (k, "-%d" % rnd if thorough else "")
            b = c.export(name, "EndpointGen", "EndpointGen%d" % k, simulate=4 * n if thorough else n, depth=125)
            c.replay_stage(name + "-replay", "eps", b, "EndTrace", first=100000 * (3 * rnd + k))
        c.seed += 1000
    c.seed = s0


def c01(c, t):
    sched(c, t, 1)
    link(c, t, dict(mix=260, loss=20, ideal=20, many=4))
    recv(c, t, dict(asm=60, wrap=16))
    asm(c, t)
    long(c, t, dict(long=32, cycle=4))


def c02(c, t):
    sched(c, t, 2)
    link(c, t, dict(mix=220, loss=60, alloc=40, frag=20, many=4))
    recv(c, t, dict(asm=60))
    asm(c, t)
    long(c, t, dict(long=32, cycle=4))


def c03(c, t):
    # Every hostile action, and every pair of them, in every phase of a connection
    one = c.export("actions", "Adversary", "Adversary1")
    c.replay_stage("adv1", "adv", one, "AdvTrace")
    two = c.export("pairs", "Adversary", "Adversary2")
    n = len(two)
    k = 1 if t else 3
    c.replay_stage("adv2", "adv", two[c.seed % k::k], "AdvTrace", first=10000)
    for rnd in range(6 if t else 1):
        sim = c.export("sim%d" % rnd, "Adversary", "AdversarySim", simulate=6000 if t else 2000, depth=61)
        c.replay_stage("advsim%d" % rnd, "adv", sim, "AdvTrace", first=1000000 * (rnd + 1))
        c.seed += 1
    c.seed -= 6 if t else 1
    recv(c, t, dict(flood=40, hold=30, asm=40))
    link(c, t, dict(mix=60, rate=10, alloc=10), mult=4)
    end(c, t, dict(mix=30, time=20, disc=20), mult=4)


def c04(c, t):
    sched(c, t, 3, 120)
    link(c, t, dict(mix=120, big=6, frag=16, ideal=20))
    recv(c, t, dict(asm=220, big=6, wrap=8))
    asm(c, t, every=True)


def c05(c, t):
    link(c, t, dict(ideal=260, alloc=60, many=4))
    end(c, t, dict(bye=80))



def c06(c, t):
    sched(c, t, 3)
    link(c, t, dict(alloc=220, ideal=60, mix=20, many=4))
    recv(c, t, dict(hold=100, flood=50, asm=40))
    asm(c, t)


def c19(c, t):
    heap(c, t, [("link.mix", 60), ("link.loss", 10), ("link.ideal", 20), ("link.alloc", 20), ("ep.mix", 20), ("ep.disc", 20), ("ep.cap", 10), ("ep.time", 10), ("cyc", 60)])


def c11(c, t):
    sched(c, t, 2)
    link(c, t, dict(loss=160, frag=10))
    long(c, t, dict(long=16))
    if c.full:
        # The rate recovers (Held in RateObs)
        for r in range(3 if t else 1):
            c.trace_stage("tfrc%s" % (r or ""), ["link", "--kinds", kinds(tfrc=240 if t else 80), "--first", str(100000 * r)], "RateTrace")


def c12(c, t):
    sched(c, t, 1)
    link(c, t, dict(mix=200, rate=60, frag=16, ideal=30))


def c13(c, t): link(c, t, dict(rate=160, mix=60))

def c20(c, t):
    sched(c, t, 3, 120)
    link(c, t, dict(mix=160, rate=60, frag=10, ideal=60))
    long(c, t, dict(long=16, cycle=2))



def end(c, thorough, quick, mult=5):
    """Recorded endpoint life cycles judged by the endpoint observer"""
    if thorough:
        for rnd in range(4):
            k = {a: n * mult // 4 for a, n in quick.items()}
            c.trace_stage("end%d" % rnd, ["ep", "--kinds", kinds(**k), "--first", str(100000 * (rnd + 1))], "EndTrace")
    else:
        c.trace_stage("end", ["ep", "--kinds", kinds(**quick)], "EndTrace")


def c07(c, t):
    eps(c, t, 2)
    end(c, t, dict(mix=110, cap=50, time=40))
    link(c, t, dict(alloc=60, rate=30))


def c08(c, t):
    eps(c, t, 1)
    end(c, t, dict(mix=120, disc=60, time=40))
def c09(c, t):
    eps(c, t, 1)
    end(c, t, dict(disc=160, mix=50, bye=40))


def c10(c, t):
    eps(c, t, 1)
    end(c, t, dict(time=110, ka=70, disc=40, kafloor=10))
    c.known_stage("keepalive-floor", "kafloor", ["ep", "--kinds", "kafloor:12"], "EndTrace", "C10K")


def c17(c, t):
    eps(c, t, 3, 120)
    end(c, t, dict(cap=130, mix=40))
def c18(c, t):
    eps(c, t, 2)
    end(c, t, dict(cap=90, mix=50, time=30, amp=40))


def c14(c, t):
    if not c.full:
        return c.trace_stage("conn", ["link", "--kinds", kinds(tfrc=80)], "RateTrace")
    # The TFRC sender of the specification satisfies the bounds; its input histories are replayed
    if t:
        c.model_stage("design", "RateMC")
    b = c.export("histories", "RateMC", "RateGen")
    c.replay_stage("replay", "rate", b, "RateTrace")
    for k in range(4 if t else 1):
        b = c.export("long%d" % k, "RateMC", "RateSim", simulate=6000 if t else 2500, depth=41)
        c.replay_stage("replaylong%d" % k, "rate", b, "RateTrace", first=1000000 * (k + 1))
        c.seed += 1
    c.seed -= 4 if t else 1
    if t:
        for r in range(4):
            c.trace_stage("conn%d" % r, ["link", "--kinds", kinds(tfrc=240), "--first", str(100000 * (r + 1))], "RateTrace")
    else:
        c.trace_stage("conn", ["link", "--kinds", kinds(tfrc=100)], "RateTrace")


def c15(c, t):
    k = dict(hc=600, ep=300) if c.full else dict(ep=600)
    if t:
        for r in range(4):
            c.trace_stage("twin%d" % r, ["twin", "--kinds", kinds(**{a: 3 * n for a, n in k.items()}), "--first", str(100000 * (r + 1))], "TwinTrace")
    else:
        c.trace_stage("twin", ["twin", "--kinds", kinds(**k)], "TwinTrace")
    link(c, t, dict(mix=120, loss=30))


def c16(c, t):
    c.model_stage("design", "CodecMC")
    if not c.full:
        # the codec is only reachable through the endpoints
        return end(c, t, dict(mix=60, cap=20))
    if t:
        for r in range(4):
            c.trace_stage("codec%d" % r, ["codec", "--kinds", kinds(rt=600, bad=900, len=16, flip=200, crc=8), "--first", str(100000 * (r + 1))], "CodecTrace")
    else:
        c.trace_stage("codec", ["codec", "--kinds", kinds(rt=200, bad=300, len=16, flip=72, crc=4)], "CodecTrace")


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}

SAMPLE = "Every event of every recorded trace is judged by a total TLA+ observer; scenarios are seeded samples, bounded in length."
DESIGN = "The design specification is model-checked exhaustively at small constants (thorough) and by simulation (quick); its behaviours drive the real code. "
NOTES = {"default": ("TLA+ observer specification; TLC validates traces recorded from the real code", SAMPLE)}
for _p in ("C01", "C02", "C04", "C06", "C11", "C12", "C20"):
    NOTES[_p] = ("TLA+ design specification of the transfer protocol%s, model-checked with TLC; its behaviours are replayed into the real code, and TLC validates the recorded traces against a TLA+ observer"
                 % (" and of the packet receiver" if _p in ("C01", "C02", "C04", "C06") else ""), DESIGN + SAMPLE)
for _p in ("C07", "C08", "C09", "C10", "C17", "C18"):
    NOTES[_p] = ("TLA+ design specification of handshake, disconnection and timers, model-checked with TLC; its behaviours are replayed into a real Server and Clients, and TLC validates the recorded traces against a TLA+ observer", DESIGN + SAMPLE)
NOTES["C03"] = ("TLA+ specification of the hostile environment, enumerated by TLC; its behaviours are replayed into the real code, and TLC validates the recorded traces", "All single actions, all pairs (a third of them per quick run) and random sequences of 60 actions in every phase. " + SAMPLE)
NOTES["C14"] = ("TLA+ specification of the TFRC sender checked with TLC; its input histories are replayed into the real SendRateComp, and live connections are validated against the same specification", DESIGN + SAMPLE)
NOTES["C16"] = ("TLA+ specification of the wire format and CRC, checked with TLC and compared with the real codec on recorded frames and byte strings", SAMPLE)
