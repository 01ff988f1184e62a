"""Closed-loop simulation of a /repo module with nmigen's simulator, and a reference encoder."""
import sys
sys.path.insert(0, "/repo/migen_src")
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import os
sys.stderr = open(os.devnull, "w") if not os.environ.get("DEMO_ERR") else sys.stderr
from nmigen import *
from nmigen.hdl.ir import Fragment
from nmigen.hdl.ast import *
from nmigen.back import pysim

FULL = False


def both_clocks():
    """the two clock domains of the core driven by one clock"""
    global FULL
    FULL = True
    import clk_domains

    def load_clk(m):
        if not clk_domains.accessed:
            m.domains += clk_domains.CORE
            m.domains += clk_domains.FULL
            clk_domains.accessed = True
    clk_domains.load_clk = load_clk


def run(mod, ins, outs, stim, cycles, extra=None):
    """ins/outs: {name: signal}; stim(t) -> {name: value} then look(t, {name: value}) sees the outputs of that cycle;
    stim is a pair of functions; look returns True to stop"""
    drive, look = stim
    m = Module()
    m.submodules.dut = mod
    if isinstance(extra, (list, tuple)):
        for i, e in enumerate(extra):
            setattr(m.submodules, "e%d" % i, e)
    elif callable(extra):
        extra(m)
    k = Signal()
    m.d.comb += k.eq(0)
    for n, s in list(ins.items()) + list(outs.items()):
        m.d.comb += Signal(len(s), name="keep_" + n).eq(s)
    dom = "full" if FULL else "sync"
    q = Signal()
    m.d[dom] += q.eq(~q)
    frag = Fragment.get(m, None)
    done = [False]
    with pysim.Simulator(frag) as sim:
        for cd in sim._domains:
            if cd.rst is not None and not cd.async_reset and cd.rst in sim._signal_slots:
                sim._domain_triggers[sim._signal_slots[cd.rst]] = None
        clks = []
        for cd in sim._domains:
            if not any(cd.clk is c for c in clks):
                clks.append(cd.clk)

        def clock():
            yield Passive()
            yield Delay(5e-7)
            while True:
                for v in (1, 0):
                    for c in clks:
                        yield c.eq(v)
                    yield Delay(5e-7)
        sim.add_process(clock)

        def proc():
            for t in range(cycles):
                for n, v in drive(t).items():
                    yield ins[n].eq(v)
                yield Delay(1e-7)
                o = {}
                for n, s in outs.items():
                    o[n] = yield s
                if look(t, o):
                    done[0] = True
                    return
                yield Tick(dom)
        sim.add_process(proc)
        sim.run_until((cycles + 4) * 1e-6, run_passive=True)
    return done[0]


HUFF = [(0xe, 4), (0, 3), (1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 3), (0x1e, 5), (0x3e, 6), (0x7e, 7), (0xfe, 8), (0x1fe, 9),
        (0x3fe, 10), (0x7fe, 11), (0xffe, 12), (0x1ffe, 13)]


def code(d, bd, table=HUFF):
    if bd == 16:
        d &= 0xffff
        d = d - 65536 if d > 32768 else d
    s = abs(d).bit_length()
    c, l = table[s]
    if s in (0, 16):
        return c, l
    return c << s | (d if d > 0 else d + (1 << s) - 1), l + s


def bits(px, w, h, bd, table=HUFF):
    r = ""
    for i, p in enumerate(px):
        x, y = i % w, i // w
        pr = px[i - 4] if x >= 4 else px[i - w] if y else 1 << (bd - 1)
        c, l = code(p - pr, bd, table)
        r += format(c, "0%db" % l)
    return r


def words(b, n):
    b += "0" * (-len(b) % n)
    return [int(b[i:i + n], 2) for i in range(0, len(b), n)]


def framed(px, w, h, bd=12, table=HUFF):
    by = []
    for x in words(bits(px, w, h, bd, table), 16):
        for c in (x >> 8, x & 255):
            by += [c, 0] if c == 255 else [c]
    by += [0] * (len(by) & 1)
    return [0xffff] * 8 + [by[i] << 8 | by[i + 1] for i in range(0, len(by), 2)] + [0xffff] * 8


def stub_geometry(w, h, allowed=1 << 23):
    import types

    class RegisterFile(Elaboratable):
        def __init__(self):
            self.height, self.width, self.allowed_cycles = Const(h, 16), Const(w, 16), Const(allowed, 24)
            self.ios = []

        def elaborate(self, platform):
            m = Module()
            if FULL:
                import clk_domains
                clk_domains.load_clk(m)
            return m
    t = types.ModuleType("register_file")
    t.RegisterFile = RegisterFile
    sys.modules["register_file"] = t


class Stream:
    """pixels in with valid(t), words out with busy(t); nready and busy are honoured"""
    def __init__(self, frames, ps, valid, busy, last=None):
        self.f = [[p[i:i + ps] for i in range(0, len(p), ps)] for p in frames]
        self.flat = [(k, g) for k, f in enumerate(self.f) for g in f]
        self.valid, self.busy, self.i, self.out, self.frames, self.ps = valid, busy, 0, [], [], ps
        self.n = len(frames)
        self.v = 0

    def drive(self, t):
        ok = self.i < len(self.flat) and self.flat[self.i][0] <= len(self.frames)
        self.v = 1 if ok and self.valid(t) else 0
        d = {"valid_in": self.v, "busy_in": 1 if self.busy(t) else 0}
        for k in range(self.ps):
            d["px%d" % k] = self.flat[self.i][1][k] if ok else 0
        self.b = d["busy_in"]
        return d

    def look(self, t, o):
        if self.v and not o["nready"]:
            self.i += 1
        if o["valid_out"] and not self.b:
            self.out.append(o["data_out"])
            if o["end_out"]:
                self.frames.append(self.out)
                self.out = []
        return len(self.frames) == self.n


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)
