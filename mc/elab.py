"""Runs under PyPy (nmigen 0.1rc1).  Elaborates one real design of /repo behind a
thin wrapper that gives every port a unique name, and either writes RTLIL or
replays port traces in nmigen's own simulator.

  elab.py rtlil  SPEC.json OUT.il
  elab.py pysim  SPEC.json TRACES.json OUT.json
SPEC: {"design": name, "cfg": {...}}  (design: a function of designs.py)
"""
import sys, os, json, warnings
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(REPO, "migen_src"))
sys.dont_write_bytecode = True
from nmigen import *
from nmigen.hdl.ir import Fragment
from nmigen.back import rtlil, pysim
from nmigen.back.pysim import Delay, Tick, Passive


class Wrap(Elaboratable):
    """ports: list of (name, 'i'|'o', signal-like of the design)."""
    def __init__(self, d):
        self.d = d
        self.p = []
        for name, direction, sig in d.ports:
            w = Signal(len(sig), name=name)
            self.p.append((name, direction, w, sig))

    def elaborate(self, platform):
        m = Module()
        for i, s in enumerate(self.d.subs):
            setattr(m.submodules, "u%d" % i, s)
        for name, direction, w, sig in self.p:
            if direction == 'i':
                m.d.comb += sig.eq(w)
            else:
                m.d.comb += w.eq(sig)
        if getattr(self.d, "extra", None):
            self.d.extra(m)
        return m


class Design:
    def __init__(self, subs, ports, domain="sync", extra=None, has_rst=True, meta=None):
        self.subs, self.ports, self.domain, self.extra = subs, ports, domain, extra
        self.has_rst = has_rst
        self.meta = meta or {}


def build(spec):
    import designs
    return getattr(designs, spec["design"])(spec.get("cfg", {}))


def main():
    mode, specf = sys.argv[1], sys.argv[2]
    spec = json.load(open(specf))
    d = build(spec)
    w = Wrap(d)
    if mode == "rtlil":
        frag = Fragment.get(w, None)
        ports = [x[2] for x in w.p]
        if d.domain == "full":
            import clk_domains
            ports += [clk_domains.FULL.clk, clk_domains.FULL.rst]
        text = rtlil.convert(frag, name="top", ports=ports)
        open(sys.argv[3], "w").write(text)
        json.dump({"ports": [[n, dr, len(s)] for n, dr, s, _ in w.p], "meta": d.meta,
                   "domain": d.domain}, open(sys.argv[3] + ".ports", "w"))
        return
    if mode == "pysim":
        traces = json.load(open(sys.argv[3]))
        out = []
        budget = len(traces)
        for tr in traces:
            res = {"cycles": len(tr["in"]), "mismatch": None}
            # a fresh elaboration per trace (clock-domain objects are global in the repo)
            pid_out = sim_one(spec, tr)
            res["mismatch"] = pid_out
            out.append(res)
        json.dump(out, open(sys.argv[4], "w"))


def sim_one(spec, tr):
    for k in list(sys.modules):
        f = getattr(sys.modules[k], "__file__", None) or ""
        if f.startswith(os.path.join(REPO, "migen_src")) or k == "designs":
            del sys.modules[k]
    d = build(spec)
    if d.domain == "full":
        # Both clock domains are the same clock.  nmigen's simulator would see the derived
        # clock one delta cycle later (a simulation race, not hardware), so here both
        # are clocked by the simulator at the same instant.
        import clk_domains
        def load_clk(m):
            if not clk_domains.accessed:
                m.domains += clk_domains.CORE
                m.domains += clk_domains.FULL
                clk_domains.accessed = True
        clk_domains.load_clk = load_clk
    w = Wrap(d)
    ins = {n: s for n, dr, s, _ in w.p if dr == 'i'}
    outs = {n: s for n, dr, s, _ in w.p if dr == 'o'}
    frag = Fragment.get(w, None)
    bad = [None]
    with pysim.Simulator(frag) as sim:
        # this simulator version also clocks a domain when its (synchronous) reset rises; hardware does not
        for cd in sim._domains:
            if cd.rst is not None and not cd.async_reset and cd.rst in sim._signal_slots:
                sim._domain_triggers[sim._signal_slots[cd.rst]] = None
        clks = []
        for cd in sim._domains:
            if not any(cd.clk is c for c in clks):
                clks.append(cd.clk)

        for cd in sim._domains:
            n = {"sync": "rst"}.get(cd.name, cd.name + "_rst") if d.domain == "sync" or cd.name != "sync" else None
            if n and cd.rst is not None and cd.rst in sim._signal_slots:
                ins[n] = cd.rst

        def clock():
            yield Passive()
            yield Delay(5e-7)
            while True:
                for c in clks:
                    yield c.eq(1)
                yield Delay(5e-7)
                for c in clks:
                    yield c.eq(0)
                yield Delay(5e-7)
        sim.add_process(clock)

        def proc():
            for t, (iv, ov) in enumerate(zip(tr["in"], tr["out"])):
                for n, v in iv.items():
                    if n in ins:
                        yield ins[n].eq(int(v, 16))
                yield Delay(1e-7)
                for n, v in ov.items():
                    got = yield outs[n]
                    if got != int(v, 16) and bad[0] is None:
                        bad[0] = {"cycle": t, "port": n, "explorer": v, "pysim": hex(got)}
                        return
                yield Tick(d.domain)
        sim.add_process(proc)
        sim.run_until((len(tr["in"]) + 4) * 1e-6, run_passive=True)
    return bad[0]


if __name__ == "__main__":
    main()
