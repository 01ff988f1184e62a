"""RTLIL (from nmigen) -> yosys (proc/flatten/opt) -> C++ step function.

gen.compile_design(il, ports_json, out_h, ns): writes a header defining
  namespace NS { struct S; struct I; struct O; reset(S&); step(S const&, I const&, O&, S&next); names... }
S is a POD without padding, so worlds can be hashed bytewise.
"""
import json, subprocess, os, re

YS = """read_rtlil {il}
hierarchy -top top
proc
flatten
opt -nodffe -nosdff
wreduce
opt -nodffe -nosdff -full
memory_collect
opt_clean -purge
write_json {js}
"""


def b2i(s):
    if isinstance(s, int):
        return s
    return int(s.replace('x', '0').replace('z', '0') or '0', 2)


class Gen:
    def __init__(self, mod, ports, ns, forget=None):
        self.forget = forget
        self.m, self.ports, self.ns = mod, ports, ns
        self.drv = {}       # netlist bit -> (cellname, port, offset)
        self.out = []
        self.width = {}
        self.done = set()
        self.onstack = set()

    def U(self, w):
        return "U<%d>" % w

    def counts(self, q):
        """a register that is counted up or down by one somewhere"""
        for c in self.m["cells"].values():
            if c["type"] in ("$add", "$sub") and c["connections"]["A"] == q:
                b = c["connections"]["B"]
                if b[0] == "1" and not any(x != "0" for x in b[1:]):
                    return True
        return False

    def run(self):
        m = self.m
        init = {}
        names = {}
        for n, nn in m["netnames"].items():
            iv = nn.get("attributes", {}).get("init")
            for i, b in enumerate(nn["bits"]):
                if isinstance(b, int):
                    if nn.get("hide_name", 0) == 0:
                        names.setdefault(b, "%s[%d]" % (n, i))
                    if iv is not None and iv[len(iv) - 1 - i] in '01':
                        init[b] = int(iv[len(iv) - 1 - i])
        allnames = {}
        for n, nn in m["netnames"].items():
            for b in nn["bits"]:
                if isinstance(b, int):
                    allnames.setdefault(b, []).append(n)
        self.state = []     # (field, width, init)
        self.forget_v = []
        self.mems = []
        self.cells = {}
        for i, (cn, c) in enumerate(sorted(m["cells"].items())):
            t = c["type"]
            v = "c%d" % i
            c["v"] = v
            self.cells[v] = c
            if t == "$dff":
                w = len(c["connections"]["Q"])
                if self.forget and w >= self.forget[1] and (any(re.search(self.forget[0], n) for b in c["connections"]["Q"] if isinstance(b, int) for n in allnames.get(b, ()))
                                                            or w < 32 and self.counts(c["connections"]["Q"])):
                    self.forget_v.append((v, w))
                self.state.append((v, w, [init.get(b, 0) if isinstance(b, int) else 0 for b in c["connections"]["Q"]]))
                for k, b in enumerate(c["connections"]["Q"]):
                    if isinstance(b, int):
                        self.drv[b] = ("q", v, k, w)
            elif t in ("$mem_v2", "$mem"):
                self.mem_prep(v, c)
            else:
                y = c["connections"].get("Y")
                if y is None:
                    raise Exception("unsupported cell " + t)
                for k, b in enumerate(y):
                    if isinstance(b, int):
                        self.drv[b] = ("y", v, k, len(y))
        self.inports = []
        self.outports = []
        for n, p in m["ports"].items():
            w = len(p["bits"])
            if p["direction"] == "input":
                self.inports.append((n, w))
                for k, b in enumerate(p["bits"]):
                    if isinstance(b, int):
                        self.drv[b] = ("i", n, k, w)
            else:
                self.outports.append((n, w))
        # ports that yosys/nmigen dropped are still fields of I/O
        have_i = {n for n, _ in self.inports}
        have_o = {n for n, _ in self.outports}
        self.extra_i = [(n, w) for n, d, w in self.ports if d == 'i' and n not in have_i]
        self.extra_o = [(n, w) for n, d, w in self.ports if d == 'o' and n not in have_o]
        for n, w in self.extra_i:
            pass

        body = self.out
        # outputs
        for n, w in self.outports:
            if n in have_i:
                continue
            e = self.bits(m["ports"][n]["bits"])
            body.append("o.%s = %s;" % (n, self.store(e, w)))
        # next state
        for v, w, iv in self.state:
            if iv is None:
                continue        # memory read register: see mem_next
            e = self.bits(self.cells[v]["connections"]["D"])
            body.append("st<%d>(n.%s, %s);" % (w, v, e))
        for v in self.mems:
            self.mem_next(v)
        return self.emit()

    # ---- memories
    def mem_prep(self, v, c):
        p = c["parameters"]
        W, A, SZ = b2i(p["WIDTH"]), b2i(p["ABITS"]), b2i(p["SIZE"])
        RP, WP = b2i(p["RD_PORTS"]), b2i(p["WR_PORTS"])
        off = b2i(p.get("OFFSET", 0))
        assert off == 0
        ini = p["INIT"]
        vals = []
        if isinstance(ini, str):
            s = ini.replace('x', '0')
            s = s.rjust(W * SZ, '0') if len(s) >= W * SZ else s.rjust(W * SZ, '0')
            n = len(s)
            for k in range(SZ):
                vals.append(int(s[n - (k + 1) * W:n - k * W] or '0', 2))
        else:
            vals = [0] * SZ
        def pbits(name):
            s = p[name]
            n = max(RP, WP) * 64
            if isinstance(s, int):
                s = bin(s)[2:]
            s = s.replace('x', '0')
            return lambda i: (int(s[len(s) - 1 - i]) if i < len(s) else 0)
        c["mem"] = dict(W=W, A=A, SZ=SZ, RP=RP, WP=WP, vals=vals, clk=pbits("RD_CLK_ENABLE"),
                        wclk=pbits("WR_CLK_ENABLE"), trans=pbits("RD_TRANSPARENCY_MASK"),
                        rinit=pbits("RD_INIT_VALUE"))
        c["rom"] = WP == 0
        self.mems.append(v)
        rd = c["connections"]["RD_DATA"]
        for r in range(RP):
            for k in range(W):
                b = rd[r * W + k]
                if isinstance(b, int):
                    self.drv[b] = ("m", v, r, k)
        for r in range(RP):
            if c["mem"]["clk"](r):
                self.state.append(("%s_r%d" % (v, r), W, None))
        # state entries with init None are read registers handled in mem_next
        self.state_rd = True

    def mem_next(self, v):
        c = self.cells[v]
        mm = c["mem"]
        con = c["connections"]
        W, A, SZ = mm["W"], mm["A"], mm["SZ"]
        o = self.out
        # write ports
        ws = []
        for w in range(mm["WP"]):
            assert mm["wclk"](w)
            en = self.bits(con["WR_EN"][w * W:(w + 1) * W])
            ad = self.bits(con["WR_ADDR"][w * A:(w + 1) * A])
            da = self.bits(con["WR_DATA"][w * W:(w + 1) * W])
            o.append("const U<%d> %s_we%d = %s; const unsigned %s_wa%d = (unsigned)(%s); const U<%d> %s_wd%d = %s;"
                     % (W, v, w, en, v, w, ad, W, v, w, da))
            ws.append(w)
        for r in range(mm["RP"]):
            if not mm["clk"](r):
                continue
            ad = self.bits(con["RD_ADDR"][r * A:(r + 1) * A])
            en = self.bits([con["RD_EN"][r]])
            f = "%s_r%d" % (v, r)
            o.append("{ unsigned a = (unsigned)(%s); if ((unsigned)(%s)) { U<%d> x = a < %d ? ld<%d>(%s[a]) : (U<%d>)0;"
                     % (ad, en, W, SZ, W, self.memref(v), W))
            for w in ws:
                if mm["trans"](r * mm["WP"] + w):
                    o.append("if (%s_wa%d == a) x = (x & ~%s_we%d) | (%s_wd%d & %s_we%d);" % (v, w, v, w, v, w, v, w))
            o.append("st<%d>(n.%s, x); } else std::memmove(&n.%s, &s.%s, sizeof n.%s); }" % (W, f, f, f, f))
        if not c["rom"]:
            o.append("#ifndef INPLACE_MEM")
            o.append("if (&s != &n) std::memcpy(&n.%s, &s.%s, sizeof n.%s);" % (v, v, v))
            o.append("#endif")
        for w in ws:
            o.append("if (%s_we%d && %s_wa%d < %d) { U<%d> x = ld<%d>(n.%s[%s_wa%d]); x = (x & ~%s_we%d) | (%s_wd%d & %s_we%d); st<%d>(n.%s[%s_wa%d], x); }"
                     % (v, w, v, w, SZ, W, W, v, v, w, v, w, v, w, v, w, W, v, v, w))

    def memref(self, v):
        return "%s_rom" % v if self.cells[v]["rom"] else "s.%s" % v

    # ---- expressions
    def store(self, e, w):
        return e if w > 64 else "(%s)(%s)" % (ctype(w), e)

    def need(self, d):
        if d[0] == "y":
            self.cell(d[1])
        elif d[0] == "m":
            self.memrd(d[1], d[2])

    def bits(self, bl):
        """expression of type U<len(bl)>"""
        W = len(bl)
        runs = []
        i = 0
        while i < W:
            b = bl[i]
            if isinstance(b, str):
                j = i
                v = 0
                while j < W and isinstance(bl[j], str):
                    if bl[j] == '1':
                        v |= 1 << (j - i)
                    j += 1
                runs.append(("k", v, i, j - i))
                i = j
                continue
            if b not in self.drv:
                # undriven net: reads as 0
                runs.append(("k", 0, i, 1))
                i += 1
                continue
            d = self.drv[b]
            j = i + 1
            while j < W and isinstance(bl[j], int) and bl[j] in self.drv:
                e = self.drv[bl[j]]
                if d[0] == "m":
                    if e[0] == "m" and e[1] == d[1] and e[2] == d[2] and e[3] == d[3] + (j - i):
                        j += 1
                        continue
                elif e[0] == d[0] and e[1] == d[1] and e[2] == d[2] + (j - i):
                    j += 1
                    continue
                break
            self.need(d)
            if d[0] == "q":
                src, sw, off = "q_" + d[1], d[3], d[2]
            elif d[0] == "y":
                src, sw, off = d[1], d[3], d[2]
            elif d[0] == "i":
                src, sw, off = "i_" + d[1], d[3], d[2]
            else:
                src, sw, off = "%s_rd%d" % (d[1], d[2]), self.cells[d[1]]["mem"]["W"], d[3]
            runs.append(("s", src, sw, off, i, j - i))
            i = j
        parts = []
        for r in runs:
            if r[0] == "k":
                if r[1]:
                    parts.append(const(r[1], W) + (" << %d" % r[2] if r[2] else ""))
            else:
                _, src, sw, off, pos, n = r
                if n == sw and off == 0:
                    e = "(U<%d>)%s" % (W, src) if sw != W else src
                else:
                    e = "(U<%d>)(U<%d>)(%s%s)" % (W, n, src, " >> %d" % off if off else "")
                if pos:
                    e = "(%s << %d)" % (e, pos)
                parts.append("(%s)" % e)
        if not parts:
            return "(U<%d>)0" % W
        if len(parts) == 1:
            return parts[0] if parts[0].startswith("(U<%d>)" % W) else "(U<%d>)%s" % (W, "(" + parts[0] + ")")
        return "(U<%d>)(%s)" % (W, " | ".join("(%s)" % x for x in parts))

    def memrd(self, v, r):
        key = (v, r)
        if key in self.done:
            return
        c = self.cells[v]
        mm = c["mem"]
        W, A = mm["W"], mm["A"]
        if mm["clk"](r):
            self.done.add(key)
            self.out.append("const U<%d> %s_rd%d = ld<%d>(s.%s_r%d);" % (W, v, r, W, v, r))
            return
        assert key not in self.onstack, "comb loop through memory"
        self.onstack.add(key)
        ad = self.bits(c["connections"]["RD_ADDR"][r * A:(r + 1) * A])
        self.onstack.discard(key)
        self.done.add(key)
        self.out.append("const unsigned %s_ra%d = (unsigned)(%s); const U<%d> %s_rd%d = %s_ra%d < %d ? ld<%d>(%s[%s_ra%d]) : (U<%d>)0;"
                        % (v, r, ad, W, v, r, v, r, mm["SZ"], W, self.memref(v), v, r, W))

    def cell(self, v):
        if v in self.done:
            return
        c = self.cells[v]
        if v in self.onstack:
            raise Exception("combinational loop through %s %s" % (v, c["type"]))
        self.onstack.add(v)
        t = c["type"]
        con = c["connections"]
        p = c["parameters"]
        Y = len(con["Y"])

        def op(port, w=None):
            w = w or max(Y, len(con[port]))
            e = self.bits(con[port])
            n = len(con[port])
            if n == w:
                return e
            if b2i(p.get(port + "_SIGNED", 0)) and signed_ok:
                return "(U<%d>)(SI<%d>)(SI<%d>)(%s)" % (w, w, n, e)
            return "(U<%d>)(%s)" % (w, e)
        signed_ok = b2i(p.get("A_SIGNED", 0)) and (("B" not in con) or b2i(p.get("B_SIGNED", 0)) or t in ("$shl", "$shr", "$sshl", "$sshr"))
        if t in ("$and", "$or", "$xor", "$add", "$sub", "$mul"):
            o = {"$and": "&", "$or": "|", "$xor": "^", "$add": "+", "$sub": "-", "$mul": "*"}[t]
            e = "(U<%d>)(%s %s %s)" % (Y, sub(op("A", Y), len(con["A"]), Y), o, sub(op("B", Y), len(con["B"]), Y))
        elif t == "$xnor":
            e = "(U<%d>)~(%s ^ %s)" % (Y, op("A", Y), op("B", Y))
        elif t == "$not":
            e = "(U<%d>)~%s" % (Y, op("A", Y))
        elif t == "$pos":
            e = op("A", Y)
        elif t == "$neg":
            e = "(U<%d>)(0-%s)" % (Y, op("A", Y))
        elif t in ("$eq", "$ne", "$eqx", "$nex"):
            w = max(len(con["A"]), len(con["B"]))
            e = "(U<%d>)(%s %s %s)" % (Y, op("A", w), "==" if t in ("$eq", "$eqx") else "!=", op("B", w))
        elif t in ("$lt", "$le", "$gt", "$ge"):
            w = max(len(con["A"]), len(con["B"]))
            o = {"$lt": "<", "$le": "<=", "$gt": ">", "$ge": ">="}[t]
            a, b = op("A", w), op("B", w)
            if signed_ok:
                a, b = "(SI<%d>)(%s)" % (w, a), "(SI<%d>)(%s)" % (w, b)
            e = "(U<%d>)(%s %s %s)" % (Y, a, o, b)
        elif t in ("$reduce_or", "$reduce_bool"):
            e = "(U<%d>)(%s != 0)" % (Y, self.bits(con["A"]))
        elif t == "$logic_not":
            e = "(U<%d>)(%s == 0)" % (Y, self.bits(con["A"]))
        elif t == "$reduce_and":
            n = len(con["A"])
            e = "(U<%d>)(%s == (U<%d>)~(U<%d>)0)" % (Y, self.bits(con["A"]), n, n)
        elif t in ("$reduce_xor", "$reduce_xnor"):
            e = "(U<%d>)%sparity<%d>(%s)" % (Y, "!" if t.endswith("xnor") else "", len(con["A"]), self.bits(con["A"]))
        elif t == "$logic_and":
            e = "(U<%d>)((%s != 0) && (%s != 0))" % (Y, self.bits(con["A"]), self.bits(con["B"]))
        elif t == "$logic_or":
            e = "(U<%d>)((%s != 0) || (%s != 0))" % (Y, self.bits(con["A"]), self.bits(con["B"]))
        elif t == "$mux":
            e = "(%s ? %s : %s)" % (self.cond(con["S"]), self.bits(con["B"]), self.bits(con["A"]))
        elif t == "$pmux":
            n = len(con["S"])
            e = self.bits(con["A"])
            s = self.bits(con["S"])
            self.out.append("const U<%d> %s_s = %s;" % (n, v, s))
            for k in reversed(range(n)):
                e = "((bool)(%s_s >> %d & (U<%d>)1) ? %s : %s)" % (v, k, n, self.bits(con["B"][k * Y:(k + 1) * Y]), e) if n > 1 else \
                    "((bool)%s_s ? %s : %s)" % (v, self.bits(con["B"]), e)
        elif t in ("$shl", "$sshl", "$shr", "$sshr"):
            w = max(Y, len(con["A"]))
            a = op("A", w)
            b = self.bits(con["B"])
            assert not b2i(p.get("B_SIGNED", 0))
            bb = "(unsigned long)(%s)" % ("(U<64>)(%s)" % b if len(con["B"]) <= 64 else b)
            if t in ("$shl", "$sshl"):
                e = "(U<%d>)shl<%d>(%s, %s)" % (Y, w, a, bb)
            elif t == "$sshr" and b2i(p.get("A_SIGNED", 0)):
                e = "(U<%d>)sar<%d>(%s, %s)" % (Y, w, a, bb)
            else:
                e = "(U<%d>)shr<%d>(%s, %s)" % (Y, w, a, bb)
        elif t in ("$shift", "$shiftx"):
            assert not b2i(p.get("B_SIGNED", 0))
            w = max(Y, len(con["A"]))
            e = "(U<%d>)shr<%d>(%s, (unsigned long)(%s))" % (Y, w, op("A", w), self.bits(con["B"]))
        else:
            raise Exception("unsupported cell " + t)
        self.onstack.discard(v)
        self.done.add(v)
        self.out.append("const U<%d> %s = %s;" % (Y, v, e))

    def cond(self, bl):
        return "(bool)(%s)" % self.bits(bl)

    def emit(self):
        L = []
        a = L.append
        a("namespace %s {" % self.ns)
        skip = {"clk", "rst", "full_clk", "full_rst"}
        # fields sorted by size so there is no padding
        fields = []
        for v, w, iv in self.state:
            fields.append((csize(w), v, w, None, iv))
        for v in self.mems:
            if not self.cells[v]["rom"]:
                mm = self.cells[v]["mem"]
                fields.append((csize(mm["W"]), v, mm["W"], mm["SZ"], None))
        fields.sort(key=lambda f: (-min(f[0], 8), f[3] is not None))
        a("struct S {")
        tot = 0
        for sz, v, w, n, iv in fields:
            if w <= 64:
                a("  %s %s%s;" % (ctype(w), v, "[%d]" % n if n else ""))
            else:
                a("  uint64_t %s%s[%d];" % (v, "[%d]" % n if n else "", (w + 63) // 64))
            tot += sz * (n or 1)
        pad = (-tot) % 8
        if pad:
            a("  uint8_t pad_[%d];" % pad)
        if tot == 0:
            a("  uint64_t pad_;")
        a("};")
        allin = self.inports + self.extra_i
        allout = self.outports + self.extra_o
        a("struct I { " + " ".join("uint64_t %s = 0;" % n if w <= 64 else "U<%d> %s = 0;" % (w, n) for n, w in allin) + " };")
        a("struct O { " + " ".join("uint64_t %s = 0;" % n if w <= 64 else "U<%d> %s = 0;" % (w, n) for n, w in allout) + " };")
        # indexed access to port families NAME_0, NAME_1, ...
        for kind, ports in (("I", allin), ("O", allout)):
            fam = {}
            for n, w in ports:
                mt = re.match(r"^(.*)_(\d+)$", n)
                if mt and w <= 64:
                    fam.setdefault(mt.group(1), []).append(int(mt.group(2)))
            for f, idx in fam.items():
                a("static inline uint64_t& %s(%s& x, int k) { switch (k) { %s } return x.%s_%d; }"
                  % (f, kind, " ".join("case %d: return x.%s_%d;" % (k, f, k) for k in idx), f, idx[0]))
        for v in self.mems:
            c = self.cells[v]
            if c["rom"]:
                mm = c["mem"]
                W = mm["W"]
                if W <= 64:
                    a("static const %s %s_rom[%d] = {%s};" % (ctype(W), v, mm["SZ"], ",".join("%dull" % x for x in mm["vals"])))
                else:
                    nw = (W + 63) // 64
                    a("static const uint64_t %s_rom[%d][%d] = {%s};" % (v, mm["SZ"], nw, ",".join(
                        "{" + ",".join("%dull" % (x >> (64 * k) & (2**64 - 1)) for k in range(nw)) + "}" for x in mm["vals"])))
        a("static inline void reset(S& s) { std::memset(&s, 0, sizeof s);")
        for sz, v, w, n, iv in fields:
            if iv is not None and any(iv):
                x = sum(b << k for k, b in enumerate(iv))
                if w <= 64:
                    a("  s.%s = %dull;" % (v, x))
                else:
                    for k in range((w + 63) // 64):
                        a("  s.%s[%d] = %dull;" % (v, k, x >> (64 * k) & (2**64 - 1)))
            if n and any(self.cells[v]["mem"]["vals"]):
                for i, x in enumerate(self.cells[v]["mem"]["vals"]):
                    if x:
                        if w <= 64:
                            a("  s.%s[%d] = %dull;" % (v, i, x))
                        else:
                            for k in range((w + 63) // 64):
                                a("  s.%s[%d][%d] = %dull;" % (v, i, k, x >> (64 * k) & (2**64 - 1)))
        a("}")
        # counters whose progress the exploration abstracts from (see DESIGN.md): none unless asked for
        # (they keep their value where they would have been counted up or down by one)
        a("static inline void forget(const S& p, S& s) { %s }" % " ".join("{ uint64_t d = ((uint64_t)s.%s - p.%s) & %dull; if (d == 1 || d == %dull) s.%s = p.%s; }" % (v, v, 2**w - 1, 2**w - 1, v, v) for v, w in self.forget_v))
        a("static inline void step_(const S& s, const I& in, O& o, S& n) {")
        for n, w in self.inports:
            a("  const U<%d> i_%s = (U<%d>)in.%s;" % (w, n, w, n))
        for v, w, iv in self.state:
            if iv is not None:
                a("  const U<%d> q_%s = ld<%d>(s.%s);" % (w, v, w, v))
        if pad:
            a("  std::memset(n.pad_, 0, sizeof n.pad_);")
        if tot == 0:
            a("  n.pad_ = 0;")
        for x in self.out:
            a("  " + x)
        a("}")
        # tracing
        a("template<class F> static inline void each_in(const I& in, F f) { %s }" % " ".join('f("%s", (U<512>)in.%s);' % (n, n) for n, w in allin))
        a("template<class F> static inline void each_out(const O& o, F f) { %s }" % " ".join('f("%s", (U<512>)o.%s);' % (n, n) for n, w in self.outports))
        a("static const char* const DESIGN = \"%s\";" % self.ns)
        a("static thread_local TraceSink* sink = nullptr;")
        a("static void step_plain(const S& s, const I& in, O& o, S& n) { step_(s, in, o, n); }")
        a("static inline void step(const S& s, const I& in, O& o, S& n) { step_plain(s, in, o, n); if (__builtin_expect(sink != nullptr, 0)) "
          "{ sink->begin(); each_in(in, [&](const char* k, U<512> v) { sink->put(k, v); }); sink->mid(); each_out(o, [&](const char* k, U<512> v) { sink->put(k, v); }); sink->end(); } }")
        a("struct Tag { static void set_sink(TraceSink* t) { sink = t; } };")
        a("} // namespace")
        self.stats = dict(state_bits=sum(f[2] * (f[3] or 1) for f in fields), state_bytes=tot,
                          cells=len(self.cells), memories=len(self.mems), abstracted_registers=len(self.forget_v))
        return "\n".join(L)


def sub(e, n, w):
    return e


def csize(w):
    return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 * ((w + 63) // 64)


def ctype(w):
    return "uint8_t" if w <= 8 else "uint16_t" if w <= 16 else "uint32_t" if w <= 32 else "uint64_t"


def const(v, W):
    if W <= 64 or v < 2**64:
        return "(U<%d>)%dull" % (W, v)
    parts = []
    k = 0
    while v >> (64 * k):
        x = (v >> (64 * k)) & (2**64 - 1)
        parts.append("((U<%d>)%dull << %d)" % (W, x, 64 * k))
        k += 1
    return "(U<%d>)(%s)" % (W, " | ".join(parts))


PRELUDE = r'''// generated by /verif/mc/gen.py
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include "dutlib.h"
'''


def compile_design(il, out_h, ns="dut", forget=None):
    js = out_h + ".json"
    ys = out_h + ".ys"
    open(ys, "w").write(YS.format(il=il, js=js))
    r = subprocess.run(["yosys", "-q", "-s", ys], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Exception("yosys failed: " + r.stdout[-2000:])
    meta = json.load(open(il + ".ports"))
    mod = json.load(open(js))["modules"]["top"]
    import sys
    sys.setrecursionlimit(100000)
    g = Gen(mod, meta["ports"], ns, forget)
    txt = g.run()
    open(out_h, "w").write(PRELUDE + txt + "\n")
    os.unlink(js)
    return g.stats, meta
