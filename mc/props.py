"""One function per property: which explorations decide it, and their bounds."""
import glob, os, re, shutil
from framework import Run, CheckError, TIER, REPO, PYPY, sh
T = TIER == "thorough"


def C02(c):
    c.assumptions += ["row-start and end marks are given as the frame-geometry unit gives them"]
    runs = []
    for ps in (1, 2, 4):
        ws = [w for w in ((4, 5, 8, 12) if ps == 1 else (4, 6, 8, 12) if ps == 2 else (8, 12, 16)) if w % ps == 0]
        for w in ws:
            runs.append(Run("tags_ps%d_w%d" % (ps, w), "predictor", dict(bit_depth=12, pixels_per_cycle=ps), "predictor.cpp",
                            dict(PS=ps, BD=12, WIDTH=w, HEIGHT=4), what="every stall schedule over a %dx4 frame of distinct pixels" % w, traces=1))
    for ps in (1, 2, 4):
        for w, h in ((8192, 3), (65532, 2), (4 if ps < 4 else 8, 20000)):
            runs.append(Run("long_ps%d_%dx%d" % (ps, w, h), "predictor", dict(bit_depth=12, pixels_per_cycle=ps), "predictor.cpp",
                            dict(PS=ps, BD=12, WIDTH=w, HEIGHT=h), what="every stall schedule over a %dx%d frame" % (w, h), traces=0, conform=False))
    for ps, w, h, bd, al in ((1, 5, 2, 2, 2), (2, 6, 2, 3, 2), (4, 8, 2, 2, 2)):
        runs.append(Run("values_ps%d" % ps, "predictor", dict(bit_depth=bd, pixels_per_cycle=ps), "predictor.cpp",
                        dict(PS=ps, BD=bd, WIDTH=w, HEIGHT=h, ALPHA=al), threads=4, what="every stall schedule and every frame %dx%d over %d pixel values" % (w, h, al)))
    c.run_all(runs)


def C01(c):
    runs = []
    for bd in range(2, 17):
        full = bd <= (16 if T else 13)
        runs.append(Run("bd%d" % bd, "coder", dict(bit_depth=bd, pixels_per_cycle=1), "coder.cpp", dict(PS=1, BD=bd, PREDS=0 if full else 1),
                        threads=8 if bd > 10 else 1, traces=1, what="every pixel x %s prediction, bit depth %d; every valid/stall pattern of 12 cycles" % ("every" if full else "boundary", bd)))
    for ps, bd in ((2, 8), (4, 6), (2, 12), (4, 16)):
        runs.append(Run("lanes%d_bd%d" % (ps, bd), "coder", dict(bit_depth=bd, pixels_per_cycle=ps), "coder.cpp", dict(PS=ps, BD=bd, PREDS=0 if bd <= 8 else 1),
                        threads=2, traces=1, what="%d lanes at once" % ps))
    c.run_all(runs)


def C03(c):
    runs = []
    for ps in (1, 2, 4):
        runs.append(Run("ps%d" % ps, "signals", dict(pixels_per_cycle=ps), "signals.cpp",
                        dict(PS=ps, MAXH=40 if T else 12, MAXG=40 if T else 14, BIGS="{4096,10},{65532,2},{4,1000},{300,300},{64,1023},{65532,1},{8,65535}" if T else "{4096,4},{65532,1},{4,1000},{8,9000}"),
                        threads=2, what="every stall schedule for every frame size up to the bound and for large frames"))
        runs.append(Run("sizes_ps%d" % ps, "signals", dict(pixels_per_cycle=ps), "sizes.cpp", dict(PS=ps), threads=8, traces=0, conform=False,
                        what="without stalls: every row length with two rows, every number of rows of one and of two groups"))
    c.run_all(runs)


def C04(c):
    runs = []
    alll = ",".join(map(str, range(0, 32)))
    few = "0,3,4,5,7,12,17,24,31"
    for ps, lens in ((2, alll), (3, alll), (4, alll if T else "0,1,3,4,5,6,8,10,12,14,16,17,20,24,28,31"), (5, "0,3,5,17,24,31"), (7, "3,9,28"), (8, "3,9,28")):
        for bd in (12, 16) if ps == 2 else (16,):
            runs.append(Run("ps%d_bd%d" % (ps, bd), "merge", dict(bit_depth=bd, pixels_per_cycle=ps), "merge.cpp",
                            dict(PS=ps, BD=bd, LENS='"%s"' % lens if 0 else lens), threads=8 if ps == 4 else 2, traces=1, what="all code-length combinations of %d lanes" % ps))
    c.run_all(runs)


def C12(c):
    def R(n, im, small=True, th=8, **k):
        rst = {"SET_RST(in,x)": "in.full_rst=x"}
        cfg = dict(_forget=["force_end", 20])
        if small:
            cfg["fifos"] = [25, 9]
        return Run(n, "beta", cfg, "core.cpp", dict(PS=2, BD=12, OUTB=16, KIND=4, IMAGES=im, **k, **rst), threads=th, traces=4, what=im)
    runs = [
        R("all_a", '{8,2,"extreme",1},{4,1,"flat",1}'),
        R("all_b", '{4,2,"mix",2},{6,2,"noise",3}'),
        R("two_frames", '{4,2,"mix",1},{4,1,"extreme",1}', FRAMES=2),
        R("reset", '{4,2,"mix",3},{4,1,"flat",1}', RESETS=1),
        R("sw_full", '{8,8,"extreme",1},{8,8,"mix",2},{12,6,"short",2}', SW=2),
        R("sw_two", '{8,2,"mix",5}', SW=2, FRAMES=3),
        R("deep", '{40,30,"extreme",1}', small=False, SW=1, GRAIN=16),
        R("deep2", '{8,2,"neg",1}', small=False, SW=2),
        Run("fullsize", "beta", dict(real=True), "full.cpp", dict(PS=2, BD=12, WIDTH=4096, HEIGHT=3072, FRAMES=2, ALLOWEDC="6666000ull", SCHEDS='{"s",1,0,1,0,false},{"s",40,1,50,9,false},{"s",1,0,3,1,false},{"n",1,0,1,0,true}', **{"EXTRA_IN(in)": ""}),
            threads=4, traces=0, conform=False, what="the shipped 4096x3072 geometry"),
    ]
    c.run_all(runs)


def C11(c):
    runs = []
    for n, im in (("a", '{4,2,"mix",1,0},{4,2,"mix",1,3},{4,2,"mix",1,15}'), ("b", '{4,2,"extreme",1,17},{4,2,"flat",1,19}'), ("c", '{4,2,"noise",1,24},{4,1,"mix",1,31}')):
        runs.append(Run(n, "beta", dict(fifos=[25, 9]), "force.cpp", dict(PS=2, BD=12, IMAGES=im, **{"SET_RST(in,x)": "in.full_rst=x"}), threads=8, what=im))
    runs.append(Run("allowances", "beta", dict(fifos=[25, 9]), "allowance.cpp", dict(PS=2), threads=8, conform=False, what="every allowance around every power of two, up to 2^24-1"))
    c.run_all(runs)


def C13(c):
    def R(n, im, small=True, **k):
        cfg = dict(_forget=["force_end", 20])
        if small:
            cfg["fifos"] = [25, 9]
        return Run(n, "micro", cfg, "core.cpp", dict(PS=1, BD=12, OUTB=16, KIND=4, AXI=1, IMAGES=im, **k, **{"SET_RST(in,x)": "in.full_rst=x"}), threads=8, traces=2, what=im)
    # a valid prefix code with other code words than the default table
    tab = "{0,0,2},{1,4,4},{2,5,4},{3,6,4},{4,7,4},{5,8,4},{6,9,4},{7,10,4},{8,11,4},{9,12,4},{10,13,4},{11,28,5},{12,65534,16}"
    c.run_all([
        R("all_a", '{4,2,"mix",1},{4,1,"flat",1},{5,1,"extreme",1}'),
        R("all_b", '{8,1,"extreme",1}'),
        R("two", '{4,1,"mix",4}', FRAMES=2),
        R("resized", '{4,2,"mix",4},{6,1,"extreme",2}', FRAMES=3, REPROG=1, SW=2),
        R("reset", '{4,1,"mix",3}', RESETS=1),
        R("table", '{4,2,"mix",1},{7,3,"noise",1}', TABLE=tab, SW=2),
        R("sw", '{8,5,"extreme",1},{16,3,"mix",2},{9,4,"noise",2}', SW=2),
        R("deep", '{40,24,"extreme",1}', small=False, SW=1, GRAIN=16),
        R("long", '{4096,2,"mix",1},{9000,1,"extreme",2},{4,2500,"noise",3}', small=False, SW=0, FRAMES=2),
    ])


def C05(c):
    def R(n, ps, bd, out, conv, ff, buf, im, sw=-1, **k):
        cf = -(-min(16 + bd, 31) * ps // conv) + 7    # the smallest converter FIFO the design accepts
        cfg = dict(bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=ff, out_bits=out, converter=conv, converter_fifo_depth=cf, vbits_to_cbits_buffer_size=buf, _forget=["force_end", 20])
        return Run(n, "integration_3", cfg, "core.cpp", dict(PS=ps, BD=bd, OUTB=out, KIND=3, IMAGES=im, SW=sw, **k, **{"SET_RST(in,x)": "in.rst=x"}), threads=4, traces=2,
                   what="%d px/cycle, %d bit, %d-bit words, converter %d: %s" % (ps, bd, out, conv, im))
    A = lambda ws: ",".join('{%d,%d,"%s",%d}' % x for x in ws)
    few = lambda w, ps: A([(w, 2, "mix", 1), (w, 1, "extreme", 1), (w, 1, "flat", 1)] + ([(2 * w, 2, "noise", 3)] if T or ps > 1 else []) + ([(w, 6 if T else 4, "extreme", 1)] if ps > 1 else []))
    more = lambda w, ps: A([(w, 12 * max(1, ps // 2), "extreme", 1), (w, 12 * max(1, ps // 2), "mix", 2), (w, 5, "noise", 3), (w, 6 * ps, "short", 1), (2 * w, 6, "mix", 4), (3 * w, 2, "neg", 4)])
    runs = []
    for n, a in {
         "readme4": (4, 12, 32, 48, 25, 144), "p1": (1, 12, 16, 15, 25, 41), "p2": (2, 12, 16, 30, 25, 77), "p4_16": (4, 16, 64, 60, 25, 200),
        "p1_16": (1, 16, 32, 31, 25, 93), "p2_8": (2, 8, 8, 24, 25, 72), "p1_2": (1, 2, 8, 18, 25, 54), "p2_14": (2, 14, 24, 20, 25, 64), "p1_tight": (1, 12, 16, 28, 25, 44), "p4_10": (4, 10, 16, 26, 25, 78),
    }.items():
        w = {1: 4, 2: 4, 4: 8}[a[0]]
        runs.append(R(n + "_all", *a, few(w, a[0])))
        runs.append(R(n + "_sw", *a, more(w, a[0]), sw=3 if T else 2))
        if n in ("p1", "p2", "readme4", "p4_16"):
            runs.append(R(n + "_long", *a, A([(8192, 2, "mix", 1), (16384, 1, "extreme", 3), (w, 5000, "mix", 2)]), sw=0))
            if a[1] == 12:
                runs.append(R(n + "_photo", *a, A([(4096, 10, "@%s/test_files/%s" % (REPO, x), 1) for x in ("IT8Chart15ms", "portrait-gainx2-offset2047-20ms-01", "random")]), sw=0))
            if T:
                runs.append(R(n + "_longsw", *a, A([(2048, 2, "mix", 1), (w, 800, "mix", 2)]), sw=1))
    c.run_all(runs)


ITEM_IN = dict(IN_V="valid_in", IN_D="enc_in", IN_C="enc_in_ctr", IN_E="in_end")


def C06(c):
    runs = []
    OUT = dict(OUT_V="valid_out", OUT_D="enc_out", OUT_C="enc_out_ctr", OUT_E="out_end", **{"OUT_RDY(in,b)": "in.latch_output=b"})
    for ps, bd, depth in ((1, 12, 25), (2, 12, 26), (4, 16, 25), (1, 16, 40)):
        tot = min(16 + bd, 31) * ps
        runs.append(Run("fifo_ps%d_bd%d_d%d" % (ps, bd, depth), "lj92_fifo", dict(pixels_per_cycle=ps, bit_depth=bd, LJ92_fifo_depth=depth), "bits.cpp",
                        dict(LENS=tot, MAXI=60 if T else 34, MINI=4, OVERRUN=8, MAXOUT=tot, **{"CLOSE(o)": "o.close_full", "IN_RDY(o)": "true"}, **ITEM_IN, **OUT), threads=2, traces=2,
                        what="code words with up to 8 arriving after the close signal"))
    for ps, bd, cv in ((1, 12, 15), (2, 12, 30), (1, 12, 28), (4, 12, 48), (4, 16, 60), (1, 2, 7), (2, 8, 11), (1, 16, 31), (2, 12, 28)):
        tot = min(16 + bd, 31) * ps
        steps = -(-tot // cv)
        lens = sorted({1, cv, min(cv + 1, tot), tot, min(2 * cv, tot), max(1, tot - 1)})
        runs.append(Run("conv_ps%d_bd%d_c%d" % (ps, bd, cv), "conv", dict(pixels_per_cycle=ps, bit_depth=bd, converter=cv, converter_fifo_depth=steps + 7), "bits.cpp",
                        dict(LENS=",".join(map(str, lens)), MAXI=9 if T else 6, MAXOUT=cv, **{"IN_RDY(o)": "o.taken"}, **ITEM_IN, **OUT), threads=2, traces=2,
                        what="code words of lengths %s through a %d-bit converter and its FIFO" % (lens, cv)))
    c.run_all(runs)


def C08(c):
    runs = []
    OUT = dict(OUT_V="valid_out", OUT_D="data_out", OUT_E="end_out", **{"STALL(in,b)": "in.busy_in=b", "IN_RDY(o)": "o.latch_input"})
    for cv, ob, buf in ((15, 16, 41), (30, 16, 77), (48, 32, 144), (3, 8, 11), (7, 8, 15), (8, 8, 24), (31, 16, 47), (5, 16, 21), (20, 64, 84), (40, 8, 120), (9, 24, 33)):
        lens = sorted({1, cv, max(1, cv // 2), max(1, cv - 1)} | ({ob} if ob <= cv else set()))
        runs.append(Run("c%d_o%d_b%d" % (cv, ob, buf), "vbits", dict(converter=cv, out_bits=ob, vbits_to_cbits_buffer_size=buf), "bits.cpp",
                        dict(LENS=",".join(map(str, lens)), MAXI=14 if T else 12, OUTB=ob, **ITEM_IN, **OUT), threads=2, traces=2, what="items of lengths %s into %d-bit words, buffer %d" % (lens, ob, buf)))
    c.run_all(runs)


def C09(c):
    c.run_all([
        Run("first_stage", "stuff1", {}, "stuff.cpp", dict(STAGE=1), what="word streams of any length over {FF,xx}^2, every schedule"),
        Run("both_stages", "stuff2", {}, "stuff.cpp", dict(STAGE=2), what="word streams of any length over {FF,xx}^2, every schedule", threads=4),
        Run("first_values", "stuff1", {}, "stuff.cpp", dict(STAGE=1, VALUES=1, MAXW=2), what="every 16-bit value in frames of 1-2 words, every schedule", threads=4),
        Run("both_values", "stuff2", {}, "stuff.cpp", dict(STAGE=2, VALUES=1, MAXW=4 if T else 3), what="every 16-bit value in short frames, every schedule", threads=8),
    ])


def C10(c):
    c.run_all([Run("any", "markers", {}, "markers.cpp", {}, what="two frames of any length, every schedule, the forced end at any cycle", traces=6)])


def C14(c):
    runs = []
    H = lambda xs: ",".join(hex(x) for x in xs)
    for bd, dbg in ((12, 0), (16, 1), (2, 0), (8, 1)):
        top = 0x1000 + 8 * bd
        ads = [0x1000, 0x1004, top, top + 4, top + 8, 0x1000 + 8 * (bd // 2), 0x1004 + 8 * (bd // 2), 0x2000, 0x2004, 0x43c02000, 0x4000, 0x4004, 0x401c, 0x0, 0x8000, 0x10fc]
        runs.append(Run("seq_bd%d" % bd, "core_axil", dict(bit_depth=bd, axi_lite_debug=bool(dbg)), "axil_seq.cpp",
                        dict(BD=bd, DEBUG=dbg, DEPTH=3 if T else 2, ADDRS=H(ads), DATAS="0xffffffff,0xa5c31e78,0", NSTRB=16, EXTRA=8 if dbg else 0), threads=3, traces=2, what="every sequence of transactions, depth %d" % bd))
        runs.append(Run("deep_bd%d" % bd, "core_axil", dict(bit_depth=bd, axi_lite_debug=bool(dbg)), "axil_seq.cpp",
                        dict(BD=bd, DEBUG=dbg, DEPTH=4 if T else 3, ADDRS=H([0x1000, 0x1004, top, top + 4, 0x2000, 0x2004]), DATAS="0xffffffff,0xa5c31e78", NSTRB=6, EXTRA=0), threads=3, traces=2, what="every longer sequence over fewer registers"))
    runs.append(Run("cycle", "core_axil", dict(bit_depth=12, axi_lite_debug=False), "axil_cycle.cpp",
                    dict(BD=12, NW=2, NR=2, WOPLIST="{0x2000,0x12345678,15},{0x1000,0xffffffff,2}", ROPLIST="0x2000,0x1000"), threads=8, traces=6, what="two writes and two reads, every handshake timing"))
    runs.append(Run("core_reset", "core_axil", dict(bit_depth=12, axi_lite_debug=False), "axil_cycle.cpp",
                    dict(BD=12, NW=1, NR=1, RESETS=2 if T else 1, WOPLIST="{0x2000,0x12345678,15},{0x1004,0xffffffff,6}", ROPLIST="0x2004,0x1004"), threads=8, traces=6, what="a write and a read, every handshake timing, the core resetting itself at any cycle"))
    c.run_all(runs)


def C15(c):
    H = lambda xs: ",".join(hex(x) for x in xs)
    c.run_all([
        Run("seq", "dma_axil", {}, "axil_seq.cpp", dict(DMA=1, DEPTH=2, ADDRS=H([0x1000 + 4 * k for k in range(12)] + [0x0, 0x2000, 0x40401004]), DATAS="0xffffffff,0xa5c31e78,0", NSTRB=16, EXTRA=0), threads=4, traces=2, what="every sequence of transactions"),
        Run("deep", "dma_axil", {}, "axil_seq.cpp", dict(DMA=1, DEPTH=4 if T else 3, ADDRS=H([0x1000, 0x1004, 0x1008, 0x100c, 0x102c]), DATAS="0xffffffff,0xa5c31e78", NSTRB=16 if T else 6, EXTRA=0), threads=4, traces=2, what="every longer sequence over fewer registers"),
        Run("cycle", "dma_axil", {}, "axil_cycle.cpp", dict(DMA=1, NW=3 if T else 2, NR=2, WOPLIST="{0x1000,0x12345678,15},{0x1004,0xffffffff,2}", ROPLIST="0x1000,0x1004"), threads=8, traces=6, what="two writes and two reads, every handshake timing"),
    ])


def C18(c):
    def R(m, i, o, use=0, held=0, first=0, **k):
        return Run(m, "width", dict(module=m), "width.cpp", dict(INB=i, OUTB=o, USE=use or i, HELD=held, ACCEPT_FIRST=first, **k), threads=4, traces=4, what="word streams of any length, every schedule")
    c.run_all([R("b16_b40", 2, 5), R("b16_b64", 2, 8), R("b64_b32", 8, 4, CAP=64), R("b64_b32_2", 8, 3, 6, 1, INV=1)])


def C16(c):
    def R(n, dc, **k):
        return Run(n, "axihp_writer", dict(beats=dc), "axihpw.cpp", dict(DC=dc, **k), threads=8, traces=4, what="every timing of addresses, data, enable and slave, bursts of %d" % dc)
    c.run_all([R("any2", 2, UMAX=15), R("any16", 16, UMAX=3), R("all16", 16, NB=3), R("all4", 4, NB=10)])


def C17(c):
    def R(n, dc, **k):
        return Run(n, "axihp_reader", dict(beats=dc), "axihpr.cpp", dict(DC=dc, **k), threads=8, traces=4, what="every timing of addresses, room, enable and slave, bursts of %d" % dc)
    c.run_all([R("any2", 2, UMAX=15), R("any16", 16), R("all16", 16, NB=3), R("all4", 4, NB=12)])


def C19(c):
    c.run_all([Run("fifo", "axi_fifo", {}, "axififo.cpp", {}, threads=2, traces=4, what="every write and read schedule, streams of any length")] +
              [Run("addr_%x" % st, "addr_gen", dict(step=st), "addr.cpp", dict(STEP=hex(st)), threads=2, traces=4, what="every schedule, 200 addresses from 7 starting points") for st in (0x80, 0x10)])


def C20(c):
    def R(n, mod, im, small=True, **k):
        cfg = dict(module=mod, _forget=["force_end", 20])
        if small:
            cfg["fifos"] = [26, 10] if mod.startswith("integration") else [25, 9]
        return Run(n, "wrapped", cfg, "stream.cpp", dict(BD=12, IMAGES=im, **k), threads=8, traces=4, what="%s: %s" % (mod, im))
    A = dict(PS=2, OUTB=16, LAST=1)
    F = dict(PS=4, OUTB=16, LAST=1, HELD=1, AHEAD=3)
    L = dict(PS=4, OUTB=40, LAST=0, HELD=1)
    I = dict(PS=4, OUTB=32, LAST=1, FRAMED=0, FRAMES=1)
    M = dict(PS=1, OUTB=16, LAST=1, NOSTUB=1, AXI=1)
    c.run_all([
        R("axistream_all", "beta_integration_axistream", '{4,2,"mix",1}', **A),
        R("axistream_sw", "beta_integration_axistream", '{8,4,"extreme",1},{6,3,"noise",2}', SW=2, **A),
        R("fifo_all", "beta_integration_fifo_axistream", '{4,2,"mix",1}', **F),
        R("fifo_sw", "beta_integration_fifo_axistream", '{8,4,"extreme",1},{12,3,"noise",2}', SW=2, **F),
        R("lvds_all", "beta_integration_fifo_lvds", '{4,2,"mix",1}', **L),
        R("lvds_sw", "beta_integration_fifo_lvds", '{8,4,"extreme",1},{12,3,"noise",2}', SW=2, FRAMES=3, **dict(L)),
        R("int3_all", "integration_3_axi_stream", '{8,2,"mix",1},{8,3,"extreme",1}', **I),
        R("int3_sw", "integration_3_axi_stream", '{16,12,"extreme",1},{24,5,"noise",2}', SW=2, **I),
        R("micro_all", "micro_integration_axistream", '{4,1,"mix",1}', **M),
        R("micro_sw", "micro_integration_axistream", '{9,4,"noise",2},{8,2,"extreme",1}', SW=2, **M),
        R("fifo_deep", "beta_integration_fifo_axistream", '{40,30,"extreme",1}', small=False, SW=1, GRAIN=16, **F),
        R("axi_deep", "beta_integration_axistream", '{40,30,"mix",1}', small=False, SW=1, GRAIN=16, **A),
        R("lvds_deep", "beta_integration_fifo_lvds", '{40,30,"extreme",1}', small=False, SW=1, GRAIN=16, **L),
        R("int3_deep", "integration_3_axi_stream", '{40,30,"extreme",1}', small=False, SW=1, GRAIN=16, **I),
        R("micro_deep", "micro_integration_axistream", '{20,15,"extreme",1}', small=False, SW=1, GRAIN=16, **M),
        R("axi_long", "beta_integration_axistream", '{9000,2,"mix",1},{4,3000,"noise",1}', small=False, SW=0, **A),
        R("fifo_long", "beta_integration_fifo_axistream", '{9000,2,"mix",1},{4,3000,"noise",1}', small=False, SW=0, **F),
        R("lvds_long", "beta_integration_fifo_lvds", '{9000,2,"mix",1},{4,3000,"noise",1}', small=False, SW=0, **L),
        R("int3_long", "integration_3_axi_stream", '{9000,2,"mix",1},{8,3000,"noise",1}', small=False, SW=0, **I),
        R("micro_long", "micro_integration_axistream", '{9000,2,"mix",1},{4,3000,"noise",1}', small=False, SW=0, **M),
    ])


def dma_run(n, im, small=True, **k):
    cfg = dict(_forget=["force_end", 20])
    if small:
        cfg["fifos"] = [25, 9]
    x = {q: k.pop(q) for q in ("conform", "expect", "traces") if q in k}
    return Run(n, "fullaxi", cfg, "fullaxi.cpp", dict(IMAGES=im, **k), threads=8, what="DMA core: %s" % im, **dict(dict(traces=4), **x))


def C21(c):
    R = dma_run
    c.run_all([
        R("one", '{16,8,"mix",1},{32,4,"extreme",1},{12,9,"noise",2}', SW=1),
        R("two", '{16,8,"noise",1}', SW=2, FRAMES=1),
        R("long", '{64,32,"mix",1},{48,40,"noise",2}', SW=1, FRAMES=1, small=False, GRAIN=4 if T else 16),
        R("memories", '{16,8,"mix",1},{32,12,"extreme",1}', SW=1, MODES="1, 2"),
        R("memories_long", '{64,32,"mix",1}', SW=1, FRAMES=1, MODES="1, 2", small=False, GRAIN=4 if T else 16),
        R("tail", '{16,8,"mix",1}', SW=0, FRAMES=1, TAIL=1, expect=[dict(key="fullaxi_tail", match="at the frame's end the core resets its DMA")]),
        R("free", '{4096,16,"mix",1},{16,2000,"noise",2},{65532,2,"mix",3}', SW=0, FRAMES=2, small=False),
        R("read_limit", '{65532,65535,"flat",1}', SW=1, FRAMES=1, LIM=3, conform=False),
        R("write_limit", '{65532,65535,"extreme",1}', SW=1, FRAMES=1, LIM=3, conform=False),
    ])


def C28(c):
    R = dma_run
    c.run_all([
        R("one", '{16,8,"mix",1}', SW=2, FRAMES=1, STATUS=1),
        R("memories", '{16,4,"mix",1}', SW=1, FRAMES=1, MODES="1, 2", STATUS=1),
        R("two", '{16,4,"mix",1}', SW=1, FRAMES=2, STATUS=1),
        R("reading", '{16,8,"mix",1}', SW=1, FRAMES=2, READS=1),
        R("read_limit", '{65532,65535,"flat",1}', SW=0, FRAMES=1, LIM=3, STATUS=1, conform=False),
        R("write_limit", '{65532,65535,"extreme",1}', SW=0, FRAMES=1, LIM=3, STATUS=1, conform=False),
    ])


# ---- liblj92 (C): the real library behind its API, compiled with sanitizers, on exhaustively enumerated inputs
def lj92_run(name, harness, mode, what, threads=8):
    san = ["-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]
    return Run(name, None, {}, harness, defs={"MODE": mode, "DEEP": int(T)}, threads=threads, conform=False, what=what, kind="inputs",
               c_src=[os.path.join(REPO, "liblj92", "lj92.c")], c_flags=san + ["-Dmalloc=lj_malloc", "-Dcalloc=lj_calloc", "-Drealloc=lj_realloc", "-Dfree=lj_free"],
               flags=san + ["-I", os.path.join(REPO, "liblj92")])


def C22(c):
    c.run_all([
        lj92_run("small images", "lj_dec.cpp", 1, "every image of 2 and 3 bits with few samples, 1-4 components, and every image of two or three corner values of 2, 8, 12 and 16 bits; predictors 1-7"),
        lj92_run("precisions", "lj_dec.cpp", 2, "every 2x2 image of six corner values at every precision 2-16, predictors 1-7, five Huffman tables up to 16 bits deep"),
        lj92_run("differences", "lj_dec.cpp", 3, "every one of the 65536 differences at bit positions within the byte, five Huffman tables"),
        lj92_run("layouts", "lj_dec.cpp", 4, "every order of segments of a list, padding, trailing bytes, table identifiers; every writeLength and skipLength; linearization; sides of 65535"),
    ])


def C23(c):
    c.run_all([
        lj92_run("small images", "lj_enc.cpp", 1, "every image of 2-4 bits with few samples and every image of corner values of 2-16 bits"),
        lj92_run("differences", "lj_enc.cpp", 2, "every one of the 65536 differences at every bit position within the byte"),
        lj92_run("tables", "lj_enc.cpp", 3, "every non-empty set of the 17 classes with six laws of frequencies, every vector of six frequencies from a list"),
        lj92_run("layouts", "lj_enc.cpp", 4, "every readLength and skipLength, delinearization tables of every sufficient and of insufficient length, scans of stuffed bytes, sides of 65535"),
    ])


def C24(c):
    c.run_all([
        lj92_run("truncations", "lj_rob.cpp", 1, "every prefix of every stream of a family; every linearization table that is too short"),
        lj92_run("byte errors", "lj_rob.cpp", 2, "every byte of every stream of a family replaced by every value, removed, doubled; replaced and truncated"),
        lj92_run("double errors", "lj_rob.cpp", 3, "every pair of header bytes replaced by every pair of significant values, neighbouring bytes by every pair of values"),
        lj92_run("short inputs", "lj_rob.cpp", 4, "every input of up to five bytes over the ten significant byte values, alone and after prefixes of a stream"),
        lj92_run("no memory", "lj_rob.cpp", 5, "every allocation of open and encode fails in turn"),
    ])


# ---- host software (C++): the real program and library, each register access handed to a device model
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "mmap", "mmap64", "close", "usleep"))]


def host_run(c, name, harness, design=None, cfg=None, defs=None, config=None, **k):
    src = os.path.join(REPO, "software", "src")
    if config:      # the same sources with other values in config.h
        d = os.path.join(c.tmp, "src_" + name)
        shutil.copytree(src, d, ignore=lambda p, n: [x for x in n if not x.endswith((".h", ".cpp"))])
        s = open(os.path.join(d, "config.h")).read()
        for m, v in config.items():
            s, n = re.subn(r"(?m)^(\s*#\s*define\s+%s\s).*$" % m, r"\g<1>(%s)" % v, s)
            if n != 1:
                raise CheckError("config.h does not define %s" % m)
        open(os.path.join(d, "config.h"), "w").write(s)
        src = d
    return Run(name, design, cfg or {}, harness, defs=defs, c_src=sorted(glob.glob(os.path.join(src, "*.cpp"))),
               c_flags=["-O1", "-std=c++11", "-fsanitize-coverage=func,trace-loads,trace-stores"], c_objcopy=["--redefine-sym", "main=xt_main"],
               flags=WRAP + ["-I", src], **k)


def C25(c):
    runs = []
    for bd in (range(2, 17) if T else (2, 12, 15, 16)):
        for dbg in (0, 1):
            if T or dbg == (bd in (12, 16)):
                runs.append(host_run(c, "registers_bd%d%s" % (bd, "_debug" if dbg else ""), "host_axil.cpp", "core_axil", dict(bit_depth=bd, axi_lite_debug=bool(dbg)),
                                     dict(BD=bd, DEBUG=dbg, DEPTH=2, SWEEP=1 if T or bd == 12 else 17), traces=2, what="the library on the RTL register file of %d bits" % bd))
    runs.append(host_run(c, "dma", "host_dma.cpp", what="every sequence of DMA calls, every completion, every status word"))
    H = dict(BD=12, DEBUG=1, PIXEL_AT64="52,40,28,16", PIXEL_AT32="20,8")
    runs.append(host_run(c, "program", "host_main.cpp", defs=dict(H, NIMAGES=6, FULLSET=1), threads=8, kind="inputs", what="the program on every outcome of a list, images with every pair of pixels"))
    runs.append(host_run(c, "program_32", "host_main.cpp", defs=dict(H, NIMAGES=3, FULLSET=0), config=dict(INPUT_LENGTH=32), threads=8, kind="inputs", what="32-bit source words: every pair of pixels"))
    runs.append(host_run(c, "program_noaxi", "host_main.cpp", defs=dict(H, NIMAGES=1, FULLSET=0), config=dict(AXI_LITE_ENABLE=0), threads=1, kind="inputs", what="without AXI-Lite"))
    c.run_all(runs)


def C26(c):
    c.run_all([Run("bridge", "axi_bridge", {}, "bridge.cpp", threads=4, traces=6, what="every handshake timing of reads and writes with several ids")])


def C27(c):
    def R(n, mod, im, dbg, **k):
        cfg = dict(_forget=["force_end", 20], fifos=[25, 9], over=dict(support_axi_lite=True, axi_lite_debug=True))
        return Run(n, mod, cfg, "core.cpp", dict(PS=2 if mod == "beta" else 1, BD=12, OUTB=16, KIND=4, AXI=1, DBG=dbg, IMAGES=im, **k, **{"SET_RST(in,x)": "in.full_rst=x"}), threads=4, traces=2, what="%s core, debug counters: %s" % (mod, im))
    c.run_all([
        R("beta", "beta", '{4,1,"mix",1},{8,2,"extreme",1}', 90 if T else 75, SW=3 if T else 2),
        R("beta_frames", "beta", '{4,1,"flat",1},{4,1,"mix",3}', 130, SW=1, FRAMES=2),
        R("micro", "micro", '{4,1,"mix",1},{5,1,"noise",2}', 90 if T else 75, SW=3 if T else 2),
        R("micro_frames", "micro", '{4,1,"mix",4}', 130, SW=1, FRAMES=2),
    ] + [Run("%s_long" % mod, mod, dict(fifos=[25, 9], over=dict(support_axi_lite=True, axi_lite_debug=True)), "counters.cpp",
             dict(PS=ps, BD=12, WIDTH=4096, HEIGHT=3000 if ps == 2 else 1500, DUTIES="{2,1,3,2,%d},{1,0,8,7,%d},{3,2,2,1,%d}" % ((3, 4, 2) if not T else (12, 12, 10))), threads=3, traces=0, conform=False, what="%s core: counts up to 2^24" % mod) for mod, ps in (("beta", 2), ("micro", 1))])


def code_table(kind, bd):
    """codes of the classes 0..bd: 1 short ones and one of 16 bits; 2 the highest class has 16 bits, every lower one a bit less; 4 the other way round"""
    if bd == 16 or kind == 1:
        return ([(0, 2)] + [(i, 4) for i in range(4, 14)] + [(28, 5), (58, 6), (118, 7), (238, 8), (478, 9), (65534, 16)])[:bd + 1]
    ln = [16 - bd + i for i in range(bd + 1)]
    return [((1 << l) - 2, l) for l in (ln if kind == 2 else ln[::-1])]


def C07(c):
    runs = []
    for ps in (1, 2, 4):
        for bd in range(2, 17):
            tot, w = min(16 + bd, 31) * ps, 8 if ps == 4 else 4
            for axi in (0, 1):
                cv = -(-tot // 2) if (bd + axi) % 2 else tot
                out = (16, 32, 8)[bd % 3]
                buf = max(3 * cv, cv + out)
                cfg = dict(bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=25 + bd, out_bits=out, converter=cv, converter_fifo_depth=-(-tot // cv) + 7, vbits_to_cbits_buffer_size=buf, _forget=["force_end", 20])
                k = dict(PS=ps, BD=bd, OUTB=out, KIND=3, SW=1, IMAGES='{%d,2,"extreme",1},{%d,3,"mix",2}' % (w, w), **{"SET_RST(in,x)": "in.core_rst=x" if axi else "in.rst=x"})
                if axi:
                    cfg["axi_lite_debug"] = bool(bd % 2)
                    k.update(AXI=1, TABLE=",".join("{%d,%d,%d}" % (i, v, l) for i, (v, l) in enumerate(code_table(ps, bd))))
                runs.append(Run("ps%d_bd%d%s" % (ps, bd, "_axi" if axi else ""), "integration_3_axi" if axi else "integration_3", cfg, "core.cpp", k, threads=1, traces=1,
                                what="%d px/cycle, %d bit, %d-bit words, converter %d%s" % (ps, bd, out, cv, ", code table and geometry by AXI-Lite" if axi else "")))
    for mod, axi, dbg in (("beta", 1, 0), ("beta", 1, 1), ("micro", 0, 0), ("micro", 1, 1)):
        cfg = dict(_forget=["force_end", 20], fifos=[25, 9], over=dict(support_axi_lite=bool(axi), axi_lite_debug=bool(dbg)))
        runs.append(Run("%s_axi%d_debug%d" % (mod, axi, dbg), mod, cfg, "core.cpp", dict(PS=2 if mod == "beta" else 1, BD=12, OUTB=16, KIND=4, SW=1, FRAMES=2, IMAGES='{4,2,"extreme",1},{8,3,"mix",2}', **(dict(AXI=1) if axi else {}), **{"SET_RST(in,x)": "in.full_rst=x"}),
                        threads=1, traces=1, what="%s core, AXI-Lite %d, debug %d" % (mod, axi, dbg)))
    runs.append(Run("generate", None, {}, None, fn=generate_modules, threads=4, what="every module's own generate command", kind="inputs"))
    c.run_all(runs)


def generate_modules():
    """every source file as a program, as generate_verilog.py runs it"""
    import concurrent.futures as F
    src = os.path.join(REPO, "migen_src")
    plain = {"axi3_lite_pkg", "axi3_pkg", "clk_domains", "config", "constraints"}      # no module in these

    def one(f):
        rc, out, err = sh([PYPY, f, "generate", "-t", "il"], timeout=300, cwd=src)
        name = os.path.basename(f)[:-3]
        return name, ("generate fails: " + err.strip()[-300:]) if rc else "generate yields nothing" if name not in plain and "module \\top" not in out and "attribute \\top 1" not in out else None
    with F.ThreadPoolExecutor(4) as ex:
        yield from ex.map(one, sorted(glob.glob(os.path.join(src, "*.py"))))
