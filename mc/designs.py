"""The designs under check: each function builds the real /repo module and lists its ports."""
from nmigen import *
import constraints


def D(*a, **k):
    from elab import Design
    return Design(*a, **k)


def arr(name, direction, a):
    return [("%s_%d" % (name, i), direction, s) for i, s in enumerate(a)]


def P(direction, obj, *names):
    return [(n, direction, getattr(obj, n)) for n in names]


BASE = dict(predictor_function=1, num_of_components=4, support_axi_lite=False, axi_lite_debug=False)


def C(cfg):
    c = dict(BASE)
    c.update(cfg)
    return c


# ------------------------------------------------------------------ single stages
def predictor(cfg):
    c = C(cfg)
    if c["pixels_per_cycle"] == 4:
        import predictor_p1_c4_px4
        d = predictor_p1_c4_px4.PredictorP1C4Px4(c, constraints.Constraints())
    else:
        import predictor_p1_c4_pix1_2
        d = predictor_p1_c4_pix1_2.PredictorP1C4Pix12(c, constraints.Constraints())
    return D([d], arr("px", 'i', d.pixels_in) + P('i', d, "new_row", "valid_in", "end_in") + arr("po", 'o', d.pixels_out) +
             arr("pr", 'o', d.predics_out) + P('o', d, "valid_out", "end_out"))


def signals(cfg):
    import signals
    d = signals.Signals(C(cfg), constraints.Constraints())
    return D([d], P('i', d, "height", "width", "new_input") + P('o', d, "end_of_frame", "new_row"))


def coder(cfg):
    """difference -> normalize -> encode, wired as in integration_1"""
    import difference, normalize, encode
    c = C(cfg)
    k = constraints.Constraints()
    a, b, e = difference.Difference(c, k), normalize.Normalize(c, k), encode.Encode(c, k)

    def extra(m):
        m.d.comb += [x.eq(y) for x, y in zip(b.vals_in, a.vals_out)]
        m.d.comb += [x.eq(y) for x, y in zip(b.vals_in_mns, a.vals_out_mns)]
        m.d.comb += [b.valid_in.eq(a.valid_out), b.end_in.eq(a.end_out)]
        m.d.comb += [x.eq(y) for x, y in zip(e.vals_in, b.vals_out)]
        m.d.comb += [x.eq(y) for x, y in zip(e.ssssx, b.ssssx)]
        m.d.comb += [e.valid_in.eq(b.valid_out), e.end_in.eq(b.end_out)]
    return D([a, b, e], arr("px", 'i', a.pixels_in) + arr("pr", 'i', a.predics_in) + P('i', a, "valid_in", "end_in") +
             arr("enc", 'o', e.encs_out) + arr("ctr", 'o', e.encs_ctr) + P('o', e, "valid_out", "end_out"), extra=extra)


def merge(cfg):
    import merge
    d = merge.Merge(C(cfg), constraints.Constraints())
    return D([d], arr("enc", 'i', d.encs_in) + arr("ctr", 'i', d.encs_in_ctr) + P('i', d, "valid_in", "end_in") +
             P('o', d, "enc_out", "enc_out_ctr", "valid_out", "end_out"))


# ------------------------------------------------------------------ whole cores
def stub_register_file():
    """Frame geometry from top-level ports instead of the fixed 4096x3072 of register_file
    (register_file itself is checked with the full-size frame)."""
    import sys, types
    m = types.ModuleType("register_file")

    class RegisterFile(Elaboratable):
        last = None

        def __init__(self):
            self.height = Signal(16, name="stub_height")
            self.width = Signal(16, name="stub_width")
            self.allowed_cycles = Signal(24, name="stub_allowed")
            self.ios = [self.height, self.width, self.allowed_cycles]
            RegisterFile.last = self

        def elaborate(self, platform):
            m = Module()
            import clk_domains
            if RegisterFile.use_clk:
                clk_domains.load_clk(m)
            return m
    RegisterFile.use_clk = False
    m.RegisterFile = RegisterFile
    sys.modules["register_file"] = m
    return RegisterFile


def stub_ports(rf):
    r = rf.last
    return [("height", 'i', r.height), ("width", 'i', r.width), ("allowed", 'i', r.allowed_cycles)]


def small_fifos(cfg):
    """The whole core with other FIFO depths than its own configuration (fills them with short frames)."""
    over = dict(cfg.get("over") or {})
    if cfg.get("fifos"):
        over.update(LJ92_fifo_depth=cfg["fifos"][0], converter_fifo_depth=cfg["fifos"][1])
    if over:
        import integration_3 as i3
        real = getattr(i3.Integration3, "_real", i3.Integration3)

        def make(config, cons):
            config.update(over)     # the wrapper's own dictionary: it looks at the options too
            return real(config, cons)
        make._real = real
        i3.Integration3 = make


def core_ports(d, cfg):
    """register file ports of a core, whichever it has"""
    i1 = d.integration_3.integration_2.integration_1 if hasattr(d, "integration_3") else d.integration_2.integration_1
    return axi_slave_ports(i1.core_axi_lite)


def integration_3_axi(cfg):
    """integration_3 with the AXI-Lite registers"""
    import integration_3, clk_domains
    c = C(dict(cfg, support_axi_lite=True))
    d = integration_3.Integration3(c, constraints.Constraints())
    core_rst = Signal(1, name="core_rst_in")

    def extra(m):
        m.d.comb += clk_domains.CORE.rst.eq(core_rst | clk_domains.FULL.rst)
    return D([d], arr("px", 'i', d.pixels_in) + P('i', d, "valid_in", "busy_in") + [("core_rst", 'i', core_rst)] + core_ports(d, cfg) +
             P('o', d, "data_out", "valid_out", "end_out", "nready"), domain="full", extra=extra)


def integration_3(cfg):
    rf = stub_register_file()
    import integration_3
    d = integration_3.Integration3(C(cfg), constraints.Constraints())
    return D([d], arr("px", 'i', d.pixels_in) + P('i', d, "valid_in", "busy_in") + stub_ports(rf) +
             P('o', d, "data_out", "valid_out", "end_out", "nready"))


def beta(cfg):
    """cfg real=True: with the real register_file (4096x3072); fifos=(a, b): with FIFOs of these depths"""
    axi = (cfg.get("over") or {}).get("support_axi_lite")
    rf = None if cfg.get("real") or axi else stub_register_file()
    small_fifos(cfg)
    import beta_integration
    d = beta_integration.BetaIntegration()
    return D([d], [("px_0", 'i', d.pixel_in1), ("px_1", 'i', d.pixel_in2)] + P('i', d, "valid_in", "busy_in") +
             (stub_ports(rf) if rf else core_ports(d, cfg) if axi else []) + P('o', d, "data_out", "valid_out", "end_out", "nready"), domain="full")


def axi_slave_ports(cal, suffix=""):
    """AXI-Lite slave of a register module, as top-level ports"""
    g = lambda n: getattr(cal, n + suffix)
    return (P('i', g("s_axi_ri"), "araddr", "arprot", "arvalid", "rready") + P('o', g("s_axi_ro"), "arready", "rdata", "rresp", "rvalid") +
            P('i', g("s_axi_wi"), "awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready") + P('o', g("s_axi_wo"), "awready", "wready", "bresp", "bvalid"))


def micro(cfg):
    axi = (cfg.get("over") or {}).get("support_axi_lite", True)
    rf = None if axi else stub_register_file()
    small_fifos(cfg)
    import micro_integration
    d = micro_integration.MicroIntegration()
    return D([d], [("px_0", 'i', d.pixel_in)] + P('i', d, "valid_in", "busy_in") + (core_ports(d, cfg) if axi else stub_ports(rf)) +
             P('o', d, "data_out", "valid_out", "end_out", "nready"), domain="full")


def lj92_fifo(cfg):
    import lj92_pipeline_fifo
    d = lj92_pipeline_fifo.LJ92PipelineFifo(C(cfg), constraints.Constraints())
    return D([d], P('i', d, "enc_in", "enc_in_ctr", "in_end", "valid_in", "latch_output") + P('o', d, "enc_out", "enc_out_ctr", "out_end", "valid_out", "close_full"))


def conv(cfg):
    """converter -> converter FIFO, wired as in integration_2"""
    import converter, converter_fifo
    c, k = C(cfg), constraints.Constraints()
    a, b = converter.Converter(c, k), converter_fifo.ConverterFifo(c, k)

    def extra(m):
        m.d.comb += [b.enc_in.eq(a.enc_in), b.enc_in_ctr.eq(a.enc_in_ctr), b.in_end.eq(a.in_end), b.valid_in.eq(a.valid_in), a.close_full.eq(b.close_full)]
    return D([a, b], [("enc_in", 'i', a.enc_out), ("enc_in_ctr", 'i', a.enc_out_ctr), ("in_end", 'i', a.out_end), ("valid_in", 'i', a.valid_out), ("taken", 'o', a.latch_output)] +
             P('i', b, "latch_output") + P('o', b, "enc_out", "enc_out_ctr", "out_end", "valid_out"), extra=extra)


def vbits(cfg):
    import vbits_to_cbits
    d = vbits_to_cbits.VBitsToCBits(C(cfg), constraints.Constraints())
    return D([d], P('i', d, "enc_in", "enc_in_ctr", "in_end", "valid_in", "busy_in") + P('o', d, "latch_input", "data_out", "valid_out", "end_out"))


def stuff1(cfg):
    import fix_0xff
    d = fix_0xff.Fix0xFF()
    return D([d], P('i', d, "data_in", "valid_in", "end_in", "i_busy") + P('o', d, "data_out", "data_out_ctr", "valid_out", "end_out", "o_busy"))


def stuff2(cfg):
    """both byte-stuffing stages, wired as in beta_integration"""
    import fix_0xff, fix_0xff2
    a, b = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2()

    def extra(m):
        m.d.comb += [b.data_in.eq(a.data_out), b.data_in_ctr.eq(a.data_out_ctr), b.valid_in.eq(a.valid_out), b.end_in.eq(a.end_out), a.i_busy.eq(b.o_busy)]
    return D([a, b], P('i', a, "data_in", "valid_in", "end_in") + P('i', b, "i_busy") + P('o', b, "data_out", "valid_out", "end_out") + P('o', a, "o_busy"), extra=extra)


def markers(cfg):
    import markers
    d = markers.Markers()
    return D([d], P('i', d, "data_in", "valid_in", "end_in", "force_end_in", "i_busy") + P('o', d, "data_out", "valid_out", "end_out", "o_busy"))


def core_axil(cfg):
    """core_axi_lite with the code memory of the encoder, wired as in integration_1"""
    import core_axi_lite, encode
    c = C(dict(cfg, support_axi_lite=True, pixels_per_cycle=1))
    k = constraints.Constraints()
    d, e = core_axi_lite.CoreAxiLite(c, k), encode.Encode(c, k)

    def extra(m):
        m.d.comb += [d.rp_data.eq(e.extern_r_port.data), e.extern_r_port.addr.eq(d.rp_addr), e.extern_w_port.addr.eq(d.wp_addr),
                     e.extern_w_port.data.eq(d.wp_data), e.extern_w_port.en.eq(d.wp_en)]
    core_rst = Signal(1, name="core_rst_in")     # the cores reset their own domain at the end of every frame
    base = extra

    def extra(m):
        base(m)
        import clk_domains
        m.d.comb += clk_domains.CORE.rst.eq(core_rst | clk_domains.FULL.rst)
    return D([d, e], [("core_rst", 'i', core_rst)] + axi_slave_ports(d) + (P('i', d, "debug_en") if c["axi_lite_debug"] else []) + P('o', d, "height", "width", "allowed_cycles"), domain="full", extra=extra)


def dma_axil(cfg):
    import dma_axi_lite
    d = dma_axi_lite.DMAAxiLite()
    return D([d], axi_slave_ports(d, "_") + P('i', d, *["in%d" % k for k in range(1, 10)]) + P('o', d, "read_addr", "write_addr", "start"))


# ------------------------------------------------------------------ bus adapters
def width(cfg):
    mod = {"b16_b40": "B16B40", "b16_b64": "B16B64", "b64_b32": "B64B32", "b64_b32_2": "B64B32_2"}
    import importlib
    n = cfg["module"]
    d = getattr(importlib.import_module(n), mod[n])()
    dom = {} if n in ("b16_b64", "b64_b32") else dict(domain="full")
    return D([d], P('i', d, "data_in", "valid_in", "i_busy") + P('o', d, "data_out", "valid_out", "o_busy"), **dom)


def axihp_writer(cfg):
    import axihp_writer
    d = axihp_writer.AxiHPWriter(data_c=cfg.get("beats", 16))
    return D([d], P('i', d, "enable", "addr_in", "addr_empty", "data_in", "data_empty", "write_strobe") + P('i', d.m_axi_wi, "awready", "wacount", "wready", "wcount", "bid", "bresp", "bvalid") +
             P('o', d, "inactive", "addr_enable", "data_enable", "writer_error", "writer_active", "writer_unconf") +
             P('o', d.m_axi_wo, "awaddr", "awburst", "awlen", "awsize", "awvalid", "wdata", "wstrb", "wlast", "wvalid", "bready"))


def axihp_reader(cfg):
    import axihp_reader
    d = axihp_reader.AxiHPReader(data_c=cfg.get("beats", 16))
    return D([d], P('i', d, "enable", "addr_in", "addr_empty", "data_full") + P('i', d.m_axi_ri, "arready", "racount", "rid", "rdata", "rlast", "rresp", "rvalid", "rcount") +
             P('o', d, "inactive", "addr_enable", "data_enable", "data_out", "reader_error", "reader_active") + P('o', d.m_axi_ro, "araddr", "arburst", "arlen", "arsize", "arvalid", "rready"))


def axi_fifo(cfg):
    import axihp_fifo
    d = axihp_fifo.AxiHPFifo()
    return D([d], P('i', d, "data_in", "end_in", "valid_in", "read") + P('o', d, "data_out", "end_out", "valid_out", "writable", "readable", "writable16", "readable16"))


def addr_gen(cfg):
    import address_generator
    d = address_generator.AddressGenerator(cfg["step"])
    return D([d], P('i', d, "starting_address", "address_latch") + P('o', d, "address_o", "address_valid"))


# ------------------------------------------------------------------ cores behind their bus wrappers
def wrapped(cfg):
    """A stream wrapper with its pixel fields given as separate ports; the unused bits of the bus carry ones."""
    kind = cfg["module"]
    stub = kind != "micro_integration_axistream"
    rf = stub_register_file() if stub else None
    small_fifos(cfg)
    import importlib
    mod = importlib.import_module(kind)
    d = getattr(mod, {"beta_integration_axistream": "BetaIntegrationAxiStream", "beta_integration_fifo_axistream": "BetaIntegrationFIFOAxiStream", "beta_integration_fifo_lvds": "BetaIntegrationFIFOLVDS",
                      "micro_integration_axistream": "MicroIntegrationAxiStream", "integration_3_axi_stream": "Integration3AxiStream"}[kind])()
    # pixel k of the source word, lowest bit of its field
    at = {"beta_integration_axistream": [20, 8], "beta_integration_fifo_axistream": [52, 40, 28, 16], "beta_integration_fifo_lvds": [52, 40, 28, 16],
          "micro_integration_axistream": [0], "integration_3_axi_stream": [0, 12, 24, 36]}[kind]
    px = [Signal(12, name="wpx_%d" % k) for k in range(len(at))]
    busy, nready = Signal(1, name="wbusy"), Signal(1, name="wnready")
    last = d.m_tlast if hasattr(d, "m_tlast") else Signal(1, name="wlast")

    def extra(m):
        used = set()
        for k, a in enumerate(at):
            m.d.comb += d.s_tdata[a:a + 12].eq(px[k])
            used |= set(range(a, a + 12))
        for b in range(len(d.s_tdata)):
            if b not in used:
                m.d.comb += d.s_tdata[b].eq(1)
        m.d.comb += [d.m_tready.eq(~busy), nready.eq(~d.s_tready)]
        if hasattr(d, "s_tlast"):
            m.d.comb += d.s_tlast.eq(0)
    axi = axi_slave_ports(d.top.integration_3.integration_2.integration_1.core_axi_lite) if not stub else []
    dom = {} if kind == "integration_3_axi_stream" else dict(domain="full")
    return D([d], arr("px", 'i', px) + [("valid_in", 'i', d.s_tvalid), ("busy_in", 'i', busy)] + (stub_ports(rf) if stub else []) + axi +
             [("data_out", 'o', d.m_tdata), ("valid_out", 'o', d.m_tvalid), ("end_out", 'o', last), ("nready", 'o', nready)], extra=extra, **dom)


def fullaxi(cfg):
    rf = stub_register_file()
    small_fifos(cfg)
    import beta_integration_fullaxi, clk_domains
    d = beta_integration_fullaxi.BetaIntegrationFullAxi()
    pre = lambda p, l: [(p + n, dr, s) for n, dr, s in l]
    r, w = d.axihp_reader, d.axihp_writer
    data = Signal(64, name="wdata_if_valid")     # the FIFO's idle output is not part of the interface

    def extra(m):
        m.d.comb += data.eq(Mux(w.m_axi_wo.wvalid, w.m_axi_wo.wdata, 0))
    return D([d], stub_ports(rf) + axi_slave_ports(d.dma_axi_lite, "_") +
             pre("r_", P('i', r.m_axi_ri, "arready", "rdata", "rlast", "rresp", "rvalid") + P('o', r.m_axi_ro, "araddr", "arburst", "arlen", "arsize", "arvalid", "rready")) +
             pre("w_", P('i', w.m_axi_wi, "awready", "wready", "bresp", "bvalid") + P('o', w.m_axi_wo, "awaddr", "awburst", "awlen", "awsize", "awvalid", "wstrb", "wlast", "wvalid", "bready")) +
             [("w_wdata", 'o', data), ("core_rst", 'o', clk_domains.CORE.rst)], domain="full", extra=extra)


def axi_bridge(cfg):
    import axi_lite
    d = axi_lite.AxiLite()
    pre = lambda p, l: [(p + n, dr, s) for n, dr, s in l]
    return D([d], pre("s_", P('i', d.s_axi_ri, "arid", "araddr", "arburst", "arlen", "arsize", "arprot", "arvalid", "rready") + P('o', d.s_axi_ro, "arready", "rid", "rdata", "rlast", "rresp", "rvalid") +
                     P('i', d.s_axi_wi, "awid", "awaddr", "awburst", "awlen", "awsize", "awprot", "awvalid", "wid", "wdata", "wstrb", "wlast", "wvalid", "bready") + P('o', d.s_axi_wo, "awready", "wready", "bid", "bresp", "bvalid")) +
             pre("m_", P('o', d.m_axi_ro, "araddr", "arprot", "arvalid", "rready") + P('i', d.m_axi_ri, "arready", "rdata", "rresp", "rvalid") +
                 P('o', d.m_axi_wo, "awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready") + P('i', d.m_axi_wi, "awready", "wready", "bresp", "bvalid")) +
             [("aclk_in", 'i', d.s_axi_aclk), ("aresetn_in", 'i', d.s_axi_areset_n), ("aclk_out", 'o', d.m_axi_aclk), ("aresetn_out", 'o', d.m_axi_areset_n)])
