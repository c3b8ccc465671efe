"""Constructors of the designs under test; each returns (dut, inputs, outputs) for elab.Wrap.

Only the public attributes a parent module (or the README) connects to are used here.
"""
import constraints as _cons


def _core_cfg(bd, ps, out_bits, axi=False, debug=False, lj=64, conv=None, cdepth=None, buf=None):
    conv = conv or 16
    from math import ceil
    steps = ceil(min(16 + bd, 31) * ps / conv) + 3
    return {
        "bit_depth": bd, "pixels_per_cycle": ps, "LJ92_fifo_depth": lj, "out_bits": out_bits,
        "converter": conv, "converter_fifo_depth": cdepth or (steps + 3) * 2 + 8,
        "vbits_to_cbits_buffer_size": buf or max(3 * conv, conv + out_bits),
        "predictor_function": 1, "num_of_components": 4, "support_axi_lite": axi, "axi_lite_debug": debug,
    }


def axi_lite_ports(c):
    ins = [("ar_addr", c.s_axi_ri.araddr), ("ar_valid", c.s_axi_ri.arvalid), ("ar_prot", c.s_axi_ri.arprot),
           ("r_ready", c.s_axi_ri.rready),
           ("aw_addr", c.s_axi_wi.awaddr), ("aw_valid", c.s_axi_wi.awvalid), ("aw_prot", c.s_axi_wi.awprot),
           ("w_data", c.s_axi_wi.wdata), ("w_strb", c.s_axi_wi.wstrb), ("w_valid", c.s_axi_wi.wvalid),
           ("b_ready", c.s_axi_wi.bready)]
    outs = [("ar_ready", c.s_axi_ro.arready), ("r_data", c.s_axi_ro.rdata), ("r_resp", c.s_axi_ro.rresp),
            ("r_valid", c.s_axi_ro.rvalid), ("aw_ready", c.s_axi_wo.awready), ("w_ready", c.s_axi_wo.wready),
            ("b_resp", c.s_axi_wo.bresp), ("b_valid", c.s_axi_wo.bvalid)]
    return ins, outs


def d_integration3(bd, ps, out_bits, **kw):
    import integration_3
    cfg = _core_cfg(bd, ps, out_bits, axi=True, **kw)
    d = integration_3.Integration3(cfg, _cons.Constraints())
    i1 = d.integration_2.integration_1
    ai, ao = axi_lite_ports(i1.core_axi_lite)
    ins = [("pixel%d" % i, d.pixels_in[i]) for i in range(ps)] + [("valid", d.valid_in), ("busy", d.busy_in)] + ai
    outs = [("nready", d.nready), ("valid", d.valid_out), ("end", d.end_out), ("data", d.data_out),
            ("fend", i1.fend_out)] + ao
    return d, ins, outs


def _force_axi(on=True, debug=False):
    """Beta hardcodes its configuration; turn its documented support_axi_lite switch on."""
    import integration_3
    orig = integration_3.Integration3.__init__

    def init(self, config, cons):
        if on:
            config['support_axi_lite'] = True
        config['axi_lite_debug'] = debug
        orig(self, config, cons)
    integration_3.Integration3.__init__ = init


def _wrapped(top, ins, outs):
    c = top.integration_3.integration_2.integration_1.core_axi_lite
    ai, ao = axi_lite_ports(c)
    return ins + ai, outs + ao


def d_beta(debug=False):
    _force_axi(debug=debug)
    import beta_integration
    d = beta_integration.BetaIntegration()
    ins = [("pixel0", d.pixel_in1), ("pixel1", d.pixel_in2), ("valid", d.valid_in), ("busy", d.busy_in)]
    outs = [("nready", d.nready), ("valid", d.valid_out), ("end", d.end_out), ("data", d.data_out)]
    return (d,) + _wrapped(d, ins, outs)


def d_beta_axistream():
    _force_axi()
    import beta_integration_axistream
    d = beta_integration_axistream.BetaIntegrationAxiStream()
    ins = [("s_tdata", d.s_tdata), ("s_tvalid", d.s_tvalid), ("s_tlast", d.s_tlast), ("m_tready", d.m_tready)]
    outs = [("s_tready", d.s_tready), ("m_tdata", d.m_tdata), ("m_tvalid", d.m_tvalid), ("m_tlast", d.m_tlast)]
    return (d,) + _wrapped(d.top, ins, outs)


def d_beta_fifo_axistream():
    _force_axi()
    import beta_integration_fifo_axistream
    d = beta_integration_fifo_axistream.BetaIntegrationFIFOAxiStream()
    ins = [("s_tdata", d.s_tdata), ("s_tvalid", d.s_tvalid), ("m_tready", d.m_tready)]
    outs = [("s_tready", d.s_tready), ("m_tdata", d.m_tdata), ("m_tvalid", d.m_tvalid), ("m_tlast", d.m_tlast)]
    return (d,) + _wrapped(d.top, ins, outs)


def d_beta_fifo_lvds():
    _force_axi()
    import beta_integration_fifo_lvds
    d = beta_integration_fifo_lvds.BetaIntegrationFIFOLVDS()
    ins = [("s_tdata", d.s_tdata), ("s_tvalid", d.s_tvalid), ("m_tready", d.m_tready)]
    outs = [("s_tready", d.s_tready), ("m_tdata", d.m_tdata), ("m_tvalid", d.m_tvalid)]
    return (d,) + _wrapped(d.top, ins, outs)


def d_micro(debug=False):
    _force_axi(debug=debug)
    import micro_integration
    d = micro_integration.MicroIntegration()
    ins = [("pixel0", d.pixel_in), ("valid", d.valid_in), ("busy", d.busy_in)]
    outs = [("nready", d.nready), ("valid", d.valid_out), ("end", d.end_out), ("data", d.data_out)]
    return (d,) + _wrapped(d, ins, outs)


def d_micro_axistream():
    _force_axi()
    import micro_integration_axistream
    d = micro_integration_axistream.MicroIntegrationAxiStream()
    ins = [("s_tdata", d.s_tdata), ("s_tvalid", d.s_tvalid), ("s_tlast", d.s_tlast), ("m_tready", d.m_tready)]
    outs = [("s_tready", d.s_tready), ("m_tdata", d.m_tdata), ("m_tvalid", d.m_tvalid), ("m_tlast", d.m_tlast)]
    return (d,) + _wrapped(d.top, ins, outs)


def d_integration_3_axi_stream():
    _force_axi()
    import integration_3_axi_stream
    d = integration_3_axi_stream.Integration3AxiStream()
    ins = [("s_tdata", d.s_tdata), ("s_tvalid", d.s_tvalid), ("s_tlast", d.s_tlast), ("m_tready", d.m_tready)]
    outs = [("s_tready", d.s_tready), ("m_tdata", d.m_tdata), ("m_tvalid", d.m_tvalid), ("m_tlast", d.m_tlast)]
    ai, ao = axi_lite_ports(d.top.integration_2.integration_1.core_axi_lite)
    return d, ins + ai, outs + ao


# ------------------------------------------------------------------------------------------------ units
def d_integration1(bd, ps, axi=True, debug=False):
    import integration_1
    cfg = _core_cfg(bd, ps, 16, axi=axi, debug=debug)
    d = integration_1.Integration1(cfg, _cons.Constraints())
    ins = [("pixel%d" % i, d.pixels_in[i]) for i in range(ps)] + [("valid", d.valid_in)]
    outs = [("valid", d.valid_out), ("end", d.end_out), ("enc", d.enc_out), ("ctr", d.enc_out_ctr), ("fend", d.fend_out)]
    if axi:
        c = d.core_axi_lite
        ai, ao = axi_lite_ports(c)
        ins += ai
        outs += ao + [("width", c.width), ("height", c.height), ("allowed", c.allowed_cycles)]
        if debug:
            ins.append(("debug_en", c.debug_en))
    return d, ins, outs


def d_dma_axi_lite():
    import dma_axi_lite
    d = dma_axi_lite.DMAAxiLite()

    class R:
        s_axi_ri, s_axi_ro, s_axi_wi, s_axi_wo = d.s_axi_ri_, d.s_axi_ro_, d.s_axi_wi_, d.s_axi_wo_
    ai, ao = axi_lite_ports(R)
    ins = ai + [("in%d" % i, getattr(d, "in%d" % i)) for i in range(1, 10)]
    outs = ao + [("read_addr", d.read_addr), ("write_addr", d.write_addr), ("start", d.start)]
    return d, ins, outs


AXI3_IN = [("ar_id", "ri.arid"), ("ar_addr", "ri.araddr"), ("ar_prot", "ri.arprot"), ("ar_valid", "ri.arvalid"),
           ("r_ready", "ri.rready"), ("aw_id", "wi.awid"), ("aw_addr", "wi.awaddr"), ("aw_prot", "wi.awprot"),
           ("aw_valid", "wi.awvalid"), ("w_data", "wi.wdata"), ("w_strb", "wi.wstrb"), ("w_valid", "wi.wvalid"),
           ("b_ready", "wi.bready"), ("ar_len", "ri.arlen"), ("ar_size", "ri.arsize"), ("ar_burst", "ri.arburst"),
           ("aw_len", "wi.awlen"), ("aw_size", "wi.awsize"), ("aw_burst", "wi.awburst"), ("w_last", "wi.wlast"),
           ("w_id", "wi.wid")]
AXI3_OUT = [("ar_ready", "ro.arready"), ("r_id", "ro.rid"), ("r_data", "ro.rdata"), ("r_last", "ro.rlast"),
            ("r_resp", "ro.rresp"), ("r_valid", "ro.rvalid"), ("aw_ready", "wo.awready"), ("w_ready", "wo.wready"),
            ("b_id", "wo.bid"), ("b_resp", "wo.bresp"), ("b_valid", "wo.bvalid")]


def _bridge_sig(b, path):
    r, f = path.split(".")
    return getattr(getattr(b, "s_axi_" + r), f)


def d_axi_lite():
    """the bridge alone, both sides as ports"""
    import axi_lite
    b = axi_lite.AxiLite()
    ins = [(n, _bridge_sig(b, p)) for n, p in AXI3_IN]
    outs = [(n, _bridge_sig(b, p)) for n, p in AXI3_OUT]
    ins += [("m_ar_ready", b.m_axi_ri.arready), ("m_r_data", b.m_axi_ri.rdata), ("m_r_resp", b.m_axi_ri.rresp),
            ("m_r_valid", b.m_axi_ri.rvalid), ("m_aw_ready", b.m_axi_wi.awready), ("m_w_ready", b.m_axi_wi.wready),
            ("m_b_resp", b.m_axi_wi.bresp), ("m_b_valid", b.m_axi_wi.bvalid),
            ("aclk", b.s_axi_aclk), ("areset_n", b.s_axi_areset_n)]
    outs += [("m_ar_addr", b.m_axi_ro.araddr), ("m_ar_prot", b.m_axi_ro.arprot), ("m_ar_valid", b.m_axi_ro.arvalid),
             ("m_r_ready", b.m_axi_ro.rready), ("m_aw_addr", b.m_axi_wo.awaddr), ("m_aw_prot", b.m_axi_wo.awprot),
             ("m_aw_valid", b.m_axi_wo.awvalid), ("m_w_data", b.m_axi_wo.wdata), ("m_w_strb", b.m_axi_wo.wstrb),
             ("m_w_valid", b.m_axi_wo.wvalid), ("m_b_ready", b.m_axi_wo.bready),
             ("m_aclk", b.m_axi_aclk), ("m_areset_n", b.m_axi_areset_n)]
    return b, ins, outs


def d_bridged_dma():
    """the bridge in front of the DMA register block, connected as the full AXI product connects it"""
    from nmigen import Module, Elaboratable
    import axi_lite
    import dma_axi_lite
    b = axi_lite.AxiLite()
    d = dma_axi_lite.DMAAxiLite()

    class Both(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = b
            m.submodules.dma = d
            m.d.comb += [
                b.m_axi_ri.arready.eq(d.s_axi_ro_.arready), b.m_axi_ri.rdata.eq(d.s_axi_ro_.rdata),
                b.m_axi_ri.rresp.eq(d.s_axi_ro_.rresp), b.m_axi_ri.rvalid.eq(d.s_axi_ro_.rvalid),
                d.s_axi_ri_.araddr.eq(b.m_axi_ro.araddr), d.s_axi_ri_.arprot.eq(b.m_axi_ro.arprot),
                d.s_axi_ri_.arvalid.eq(b.m_axi_ro.arvalid), d.s_axi_ri_.rready.eq(b.m_axi_ro.rready),
                b.m_axi_wi.awready.eq(d.s_axi_wo_.awready), b.m_axi_wi.wready.eq(d.s_axi_wo_.wready),
                b.m_axi_wi.bresp.eq(d.s_axi_wo_.bresp), b.m_axi_wi.bvalid.eq(d.s_axi_wo_.bvalid),
                d.s_axi_wi_.awaddr.eq(b.m_axi_wo.awaddr), d.s_axi_wi_.awprot.eq(b.m_axi_wo.awprot),
                d.s_axi_wi_.awvalid.eq(b.m_axi_wo.awvalid), d.s_axi_wi_.wdata.eq(b.m_axi_wo.wdata),
                d.s_axi_wi_.wstrb.eq(b.m_axi_wo.wstrb), d.s_axi_wi_.wvalid.eq(b.m_axi_wo.wvalid),
                d.s_axi_wi_.bready.eq(b.m_axi_wo.bready),
            ]
            return m
    ins = [(n, _bridge_sig(b, p)) for n, p in AXI3_IN] + [("in%d" % i, getattr(d, "in%d" % i)) for i in range(1, 10)]
    outs = [(n, _bridge_sig(b, p)) for n, p in AXI3_OUT]
    outs += [("read_addr", d.read_addr), ("write_addr", d.write_addr), ("start", d.start)]
    return Both(), ins, outs


def _pipe(d, ins, outs):
    return d, ins + [("valid", d.valid_in), ("end", d.end_in)], outs + [("valid", d.valid_out), ("end", d.end_out)]


def _ports(name, arr):
    return [("%s%d" % (name, i), arr[i]) for i in range(len(arr))]


def d_predictor(bd, ps):
    cfg = _core_cfg(bd, ps, 16)
    if ps == 4:
        import predictor_p1_c4_px4
        d = predictor_p1_c4_px4.PredictorP1C4Px4(cfg, _cons.Constraints())
    else:
        import predictor_p1_c4_pix1_2
        d = predictor_p1_c4_pix1_2.PredictorP1C4Pix12(cfg, _cons.Constraints())
    return _pipe(d, _ports("pixel", d.pixels_in) + [("new_row", d.new_row)],
                 _ports("pixel", d.pixels_out) + _ports("predic", d.predics_out))


def d_difference(bd, ps):
    import difference
    d = difference.Difference(_core_cfg(bd, ps, 16), _cons.Constraints())
    return _pipe(d, _ports("pixel", d.pixels_in) + _ports("predic", d.predics_in),
                 _ports("val", d.vals_out) + _ports("mns", d.vals_out_mns))


def d_normalize(bd, ps):
    import normalize
    d = normalize.Normalize(_core_cfg(bd, ps, 16), _cons.Constraints())
    return _pipe(d, _ports("val", d.vals_in) + _ports("mns", d.vals_in_mns), _ports("val", d.vals_out) + _ports("ssss", d.ssssx))


def d_encode(bd, ps, axi=False):
    import encode
    d = encode.Encode(_core_cfg(bd, ps, 16, axi=axi), _cons.Constraints())
    r, i, o = _pipe(d, _ports("val", d.vals_in) + _ports("ssss", d.ssssx), _ports("enc", d.encs_out) + _ports("ctr", d.encs_ctr))
    if axi:
        i += [("w_addr", d.extern_w_port.addr), ("w_data", d.extern_w_port.data), ("w_en", d.extern_w_port.en),
              ("r_addr", d.extern_r_port.addr)]
        o += [("r_data", d.extern_r_port.data)]
    return r, i, o


def d_merge(bd, ps):
    import merge
    d = merge.Merge(_core_cfg(bd, ps, 16), _cons.Constraints())
    return _pipe(d, _ports("enc", d.encs_in) + _ports("ctr", d.encs_in_ctr), [("enc", d.enc_out), ("ctr", d.enc_out_ctr)])


def d_signals(ps):
    import signals
    d = signals.Signals(_core_cfg(12, ps, 16), _cons.Constraints())
    return d, [("height", d.height), ("width", d.width), ("new", d.new_input)], [("end", d.end_of_frame), ("row", d.new_row)]


# ------------------------------------------------------------------------------------------------ stream stages
def _bd_ps_cfg(bd, ps, conv, depth=64, cdepth=64, out_bits=16, buf=None):
    c = _core_cfg(bd, ps, out_bits, conv=conv, lj=depth, cdepth=cdepth, buf=buf)
    return c


def _late_writer(dut, data, lat):
    """an upstream pipeline of `lat` stages in front of a FIFO stage; it stops accepting when the stage warns"""
    from nmigen import Module, Elaboratable, Signal
    ins = [(n, Signal(len(s), name="lw_" + n)) for n, s in data]
    valid, ready = Signal(1, name="lw_valid"), Signal(1, name="lw_ready")

    class Late(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.dut = dut
            cur = [s for _, s in ins]
            v = Signal(1, name="lw_v0")
            m.d.comb += [ready.eq(dut.close_full == 0), v.eq((valid == 1) & (dut.close_full == 0))]
            for k in range(lat):
                nxt = [Signal(len(s), name="lw_%d_%d" % (k, j)) for j, s in enumerate(cur)]
                nv = Signal(1, name="lw_v%d" % (k + 1))
                m.d.sync += [a.eq(b) for a, b in zip(nxt, cur)] + [nv.eq(v)]
                cur, v = nxt, nv
            m.d.comb += [b.eq(a) for a, (_, b) in zip(cur, data)] + [dut.valid_in.eq(v)]
            return m
    return Late(), ins + [("valid", valid)], ready


def d_lj92_pipeline_fifo(bd, ps, depth, lat):
    import lj92_pipeline_fifo
    d = lj92_pipeline_fifo.LJ92PipelineFifo(_bd_ps_cfg(bd, ps, 16, depth=depth), _cons.Constraints())
    h, ins, ready = _late_writer(d, [("enc", d.enc_in), ("ctr", d.enc_in_ctr), ("end", d.in_end)], lat)
    return h, ins + [("re", d.latch_output)], [("ready", ready), ("enc", d.enc_out), ("ctr", d.enc_out_ctr),
                                               ("end", d.out_end), ("valid", d.valid_out)]


def d_converter_fifo(bd, ps, conv, depth, lat):
    import converter_fifo
    d = converter_fifo.ConverterFifo(_bd_ps_cfg(bd, ps, conv, cdepth=depth), _cons.Constraints())
    h, ins, ready = _late_writer(d, [("enc", d.enc_in), ("ctr", d.enc_in_ctr), ("end", d.in_end)], lat)
    return h, ins + [("re", d.latch_output)], [("ready", ready), ("enc", d.enc_out), ("ctr", d.enc_out_ctr),
                                               ("end", d.out_end), ("valid", d.valid_out)]


def d_converter(bd, ps, conv):
    import converter
    d = converter.Converter(_bd_ps_cfg(bd, ps, conv), _cons.Constraints())
    return d, [("enc", d.enc_out), ("ctr", d.enc_out_ctr), ("end", d.out_end), ("valid", d.valid_out), ("full", d.close_full)], \
        [("re", d.latch_output), ("enc", d.enc_in), ("ctr", d.enc_in_ctr), ("end", d.in_end), ("valid", d.valid_in)]


def d_vbits_to_cbits(conv, out_bits, buf):
    import vbits_to_cbits
    d = vbits_to_cbits.VBitsToCBits({"converter": conv, "out_bits": out_bits, "vbits_to_cbits_buffer_size": buf},
                                    _cons.Constraints())
    return d, [("enc", d.enc_in), ("ctr", d.enc_in_ctr), ("end", d.in_end), ("valid", d.valid_in), ("busy", d.busy_in)], \
        [("re", d.latch_input), ("data", d.data_out), ("valid", d.valid_out), ("end", d.end_out)]


def d_integration2(bd, ps, **kw):
    import integration_2
    cfg = _core_cfg(bd, ps, 16, axi=True, **kw)
    d = integration_2.Integration2(cfg, _cons.Constraints())
    ai, ao = axi_lite_ports(d.integration_1.core_axi_lite)
    ins = [("pixel%d" % i, d.pixels_in[i]) for i in range(ps)] + [("valid", d.valid_in), ("re", d.latch_output)] + ai
    return d, ins, [("nready", d.nready), ("valid", d.valid_out), ("enc", d.enc_out), ("ctr", d.enc_out_ctr),
                    ("end", d.out_end)] + ao


def _hs(d, extra_in=(), extra_out=()):
    ins = [("data", d.data_in), ("valid", d.valid_in), ("busy", d.i_busy)] + list(extra_in)
    outs = [("busy", d.o_busy), ("data", d.data_out), ("valid", d.valid_out)] + list(extra_out)
    return d, ins, outs


def d_fix_0xff():
    import fix_0xff
    d = fix_0xff.Fix0xFF()
    return _hs(d, [("end", d.end_in)], [("end", d.end_out), ("ctr", d.data_out_ctr)])


def d_fix_0xff2():
    import fix_0xff2
    d = fix_0xff2.Fix0xFF2()
    return _hs(d, [("end", d.end_in), ("ctr", d.data_in_ctr)], [("end", d.end_out)])


def d_fix_both():
    from nmigen import Module, Elaboratable
    import fix_0xff
    import fix_0xff2
    a, b = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2()

    class Both(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.a = a
            m.submodules.b = b
            m.d.comb += [b.data_in.eq(a.data_out), b.valid_in.eq(a.valid_out), b.end_in.eq(a.end_out),
                         b.data_in_ctr.eq(a.data_out_ctr), a.i_busy.eq(b.o_busy)]
            return m
    return Both(), [("data", a.data_in), ("valid", a.valid_in), ("end", a.end_in), ("busy", b.i_busy)], \
        [("busy", a.o_busy), ("data", b.data_out), ("valid", b.valid_out), ("end", b.end_out)]


def d_packed_fix(conv, buf):
    """packer, both stuffing stages and the markers, as the Beta and Micro cores connect them"""
    from nmigen import Module, Elaboratable
    import fix_0xff
    import fix_0xff2
    import vbits_to_cbits
    p = vbits_to_cbits.VBitsToCBits({"converter": conv, "out_bits": 16, "vbits_to_cbits_buffer_size": buf}, _cons.Constraints())
    a, b = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2()

    class All(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.p = p
            m.submodules.a = a
            m.submodules.b = b
            m.d.comb += [a.data_in.eq(p.data_out), a.valid_in.eq(p.valid_out), a.end_in.eq(p.end_out), p.busy_in.eq(a.o_busy),
                         b.data_in.eq(a.data_out), b.valid_in.eq(a.valid_out), b.end_in.eq(a.end_out),
                         b.data_in_ctr.eq(a.data_out_ctr), a.i_busy.eq(b.o_busy)]
            return m
    return All(), [("enc", p.enc_in), ("ctr", p.enc_in_ctr), ("end", p.in_end), ("valid", p.valid_in), ("busy", b.i_busy)], \
        [("re", p.latch_input), ("data", b.data_out), ("valid", b.valid_out), ("end", b.end_out)]


def d_markers():
    import markers
    d = markers.Markers()
    return _hs(d, [("end", d.end_in), ("fend", d.force_end_in)], [("end", d.end_out)])


def d_b16_b64():
    import b16_b64
    d = b16_b64.B16B64()
    return _hs(d, [("end", d.end_in)], [("end", d.end_out)])


def d_b16_b40():
    import b16_b40
    return _hs(b16_b40.B16B40())


def d_b64_b32():
    import b64_b32
    return _hs(b64_b32.B64B32())


def d_b64_b32_2():
    import b64_b32_2
    return _hs(b64_b32_2.B64B32_2())


# ------------------------------------------------------------------------------------------------ memory access
def _rec(pre, rec, names):
    return [(pre + n, getattr(rec, n)) for n in names]


def d_writer_chain():
    """FIFO, burst writer and address generator, as the full AXI product connects them"""
    from nmigen import Module, Elaboratable, Signal
    import address_generator
    import axihp_fifo
    import axihp_writer
    w, f, g = axihp_writer.AxiHPWriter(data_w=64), axihp_fifo.AxiHPFifo(), address_generator.AddressGenerator(0x80)
    enable = Signal(1, name="vf_enable")

    class Chain(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.w = w
            m.submodules.f = f
            m.submodules.g = g
            m.d.comb += [g.address_latch.eq(w.addr_enable), f.read.eq(w.data_enable), w.enable.eq(enable),
                         w.data_in.eq(f.data_out), w.data_empty.eq(f.readable16 == 0), w.addr_in.eq(g.address_o),
                         w.addr_empty.eq(g.address_valid == 0)]
            return m
    ins = [("enable", enable), ("start", g.starting_address), ("data", f.data_in), ("end", f.end_in), ("valid", f.valid_in),
           ("strobe", w.write_strobe), ("awready", w.m_axi_wi.awready), ("wready", w.m_axi_wi.wready),
           ("bvalid", w.m_axi_wi.bvalid), ("bresp", w.m_axi_wi.bresp), ("bid", w.m_axi_wi.bid)]
    outs = [("writable", f.writable), ("inactive", w.inactive), ("error", w.writer_error), ("active", w.writer_active),
            ("unconf", w.writer_unconf)]
    outs += _rec("", w.m_axi_wo, ["awid", "awaddr", "awburst", "awlen", "awsize", "awvalid", "wid", "wdata", "wstrb", "wlast",
                                  "wvalid", "bready"])
    return Chain(), ins, outs


def d_reader_chain():
    from nmigen import Module, Elaboratable, Signal
    import address_generator
    import axihp_fifo
    import axihp_reader
    r, f, g = axihp_reader.AxiHPReader(data_w=64), axihp_fifo.AxiHPFifo(), address_generator.AddressGenerator(0x80)
    enable = Signal(1, name="vf_enable")

    class Chain(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.r = r
            m.submodules.f = f
            m.submodules.g = g
            m.d.comb += [g.address_latch.eq(r.addr_enable), r.enable.eq(enable), r.data_full.eq(f.writable16 == 0),
                         r.addr_in.eq(g.address_o), r.addr_empty.eq(g.address_valid == 0), f.data_in.eq(r.data_out),
                         f.valid_in.eq(r.data_enable)]
            return m
    ins = [("enable", enable), ("start", g.starting_address), ("read", f.read), ("arready", r.m_axi_ri.arready),
           ("rvalid", r.m_axi_ri.rvalid), ("rdata", r.m_axi_ri.rdata), ("rlast", r.m_axi_ri.rlast),
           ("rresp", r.m_axi_ri.rresp), ("rid", r.m_axi_ri.rid)]
    outs = [("inactive", r.inactive), ("error", r.reader_error), ("active", r.reader_active), ("valid", f.valid_out),
            ("data", f.data_out), ("writable", f.writable)]
    outs += _rec("", r.m_axi_ro, ["arid", "araddr", "arburst", "arlen", "arsize", "arvalid", "rready"])
    return Chain(), ins, outs


def d_axihp_fifo():
    import axihp_fifo
    f = axihp_fifo.AxiHPFifo()
    return f, [("data", f.data_in), ("end", f.end_in), ("valid", f.valid_in), ("read", f.read)], \
        [("data", f.data_out), ("end", f.end_out), ("valid", f.valid_out), ("writable", f.writable), ("readable", f.readable),
         ("writable16", f.writable16), ("readable16", f.readable16)]


def d_address_generator(shift):
    import address_generator
    g = address_generator.AddressGenerator(shift)
    return g, [("latch", g.address_latch), ("start", g.starting_address)], [("addr", g.address_o), ("valid", g.address_valid)]


# ------------------------------------------------------------------------------------------------ utilities
def d_reverser(bits, sync):
    import reverser
    d = reverser.Reverser(bits, sync)
    return d, [("data", d.data_in)], [("data", d.data_out)]


def d_delayer(stages):
    import delayer
    d = delayer.Delayer(stages)
    return d, [("x", d.in_sig)], [("x", d.out_sig)]


def d_debug_module():
    import debug_module
    d = debug_module.DebugModule()
    return d, [("en", d.regs_en)], [("r%d" % i, d.registers[i]) for i in range(8)]


def d_register_file():
    import register_file
    d = register_file.RegisterFile()
    return d, [], [("height", d.height), ("width", d.width), ("allowed", d.allowed_cycles)]


def d_auto_reset():
    """the unit with its own output as the reset of its domain, as the products use it"""
    from nmigen import Module, Elaboratable
    import auto_reset
    import clk_domains
    d = auto_reset.AutoReset()

    class Top(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            clk_domains.load_clk(m)
            m.submodules.d = d
            m.d.comb += clk_domains.CORE.rst.eq((d.reset_out == 1) | (clk_domains.FULL.rst == 1))
            return m
    return Top(), [("end", d.end_in), ("hs1", d.hs1_in), ("hs2", d.hs2_in)], [("rst", d.reset_out)]


def d_force_end():
    import force_end
    d = force_end.ForceEnd({}, _cons.Constraints())
    return d, [("valid", d.valid_in), ("allowed", d.allowed_cycles)], [("fend", d.fend)]


def d_fullaxi(axi=False):
    """the whole memory to memory product; axi: with the core's register bus, so that the frame size can be set"""
    _force_axi(axi)
    import beta_integration_fullaxi
    d = beta_integration_fullaxi.BetaIntegrationFullAxi()
    r, w, a, t = d.axihp_reader, d.axihp_writer, d.dma_axi_lite, d.top
    ins = [("arready", r.m_axi_ri.arready), ("rvalid", r.m_axi_ri.rvalid), ("rdata", r.m_axi_ri.rdata),
           ("rlast", r.m_axi_ri.rlast), ("rresp", r.m_axi_ri.rresp), ("rid", r.m_axi_ri.rid),
           ("awready", w.m_axi_wi.awready), ("wready", w.m_axi_wi.wready), ("bvalid", w.m_axi_wi.bvalid),
           ("bresp", w.m_axi_wi.bresp), ("bid", w.m_axi_wi.bid)]
    outs = _rec("", w.m_axi_wo, ["awid", "awaddr", "awburst", "awlen", "awsize", "awvalid", "wid", "wdata", "wstrb", "wlast",
                                 "wvalid", "bready"])
    outs += _rec("", r.m_axi_ro, ["arid", "araddr", "arburst", "arlen", "arsize", "arvalid", "rready"])
    outs += [("fvalid", t.valid_out), ("fend", t.end_out), ("fbusy", t.busy_in)]

    class R:
        s_axi_ri, s_axi_ro, s_axi_wi, s_axi_wo = a.s_axi_ri_, a.s_axi_ro_, a.s_axi_wi_, a.s_axi_wo_
    di, do = axi_lite_ports(R)
    ins += [("d" + n, s) for n, s in di]
    outs += [("d" + n, s) for n, s in do]
    if axi:
        ci, co = axi_lite_ports(t.integration_3.integration_2.integration_1.core_axi_lite)
        ins += ci
        outs += co
    return d, ins, outs
