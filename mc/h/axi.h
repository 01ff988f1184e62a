// AXI-Lite master used to program a design (fixed, well-behaved order of handshakes).
#pragma once
#include "mc.h"
static inline bool axi_write(dut::S& s, uint32_t byte_addr, uint32_t data, unsigned strb = 15, dut::I in = dut::I{}) {
  dut::S n; dut::O o; in.awaddr = byte_addr; in.awvalid = 1; in.wdata = data; in.wstrb = strb; in.wvalid = 1; in.bready = 1;
  for (int k = 0; k < 40; k++) { dut::step(s, in, o, n); s = n; bool aw = in.awvalid && o.awready, w = in.wvalid && o.wready; if (aw) in.awvalid = 0; if (w) in.wvalid = 0; if (o.bvalid) { in = dut::I{}; dut::step(s, in, o, n); s = n; return true; } }
  return false; }
static inline bool axi_read(dut::S& s, uint32_t byte_addr, uint32_t& data) {
  dut::S n; memset((void*)&n, 0, sizeof n); dut::O o; dut::I in; in.araddr = byte_addr; in.arvalid = 1; in.rready = 1;
  for (int k = 0; k < 40; k++) { dut::step(s, in, o, n); s = n; if (in.arvalid && o.arready) in.arvalid = 0; if (o.rvalid) { data = o.rdata; bool ok = o.rresp == 0; in = dut::I{}; dut::step(s, in, o, n); s = n; return ok; } }
  return false; }
