"""An AXI4 memory with random timing and a protocol monitor (Verilog text), independent of veriloggen."""


def bfm(p, DW, ports, seed, prob, size=65536, lite=False, init='((i * 7) ^ (i >> 8) ^ (i >> 3)) + 13'):
    """p: prefix of the signals, ports: set of the port names; prob: chances (0..15 of 16) for ar, r, aw, w, b"""
    n = DW // 8
    par, prr, paw, pw, pb = prob
    has = lambda x: '%s_%s' % (p, x) in ports
    lg = n.bit_length() - 1
    t = []
    a = t.append
    a('''
  reg [7:0] MEM [0:%(top)d];
  integer i, seed_P, arh_P, art_P, awh_P, awt_P, wh_P, wt_P, bh_P, bt_P, rb_P, wb_P, bcnt_P;
  reg [31:0] ara_P [0:15]; integer arl_P [0:15]; reg [15:0] ari_P [0:15];
  reg [31:0] awa_P [0:15]; integer awl_P [0:15]; reg [15:0] awi_P [0:15]; reg [15:0] bi_P [0:15];
  reg [%(dw)d-1:0] wd_P [0:15]; reg [%(n)d-1:0] ws_P [0:15]; reg wl_P [0:15];
  reg pav_P, pwv_P, pxv_P; reg [31:0] paa_P, pwa_P; reg [7:0] pal_P, pwl_P; reg [%(dw)d-1:0] pxd_P; reg pxl_P; reg [%(n)d-1:0] pxs_P;
  reg [31:0] adr_P;
  initial begin
    for(i = 0; i < %(size)d; i = i + 1) MEM[i] = %(init)s;
    seed_P = %(seed)d; arh_P = 0; art_P = 0; awh_P = 0; awt_P = 0; wh_P = 0; wt_P = 0; bh_P = 0; bt_P = 0; rb_P = 0; wb_P = 0;
    pav_P = 0; pwv_P = 0; pxv_P = 0;
    P_arready = 0; P_awready = 0; P_wready = 0; P_rvalid = 0; P_bvalid = 0; P_rdata = 0; P_rresp = 0; P_bresp = 0;
  end
  always @(posedge CLK) if(RST) begin
    pav_P <= 0; pwv_P <= 0; pxv_P <= 0;
  end else begin
    // a request stays until it is accepted
    if(pav_P && (P_arvalid !== 1 || P_araddr !== paa_P ARLENCHK)) $display("PROTO read request changed %%t", $time);
    if(pwv_P && (P_awvalid !== 1 || P_awaddr !== pwa_P AWLENCHK)) $display("PROTO write request changed %%t", $time);
    if(pxv_P && (P_wvalid !== 1 || P_wdata !== pxd_P || P_wstrb !== pxs_P WLASTCHK)) $display("PROTO write data changed %%t", $time);
    pav_P <= P_arvalid && !P_arready; paa_P <= P_araddr; PALEN
    pwv_P <= P_awvalid && !P_awready; pwa_P <= P_awaddr; PWLEN
    pxv_P <= P_wvalid && !P_wready; pxd_P <= P_wdata; pxs_P <= P_wstrb; PXLAST
    // read requests
    if(P_arvalid && P_arready) begin
      ARFULL
      if(P_araddr %% %(n)d != 0) $display("PROTO read address %%h is not aligned", P_araddr);
      ara_P[art_P %% 16] = P_araddr; arl_P[art_P %% 16] = ARLEN + 1; ari_P[art_P %% 16] = ARID; art_P = art_P + 1;
    end
    P_arready <= art_P - arh_P < 4 && ($random(seed_P) & 15) <= %(par)d;
    // read data
    if(P_rvalid && P_rready) begin
      P_rvalid <= 0; P_rdata <= {%(dw)d{1'bx}}; RLAST0
      rb_P = rb_P + 1;
      if(rb_P == arl_P[arh_P %% 16]) begin rb_P = 0; arh_P = arh_P + 1; end
    end
    if((!P_rvalid || P_rready) && arh_P < art_P && ($random(seed_P) & 15) <= %(prr)d) begin
      P_rvalid <= 1;
      adr_P = ara_P[arh_P %% 16] + rb_P * %(n)d;
      for(i = 0; i < %(n)d; i = i + 1) P_rdata[i*8 +: 8] <= MEM[(adr_P + i) %% %(size)d];
      RLASTSET RIDSET
    end
    // write requests
    if(P_awvalid && P_awready) begin
      AWFULL
      if(P_awaddr %% %(n)d != 0) $display("PROTO write address %%h is not aligned", P_awaddr);
      awa_P[awt_P %% 16] = P_awaddr; awl_P[awt_P %% 16] = AWLEN + 1; awi_P[awt_P %% 16] = AWID; awt_P = awt_P + 1;
    end
    P_awready <= awt_P - awh_P < 4 && ($random(seed_P) & 15) <= %(paw)d;
    // write data
    if(P_wvalid && P_wready) begin
      wd_P[wt_P %% 16] = P_wdata; ws_P[wt_P %% 16] = P_wstrb; wl_P[wt_P %% 16] = WLAST; wt_P = wt_P + 1;
    end
    P_wready <= wt_P - wh_P < 6 && ($random(seed_P) & 15) <= %(pw)d;
    if(wh_P < wt_P && awh_P < awt_P && bt_P - bh_P < 8 && ($random(seed_P) & 7) != 0) begin
      adr_P = awa_P[awh_P %% 16] + wb_P * %(n)d;
      for(i = 0; i < %(n)d; i = i + 1) if(ws_P[wh_P %% 16][i] === 1) MEM[(adr_P + i) %% %(size)d] = wd_P[wh_P %% 16][i*8 +: 8];
      else if(ws_P[wh_P %% 16][i] !== 0) $display("PROTO unknown write strobe");
      $display("W %%h %%h %%h", adr_P, wd_P[wh_P %% 16], ws_P[wh_P %% 16]);
      wb_P = wb_P + 1;
      if(wl_P[wh_P %% 16] !== (wb_P == awl_P[awh_P %% 16])) $display("PROTO wlast %%b in beat %%0d of %%0d", wl_P[wh_P %% 16], wb_P, awl_P[awh_P %% 16]);
      if(wb_P == awl_P[awh_P %% 16]) begin wb_P = 0; bi_P[bt_P %% 16] = awi_P[awh_P %% 16]; awh_P = awh_P + 1; bt_P = bt_P + 1; end
      wh_P = wh_P + 1;
    end
    // responses
    if(P_bvalid && P_bready) begin P_bvalid <= 0; bh_P = bh_P + 1; end
    else if(!P_bvalid && bh_P < bt_P && ($random(seed_P) & 15) <= %(pb)d) begin P_bvalid <= 1; BIDSET end
  end
''' % dict(top=size - 1, size=size, dw=DW, n=n, seed=seed, par=par, prr=prr, paw=paw, pw=pw, pb=pb, init=init))
    s = '\n'.join(t)
    full = not lite
    chk = '''if(P_axlen + 1 > 256 || P_axaddr %% 4096 + (P_axlen + 1) * %d > 4096) $display("PROTO burst of %%0d beats at %%h", P_axlen + 1, P_axaddr);
      if(P_axsize !== %d || P_axburst !== 1) $display("PROTO size %%b burst %%b", P_axsize, P_axburst);''' % (n, lg)
    rep = dict(ARLENCHK='|| P_arlen !== pal_P' if full else '', AWLENCHK='|| P_awlen !== pwl_P' if full else '', WLASTCHK='|| P_wlast !== pxl_P' if full else '',
               PALEN='pal_P <= P_arlen;' if full else '', PWLEN='pwl_P <= P_awlen;' if full else '', PXLAST='pxl_P <= P_wlast;' if full else '',
               ARFULL=chk.replace('ax', 'ar') if full else '', AWFULL=chk.replace('ax', 'aw') if full else '',
               ARLEN='P_arlen' if full else '0', AWLEN='P_awlen' if full else '0', ARID='P_arid' if has('arid') else '0', AWID='P_awid' if has('awid') else '0',
               WLAST='P_wlast' if full else "1'b1", RLAST0='P_rlast <= 0;' if full else '', RLASTSET='P_rlast <= rb_P + 1 == arl_P[arh_P % 16];' if full else '',
               RIDSET='P_rid <= ari_P[arh_P % 16];' if has('rid') else '', BIDSET='P_bid <= bi_P[bh_P % 16];' if has('bid') else '')
    import re
    s = re.sub(r'\b(%s)\b' % '|'.join(sorted(rep, key=len, reverse=True)), lambda mo: rep[mo.group(1)], s)
    return s.replace('P_', p + '_')


def declare(m, skip=()):
    """declarations of the signals of a module under test and the port list of its instance"""
    import veriloggen.core.vtypes as vt
    t, ports = [], []
    for name, v in m.io_variable.items():
        ports.append('.%s(%s)' % (name, name))
        if name in skip:
            continue
        w = v.width
        if w is not None and not isinstance(w, int):
            raise ValueError(name)
        t.append('  %s [%d:0] %s;' % ('reg' if isinstance(v, vt.Input) else 'wire', (w or 1) - 1, name))
    return '\n'.join(t), ', '.join(ports)
