property E02
alias gov = github.com/choria-io/go-choria/providers/governor/streams
alias nats = github.com/nats-io/nats.go
alias jsm = github.com/nats-io/jsm.go
alias ctxp = context
alias bo = github.com/choria-io/go-choria/backoff
alias timep = time

client gov E02_client.go.src

extern (*nats.Conn).RequestWithContext(c, s, d) (m, e) frame
  fresh m
  ensures e != gov.errRetry
extern jsm.ParsePubAck(m) (r, e) frame
  fresh r
  ensures e == nil ==> (r != nil && r.Sequence > 0)
  ensures e != gov.errRetry
extern jsm.IsNatsError(e, c) (b) frame
  ensures true
extern (*jsm.Manager).DeleteStreamMessage(s, q, x) (e) frame
  ensures true
extern ctxp.WithTimeout(c, t) (r, f) frame
  ensures true
extern (*gov.jsGMgr).Debugf(f, a) frame
  ensures true
extern (*gov.jsGMgr).Infof(f, a) frame
  ensures true
extern (*gov.jsGMgr).Errorf(f, a) frame
  ensures true
extern timep.NewTicker(d) (t) frame
  fresh t
  ensures t != nil
extern (*timep.Ticker).Reset(d) frame
  ensures true
extern (*timep.Ticker).Stop() frame
  ensures true
extern (*bo.Policy).Duration(n) (d) frame
  ensures true
extern (ctxp.Context).Err() (e) frame
  ensures e != nil

group campaign
  ghost asked bool
  ghost full bool
  ghost reply ref
  ghost got bool
  ghost slot int
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): assert a slot is only requested again when the governor was full: !asked || full
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): assert no slot is requested while one is held: !got
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): set asked = true
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): set full = false
  oncall (*nats.Conn).RequestWithContext(_, c, s, d) (m, e): set reply = ite(e == nil && s == g.subj, m, zero("*nats.Msg"))
  oncall jsm.ParsePubAck(m) (r, e): set got = e == nil && m != nil && m == as(reply, "*nats.Msg")
  oncall jsm.ParsePubAck(m) (r, e): set slot = ite(e == nil, r.Sequence, 0)
  oncall jsm.IsNatsError(e, c) (b): set full = b && c == 10077

verify (g *gov.jsGMgr) Start(ctx, name) (fin, seq, err)
  requires g != nil
  locks
  use campaign
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): assert not while running: !old(g.running)
  oncall (*nats.Conn).RequestWithContext(_, c, s, d): assert the task is announced: str(d) == name
  ensures started only with a confirmed slot: err == nil ==> (got && seq == slot && g.running && fin != nil)
  ensures a failed start leaves nothing running: err != nil ==> g.running == old(g.running)
  ensures at most one task at a time: old(g.running) ==> err != nil
  cover started: err == nil
  cover failed: err != nil && !old(g.running)

verify gov.contractClientTask(g, ctx, name) (err)
  requires g != nil
  locks
  ghost slot int
  ghost freed int
  ghost second bool
  oncall jsm.ParsePubAck(m) (r, e): set slot = ite(e == nil, r.Sequence, 0)
  oncall gov.contractClientMark(): assert the slot was given back: freed == 1 || g.noLeave || slot == 0
  oncall gov.contractClientMark(): set second = true
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): assert only its own slot: q == slot && s == g.stream && !g.noLeave
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): assert only once: freed == 0 && !second
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): set freed = freed + 1
  ensures the next task can start: !old(g.running) ==> (g.running == (err == nil && slot == 0))
  cover freed: freed == 1

verify gov.contractClientStale(g, ctx) (err)
  requires g != nil && !g.running
  locks
  ghost marks int
  ghost slot int
  ghost freed bool
  oncall jsm.ParsePubAck(m) (r, e): set slot = ite(e == nil, r.Sequence, 0)
  oncall gov.contractClientMark(): set marks = marks + 1
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): assert finishing twice gives nothing back: marks != 1
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): assert only its own slot: q == slot
  oncall (*jsm.Manager).DeleteStreamMessage(m, s, q, x): set freed = marks == 2
  ensures the second slot was given back: err == nil ==> (freed || g.noLeave)
  ensures nothing is left running: !g.running
  cover finished: err == nil
