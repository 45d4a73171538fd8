property E01
alias el = github.com/choria-io/go-choria/providers/election/streams
alias nats = github.com/nats-io/nats.go
alias prom = github.com/prometheus/client_golang/prometheus
alias iu = github.com/choria-io/go-choria/internal/util
alias ctxp = context
alias timep = time
alias boff = github.com/choria-io/go-choria/backoff

extern (nats.KeyValue).Create(k, v, o) (s, e) frame
  ensures true
extern (nats.KeyValue).Update(k, v, s) (n, e) frame
  ensures true
extern (nats.KeyValue).Status() (s, e) frame
  ensures true
extern (*prom.CounterVec).WithLabelValues(l) (c) frame
  ensures c != nil
extern (*prom.GaugeVec).WithLabelValues(l) (c) frame
  ensures c != nil
extern (prom.Counter).Inc() frame
  ensures true
extern (prom.Gauge).Set(v) frame
  ensures true
extern iu.InterruptibleSleep(c, d) (e) frame
  ensures true
extern (*el.election).debugf(f, a) frame
  ensures true

def leads(e) = e.state == el.LeaderState && !e.notifyNext

group election
  requires e != nil && e.opts != nil && e.opts.bucket != nil
  requires distinct: (e.opts.wonCb == nil || e.opts.wonCb != e.opts.lostCb) && (e.opts.campaignCb == nil || (e.opts.campaignCb != e.opts.lostCb && e.opts.campaignCb != e.opts.wonCb))
  ghost created bool
  ghost tried bool
  ghost renewed bool
  ghost updated bool
  ghost seq int
  ghost lost int
  ghost won int
  oncall (nats.KeyValue).Create(_, k, v, o): assert only candidates claim: old(e.state) == el.CandidateState && !tried && !updated
  oncall (nats.KeyValue).Create(_, k, v, o): set tried = true
  oncall (nats.KeyValue).Create(_, k, v, o) (s, x): set created = x == nil && k == e.opts.key
  oncall (nats.KeyValue).Create(_, k, v, o) (s, x): set seq = s
  oncall (nats.KeyValue).Update(_, k, v, s): assert a leader renews its own claim: old(e.state) == el.LeaderState && s == old(e.lastSeq) && k == e.opts.key && !updated && !tried
  oncall (nats.KeyValue).Update(_, k, v, s): set updated = true
  oncall (nats.KeyValue).Update(_, k, v, s) (n, x): set renewed = x == nil
  oncall (nats.KeyValue).Update(_, k, v, s) (n, x): set seq = n
  oncall dynamic:*(f): assert a win is announced only after a renewal: f == e.opts.wonCb ==> (renewed && old(e.notifyNext))
  oncall dynamic:*(f): set won = ite(f == e.opts.wonCb, won + 1, won)
  oncall dynamic:*(f): set lost = ite(f == e.opts.lostCb, lost + 1, lost)

verify (e *el.election) try() (err)
  use election
  locks
  nopanic
  ensures leader only after a renewal: leads(e) ==> (renewed && old(e.state) == el.LeaderState)
  ensures a claim needs a renewal before it counts: e.state == el.LeaderState ==> (renewed || (created && e.notifyNext))
  ensures the claim is remembered: e.state == el.LeaderState ==> e.lastSeq == seq
  ensures a failed renewal ends the leadership: (updated && !renewed) ==> (e.state == el.CandidateState && err != nil)
  ensures a failed renewal is notified: (updated && !renewed && e.opts.lostCb != nil) ==> lost > 0
  ensures a leader always renews: old(e.state) == el.LeaderState ==> updated
  ensures a successful claim counts: created ==> e.state == el.LeaderState
  ensures a first renewal is notified: (renewed && old(e.notifyNext) && e.opts.wonCb != nil) ==> won > 0
  ensures a win is notified once: (renewed && !old(e.notifyNext)) ==> won == 0
  cover won: leads(e)
  cover claimed: created
  cover lost: updated && !renewed

verify (e *el.election) IsLeader() (l)
  requires e != nil
  locks
  ensures only confirmed claims: l == leads(e)

verify (e *el.election) Stop()
  requires e != nil && e.cancel != nil
  locks
  nopanic
  ensures stopping ends the leadership: old(e.started) ==> (!leads(e) && !e.started)

verify el.NewElection(name, key, bucket, opts) (e, err)
  ensures nobody starts out as leader: err == nil ==> !leads(e)

verify (e *el.election) Start(ctx) (err)
  requires e != nil && e.opts != nil
  locks
  oncall (*el.election).campaign(_, w): assert campaigns once: !old(e.started) && e.started
  ensures one campaign: old(e.started) ==> err != nil

# the shutdown of a campaign; everything it does before is covered by try
verify (e *el.election) campaign(wg) (err)
  requires e != nil && e.opts != nil && e.ctx != nil && e.cancel != nil
  requires distinct: (e.opts.wonCb == nil || e.opts.wonCb != e.opts.lostCb)
  locks
  ghost led bool
  ghost told bool
  oncall (*el.election).stop(x): set led = leads(e)
  oncall (*el.election).stop(x): set told = false
  oncall dynamic:*(f): set told = told || f == e.opts.lostCb
  ensures no leadership remains: err == nil ==> !leads(e)
  ensures a leader that shuts down is told: (led && e.opts.lostCb != nil) ==> told
  cover stopped: led
