property Q01
alias sub = github.com/choria-io/go-choria/submission
alias natsp = github.com/nats-io/nats.go
alias apip = github.com/nats-io/jsm.go/api
alias js = encoding/json
alias osp = os
alias bo = github.com/choria-io/go-choria/backoff
alias fp = path/filepath
alias fsp = io/fs

def complete(m) = m.Subject != "" && len(m.Payload) > 0 && m.Priority <= 4 && m.Sender != "" && m.TTL <= conv(2678400000000000, "time.Duration").Seconds()
def inAge(m) = now - m.Created <= conv(m.TTL, "int") * 1000000000

extern natsp.NewMsg(s) (m) frame
  fresh m
  ensures m != nil && m.Subject == s && m.Header != nil

verify (m *sub.Message) Validate() (err)
  machine
  modular
  modifies nothing
  ensures only complete messages: err == nil ==> complete(m)
  ensures only messages within their age: err == nil ==> inAge(m)
  ensures reserved headers are refused: err == nil ==> forall(k, "string", has(m.Headers, k) ==> !prefix(strings.ToLower(k), "choria") && !prefix(strings.ToLower(k), "nats"))
  cover valid: err == nil && has(m.Headers, "x")

verify (m *sub.Message) NatsMessage(pre, seed, token) (msg, err)
  ghost valid bool
  oncall (*sub.Message).Validate(x) (e): set valid = e == nil && x == m
  ensures only valid messages below their maximum tries: err == nil ==> (valid && m.Tries < m.MaxTries)
  ensures the message is the one submitted: err == nil ==> (msg != nil && msg.Subject == pre + m.Subject && str(msg.Data) == str(m.Payload))
  ensures messages that ask for a signature are signed or refused: (err == nil && m.Sign) ==> (seed != "")
  cover sent: err == nil && m.Sign

verify (s *sub.Spool) Run(ctx, wg, conn)
  opaque (*sub.Message).NatsMessage
  requires s != nil && s.store != nil && conn != nil && s.opts != nil
  ghost cur ref
  ghost rel bool
  ghost msg ref
  ghost ok bool
  ghost pending bool
  ghost open bool
  ghost sent bool
  ghost acked bool
  oncall callback:(sub.Store).StartPoll(ms): set pending = false
  oncall callback:(sub.Store).StartPoll(ms): set open = false
  oncall callback:(sub.Store).StartPoll(ms) (e): assert unreliable messages are never kept for another try: !open
  oncall (*sub.Message).NatsMessage(m, _, _, _): assert unreliable messages are never kept for another try: !open
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set cur = m
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set rel = m.Reliable
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set msg = x
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set ok = e == nil
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set sent = false
  oncall (*sub.Message).NatsMessage(m, _, _, _) (x, e): set acked = false
  oncall (inter.RawNATSConnector).PublishRawMsg(c, x): assert only valid messages are sent: ok && x == msg && !rel && !sent
  oncall (inter.RawNATSConnector).PublishRawMsg(c, x): set open = true
  oncall (inter.RawNATSConnector).PublishRawMsg(c, x): set sent = true
  oncall (inter.RawNATSConnector).RequestRawMsgWithContext(c, t, x): assert only valid reliable messages are sent with confirmation: ok && x == msg && rel && !sent
  oncall (inter.RawNATSConnector).RequestRawMsgWithContext(c, t, x): assert nothing reliable overtakes an undelivered message: !pending
  oncall (inter.RawNATSConnector).RequestRawMsgWithContext(c, t, x): set pending = true
  oncall (inter.RawNATSConnector).RequestRawMsgWithContext(c, t, x) (r, e): set sent = e == nil
  oncall js.Unmarshal(b, v) (e): set acked = sent && e == nil && unbox(v, "*apip.JSPubAckResponse").Error == nil
  oncall (sub.Store).Discard(_, m): assert the message at hand is discarded: m == cur
  oncall (sub.Store).Discard(_, m): assert reliable messages are kept until delivered or invalid: rel ==> (!ok || acked)
  oncall (sub.Store).Discard(_, m): assert unreliable messages are attempted first: (!rel && ok) ==> sent
  oncall (sub.Store).Discard(_, m): set open = false
  oncall (sub.Store).Discard(_, m): set pending = false

pure (*sub.DirectorySpool).entries (fsp.FileInfo).Name
pure (*osp.File).Name
extern js.Marshal(v) (b, e) frame
  ensures true
extern osp.WriteFile(p, b, m) (e) frame
  ensures true
extern osp.Remove(p) (e) frame
  ensures true
extern (*bo.Policy).Duration(n) (d) frame
  ensures true

verify (d *sub.DirectorySpool) readMessage(p) (m, err)
  modular
  modifies nothing
  fresh m
  ensures messages carry their path: err == nil ==> (m != nil && m.st == sub.Directory && typeis(m.sm, "string") && unbox(m.sm, "string") == p)

def pathOf(dir, e) = fp.Join(dir, e.Name())
def inDir(d, pr) = r0(d.entries(pr))
verify (d *sub.DirectorySpool) compactSkipList(skip, known)
  modular
  modifies skip[*]
  requires skip != nil
  ensures files that still exist stay skipped: forall(k, "string", (old(has(skip, k)) && has(known, k)) ==> has(skip, k))

verify (d *sub.DirectorySpool) removeCompletedWithSkip(path, skip)
  ghost gone bool
  requires skip != nil && d.log != nil
  oncall osp.Remove(p) (e): set gone = e == nil && p == path
  ensures finished messages are removed or skipped: path != "" ==> (gone || has(skip, path))
  ensures nothing else is skipped: forall(k, "string", k != path ==> has(skip, k) == old(has(skip, k)))

verify (d *sub.DirectorySpool) Discard(m) (err)
  ghost gone bool
  requires m != nil && d.log != nil && typeis(m.sm, "string") && d.skipList != nil && d.skipList[m.Priority] != nil
  oncall osp.Remove(p) (e): set gone = e == nil && p == unbox(m.sm, "string")
  ensures finished messages are removed or skipped: (err == nil && unbox(m.sm, "string") != "") ==> (gone || has(d.skipList[m.Priority], unbox(m.sm, "string")))
  cover done: err == nil && gone

verify (d *sub.DirectorySpool) IncrementTries(m) (err)
  ghost gone bool
  ghost saved bool
  requires m != nil && d.log != nil && m.st == sub.Directory && typeis(m.sm, "string") && unbox(m.sm, "string") != "" && d.skipList != nil && d.skipList[m.Priority] != nil && m.Tries >= 0
  oncall osp.Remove(p) (e): set gone = e == nil && p == unbox(m.sm, "string")
  oncall osp.WriteFile(p, b, _) (e): set saved = e == nil && p == unbox(m.sm, "string")
  ensures every attempt is counted: m.Tries == old(m.Tries) + 1
  ensures messages at their maximum tries are removed or skipped: (err == nil && m.Tries >= m.MaxTries) ==> (gone || has(d.skipList[m.Priority], unbox(m.sm, "string")))
  ensures other messages are saved with their tries removed or skipped: err == nil ==> (saved || gone || has(d.skipList[m.Priority], unbox(m.sm, "string")))

verify (d *sub.DirectorySpool) processDir(pr, dir, handler) (err)
  requires d.skipList != nil && d.skipList[pr] != nil && d.log != nil
  oncall (*sub.DirectorySpool).readMessage(x, p): assert skipped files are not read: !has(d.skipList[pr], p)
  oncall (*sub.DirectorySpool).compactSkipList(x, s, known): assert files that still exist stay skipped: forall(i, 0, len(inDir(d, pr)), has(known, pathOf(dir, inDir(d, pr)[i])))
  oncall dynamic:*(_, ms): assert only messages below their maximum tries: forall(i, 0, len(ms), ms[i].Tries < ms[i].MaxTries)
  oncall dynamic:*(_, ms): assert only messages that are due: forall(i, 0, len(ms), ms[i].Tries == 0 || ms[i].NextTry <= now)

verify (d *sub.DirectorySpool) Submit(m) (err)
  requires m != nil && d.log != nil
  ghost valid bool
  ghost written string
  ghost moved bool
  ghost data string
  oncall (*sub.Message).Validate(x) (e): set valid = e == nil && x == m
  oncall js.Marshal(x) (b, e): set data = ite(e == nil && unbox(x,"*sub.Message") == m, str(b), data)
  oncall osp.WriteFile(p, b, _) (e): set written = ite(e == nil && str(b) == data, p, "")
  oncall osp.Rename(a, b): assert only valid messages are spooled: valid
  oncall osp.Rename(a, b): assert complete files are spooled: a == written
  oncall osp.Rename(a, b) (e): set moved = e == nil && a == written
  ensures success means the message was spooled: err == nil ==> (valid && moved)
