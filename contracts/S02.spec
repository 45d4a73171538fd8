property S02

verify (m *msg.Message).ValidateTTL() (ok)
  machine
  nopanic
  ensures not too old and not from the future: ok ==> (m.timeStamp > now - m.ttl*1000000000 && m.timeStamp < now + m.ttl*1000000000)
  ensures every current message is accepted: (0 < m.ttl && m.ttl <= 9223372036 && m.timeStamp > now - m.ttl*1000000000 && m.timeStamp < now + m.ttl*1000000000) ==> ok
  ensures message unchanged: m.ttl == old(m.ttl) && m.timeStamp == old(m.timeStamp)
  cover accepted: ok
  cover rejected: !ok

# the time and time to live judged are those of the request
alias v1 = github.com/choria-io/go-choria/protocol/v1
alias v2 = github.com/choria-io/go-choria/protocol/v2
alias inter = github.com/choria-io/go-choria/inter
alias proto = github.com/choria-io/go-choria/protocol

pure (proto.Request).TTL (proto.Request).Time

verify msg.NewMessageFromRequest(req, replyto, fw) (m, err)
  requires req != nil && fw != nil && fw.Configuration() != nil
  pure (inter.Framework).Configuration
  ensures the age and time to live of the request are kept: err == nil ==> (unbox(m, "*msg.Message").ttl == req.TTL() && unbox(m, "*msg.Message").timeStamp == req.Time())
  cover made: err == nil

verify (r *v1.Request) TTL() (t)
  requires r != nil && r.Envelope != nil
  ensures the time to live in the request: t == r.Envelope.TTL
verify (r *v2.Request) TTL() (t)
  requires r != nil
  ensures the time to live in the request: t == r.ReqEnvelope.TTL
verify (r *v1.Request) Time() (t)
  requires r != nil && r.Envelope != nil
  ensures the time in the request: t.UnixNano() == r.Envelope.Time*1000000000
verify (r *v2.Request) Time() (t)
  requires r != nil
  ensures the time in the request: t.UnixNano() == r.ReqEnvelope.Time
