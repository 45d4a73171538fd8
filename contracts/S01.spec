property S01
alias server = github.com/choria-io/go-choria/server
alias agents = github.com/choria-io/go-choria/server/agents
alias disc = github.com/choria-io/go-choria/server/discovery

pure (inter.ConnectorMessage).Data

verify (s *server.Instance).handleRawMessage(ctx, wg, replies, raw)
  requires s != nil && s.fw != nil && s.cfg != nil && s.log != nil && s.discovery != nil && s.agents != nil && raw != nil && wg != nil
  ghost tr any
  ghost sec any
  ghost req any
  ghost m any
  ghost decoded bool
  ghost envelope bool
  ghost opened bool
  ghost matched bool
  ghost made bool
  ghost fresh bool
  oncall (inter.Framework).NewTransportFromJSON(_, d) (t, err): assert the received bytes are decoded: str(d) == str(raw.Data())
  oncall (inter.Framework).NewTransportFromJSON(_, d) (t, err): set decoded = err == nil
  oncall (inter.Framework).NewTransportFromJSON(_, d) (t, err): set tr = t
  oncall (inter.Framework).NewSecureRequestFromTransport(_, t, skip) (q, err): assert the envelope is that of the decoded message: decoded && t == tr
  oncall (inter.Framework).NewSecureRequestFromTransport(_, t, skip) (q, err): assert validation is skipped only when verification is disabled: skip ==> s.cfg.DisableSecurityProviderVerify
  oncall (inter.Framework).NewSecureRequestFromTransport(_, t, skip) (q, err): set envelope = err == nil
  oncall (inter.Framework).NewSecureRequestFromTransport(_, t, skip) (q, err): set sec = q
  oncall (inter.Framework).NewRequestFromSecureRequest(_, q) (r, err): assert the request comes from the validated envelope: envelope && q == sec
  oncall (inter.Framework).NewRequestFromSecureRequest(_, q) (r, err): set opened = err == nil
  oncall (inter.Framework).NewRequestFromSecureRequest(_, q) (r, err): set req = r
  oncall (*disc.Manager).ShouldProcess(_, r) (ok): assert the filter of that request is matched: opened && r == req
  oncall (*disc.Manager).ShouldProcess(_, r) (ok): set matched = ok
  oncall (inter.Framework).NewMessageFromRequest(_, r, t) (x, err): assert the message is made from that request: opened && r == req
  oncall (inter.Framework).NewMessageFromRequest(_, r, t) (x, err): set made = err == nil
  oncall (inter.Framework).NewMessageFromRequest(_, r, t) (x, err): set m = x
  oncall (inter.Message).ValidateTTL(x) (ok): set fresh = ok && x == m && made
  oncall (*agents.Manager).Dispatch(_, _, _, _, x, r): assert decoded and validated: decoded && envelope && opened && r == req
  oncall (*agents.Manager).Dispatch(_, _, _, _, x, r): assert the filter matched: matched
  oncall (*agents.Manager).Dispatch(_, _, _, _, x, r): assert within its time to live: fresh && made && x == m
