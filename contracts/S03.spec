property S03
alias choria = github.com/choria-io/go-choria/choria
alias nats = github.com/nats-io/nats.go

pure (inter.Framework).HasCollective (inter.Framework).Configuration (inter.Framework).IsFederated (inter.Framework).FederationCollectives
pure (inter.Message).Type (inter.Message).Collective (inter.Message).Agent (inter.Message).ReplyTo (inter.Message).CustomTarget (inter.Message).DiscoveredHosts (inter.Message).RequestID

def known(t) = in(t, "message", "request", "direct_request", "service_request", "reply")
def isRequest(t) = in(t, "request", "direct_request", "service_request")

verify (m *msg.Message).SetType(t) (err)
  requires m.filter != nil
  ensures only known types: err == nil ==> known(t)
  ensures the type is set: err == nil ==> m.msgType == t
  ensures direct requests need discovered hosts: (err == nil && t == "direct_request") ==> len(m.discoveredHosts) > 0
  ensures service requests are never directed: (err == nil && t == "service_request") ==> len(m.discoveredHosts) == 0
  ensures a failure changes nothing: err != nil ==> (m.msgType == old(m.msgType) && m.filter == old(m.filter))
  ensures a failure leaves the filter alone: err != nil ==> (len(m.filter.Agent) == old(len(m.filter.Agent)) && forall(i, 0, len(m.filter.Agent), m.filter.Agent[i] == old(m.filter.Agent[i])))
  ensures nothing else changes: m.collective == old(m.collective) && m.replyTo == old(m.replyTo) && m.agent == old(m.agent) && m.customTarget == old(m.customTarget) && len(m.discoveredHosts) == old(len(m.discoveredHosts))
  cover direct: err == nil && t == "direct_request"
  cover refused: err != nil

verify (m *msg.Message).SetCollective(c) (err)
  requires m.choria != nil
  ensures only collectives the node belongs to: err == nil ==> m.choria.HasCollective(c)
  ensures the collective is set: err == nil ==> m.collective == c
  ensures a failure changes nothing: err != nil ==> m.collective == old(m.collective)
  ensures known collectives are accepted: m.choria.HasCollective(c) ==> err == nil

verify (m *msg.Message).SetReplyTo(r) (err)
  ensures only requests have a custom reply target: err == nil ==> isRequest(m.msgType)
  ensures the target is set: err == nil ==> m.replyTo == r
  ensures a failure changes nothing: err != nil ==> m.replyTo == old(m.replyTo)

verify (m *msg.Message).Validate() (ok, err)
  requires m.choria != nil
  ensures valid messages have an agent and a known collective: ok ==> (m.agent != "" && m.collective != "" && m.choria.HasCollective(m.collective))
  ensures result and error agree: ok == (err == nil)

verify msg.NewMessage(payload, agent, collective, typ, request, fw) (m, err)
  requires fw != nil && fw.Configuration() != nil
  ensures messages have a known type: err == nil ==> known(unbox(m, "*msg.Message").msgType)
  ensures messages have a collective the node belongs to: err == nil ==> fw.HasCollective(unbox(m, "*msg.Message").collective)
  ensures messages have an agent: err == nil ==> unbox(m, "*msg.Message").agent != ""
  ensures a reply to a request goes where the request says: (err == nil && request != nil) ==> (unbox(m, "*msg.Message").replyTo == request.ReplyTo() && unbox(m, "*msg.Message").agent == request.Agent() && unbox(m, "*msg.Message").collective == request.Collective() && unbox(m, "*msg.Message").msgType == "reply")
  ensures other messages target what was asked: (err == nil && request == nil) ==> (unbox(m, "*msg.Message").agent == agent && unbox(m, "*msg.Message").collective == collective && unbox(m, "*msg.Message").msgType == typ && unbox(m, "*msg.Message").replyTo == "")
  cover made: err == nil && request == nil
  cover reply: err == nil && request != nil

alias protocolp = github.com/choria-io/go-choria/protocol
pure (protocolp.Request).Agent (protocolp.Request).Collective (protocolp.Request).RequestID (protocolp.Request).Message (protocolp.Request).TTL (protocolp.Request).Time

verify msg.NewMessageFromRequest(req, replyto, fw) (m, err)
  requires req != nil && fw != nil && fw.Configuration() != nil
  ensures a reply is sent to the reply subject of the request: err == nil ==> (unbox(m, "*msg.Message").msgType == "reply" && unbox(m, "*msg.Message").replyTo == replyto)
  ensures a reply stays in the collective of the request: err == nil ==> (unbox(m, "*msg.Message").collective == req.Collective() && fw.HasCollective(req.Collective()))
  ensures a reply carries the identifiers of the request: err == nil ==> (unbox(m, "*msg.Message").requestID == req.RequestID() && unbox(m, "*msg.Message").agent == req.Agent() && unbox(m, "*msg.Message").ttl == req.TTL() && unbox(m, "*msg.Message").timeStamp == req.Time())
  cover made: err == nil

verify (m *msg.Message).Transport(ctx) (t, err)
  requires m.choria != nil && m.choria.Configuration() != nil && m.choria.Configuration().Choria != nil
  requires m.filter != nil
  def unfiltered() = len(m.filter.Fact) == 0 && len(m.filter.Class) == 0 && len(m.filter.Identity) == 0 && len(m.filter.Compound) == 0 && (len(m.filter.Agent) == 0 || (m.agent == "discovery" && len(m.filter.Agent) == 1))
  oncall (inter.Framework).NewRequestTransportForMessage(_, _, x, v): assert requests need a reply target: m.replyTo != ""
  oncall (inter.Framework).NewRequestTransportForMessage(_, _, x, v): assert requests need a known protocol version: v == m.protoVersion && v != "" && v != protocolp.Unknown
  oncall (inter.Framework).NewRequestTransportForMessage(_, _, x, v): assert unfiltered requests are refused when filters are required: m.choria.Configuration().Choria.RequireClientFilter ==> !unfiltered()
  oncall (inter.Framework).NewRequestTransportForMessage(_, _, x, v): assert only requests: isRequest(m.msgType)
  oncall (inter.Framework).NewRequestTransportForMessage(_, _, x, v): assert of this message: x == m
  oncall (inter.Framework).NewReplyTransportForMessage(_, x, q): assert replies need their request: m.msgType == "reply" && m.req != nil && q == m.req && x == m
  oncall (protocolp.TransportMessage).SetReplyTo(_, r): assert replies are sent to the reply target of the message: r == m.replyTo
  ghost told bool
  oncall (protocolp.TransportMessage).SetReplyTo(_, r): set told = true
  ensures a new request transport carries its reply target: (err == nil && isRequest(old(m.msgType)) && old(m.cachedTransport == nil || !m.shouldCacheTransport)) ==> told
  locks

def target(m, host, s) = ite(m.CustomTarget() != "", s == m.CustomTarget(), ite(m.Type() == "reply", s == m.ReplyTo() && s != "", ite(m.Type() == "request", s == sprintf("%s.broadcast.agent.%s", m.Collective(), m.Agent()), ite(m.Type() == "service_request", s == sprintf("%s.broadcast.service.%s", m.Collective(), m.Agent()), m.Type() == "direct_request" && s == sprintf("%s.node.%s", m.Collective(), host)))))

verify choria.TargetForMessage(m, identity) (t, err)
  requires m != nil
  ensures the subject follows from the type: err == nil ==> target(m, identity, t)
  ensures unknown types have no subject: (m.CustomTarget() == "" && !in(m.Type(), "reply", "request", "direct_request", "service_request")) ==> err != nil

verify (c *choria.Connection).Publish(m) (err)
  requires m != nil && c.fw != nil && c.config != nil && c.nats != nil && c.log != nil
  def direct(t) = m.Type() == "direct_request" && prefix(t, m.Collective() + ".node.")
  def federated(t) = prefix(t, "choria.federation.") && suffix(t, ".federation")
  oncall (*nats.Conn).Publish(_, t, d): assert custom targets are used as given: m.CustomTarget() != "" ==> t == m.CustomTarget()
  oncall (*nats.Conn).Publish(_, t, d): assert replies go to the reply target or a federation: (m.CustomTarget() == "" && m.Type() == "reply") ==> (federated(t) || t == m.ReplyTo())
  oncall (*nats.Conn).Publish(_, t, d): assert broadcasts go to the agent in the collective or a federation: (m.CustomTarget() == "" && m.Type() == "request") ==> (federated(t) || t == sprintf("%s.broadcast.agent.%s", m.Collective(), m.Agent()))
  oncall (*nats.Conn).Publish(_, t, d): assert service requests go to the service in the collective or a federation: (m.CustomTarget() == "" && m.Type() == "service_request") ==> (federated(t) || t == sprintf("%s.broadcast.service.%s", m.Collective(), m.Agent()))
  oncall (*nats.Conn).Publish(_, t, d): assert directed requests go to nodes in the collective or a federation: (m.CustomTarget() == "" && m.Type() == "direct_request") ==> (federated(t) || direct(t))
  oncall (protocolp.TransportMessage).SetFederationTargets(_, ts): maybe assert federated messages keep their target: m.Type() != "direct_request" ==> (len(ts) == 1 && target(m, "", ts[0]))
