property F01
alias fed = github.com/choria-io/go-choria/broker/federation
alias proto = github.com/choria-io/go-choria/protocol
alias v1 = github.com/choria-io/go-choria/protocol/v1
alias v2 = github.com/choria-io/go-choria/protocol/v2
alias inter = github.com/choria-io/go-choria/inter

client fed F01_client.go.src
client v1 F01_v1.go.src
client v2 F01_v2.go.src

# what the message said when it was received
pure (proto.TransportMessage).FederationRequestID (proto.TransportMessage).FederationTargets (proto.TransportMessage).FederationReplyTo (proto.TransportMessage).ReplyTo (inter.ConnectorMessage).Data

def isFed(m) = r1(m.FederationRequestID())
def id(m) = r0(m.FederationRequestID())
def targets(m) = r0(m.FederationTargets())
def same(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i])

verify fed.contractClientRequests(ctx, b, logger)
  requires b != nil && logger != nil && b.choria != nil && ctx != nil
  ghost msg any
  ghost kept bool
  ghost aimed bool
  ghost cleared bool
  oncall chan:recv:*chainmessage(ch, cm): set msg = cm.Message
  oncall chan:recv:*chainmessage(ch, cm): set kept = false
  oncall chan:recv:*chainmessage(ch, cm): set aimed = false
  oncall chan:recv:*chainmessage(ch, cm): set cleared = false
  oncall (proto.TransportMessage).FederationTargets(m): assert the targets are read before they are cleared: !cleared && m == msg
  oncall (proto.TransportMessage).ReplyTo(m): assert the reply address is read before it is replaced: !aimed && m == msg
  oncall (proto.TransportMessage).SetFederationTargets(m, t): assert the collective does not see other targets: m == msg && len(t) == 0
  oncall (proto.TransportMessage).SetFederationTargets(m, t): set cleared = true
  oncall (proto.TransportMessage).SetFederationReplyTo(m, r): assert the address of the requester is kept: m == msg && r == m.ReplyTo()
  oncall (proto.TransportMessage).SetFederationReplyTo(m, r): set kept = true
  oncall (proto.TransportMessage).SetReplyTo(m, r): assert replies come back through this federation broker: m == msg && r == "choria.federation." + b.Name + ".collective"
  oncall (proto.TransportMessage).SetReplyTo(m, r): set aimed = true
  oncall chan:send:*chainmessage(ch, cm): assert only federated requests with targets and a reply address are forwarded: isFed(cm.Message) && len(targets(cm.Message)) > 0 && cm.Message.ReplyTo() != ""
  oncall chan:send:*chainmessage(ch, cm): assert the request is the one that was received: cm.Message == msg && cm.RequestID == id(cm.Message)
  oncall chan:send:*chainmessage(ch, cm): assert the request goes to exactly the targets it lists: same(cm.Targets, targets(cm.Message))
  oncall chan:send:*chainmessage(ch, cm): assert the reply path is in place: kept && aimed && cleared
  ensures true

verify fed.contractClientReplies(ctx, b, logger)
  requires b != nil && logger != nil && b.choria != nil && ctx != nil
  ghost msg any
  ghost bare bool
  oncall chan:recv:*chainmessage(ch, cm): set msg = cm.Message
  oncall chan:recv:*chainmessage(ch, cm): set bare = false
  oncall (proto.TransportMessage).FederationReplyTo(m): assert the reply address is read before it is removed: !bare && m == msg
  oncall (proto.TransportMessage).SetUnfederated(m): set bare = m == msg
  oncall chan:send:*chainmessage(ch, cm): assert only federated replies are forwarded: isFed(cm.Message) && r0(cm.Message.FederationReplyTo()) != ""
  oncall chan:send:*chainmessage(ch, cm): assert the reply is the one that was received: cm.Message == msg && cm.RequestID == id(cm.Message)
  oncall chan:send:*chainmessage(ch, cm): assert the reply goes to the requester only: len(cm.Targets) == 1 && cm.Targets[0] == r0(cm.Message.FederationReplyTo())
  oncall chan:send:*chainmessage(ch, cm): assert the requester sees an ordinary reply: bare

verify fed.contractClientIngest(ctx, mode, b, logger)
  requires b != nil && logger != nil && b.choria != nil && ctx != nil
  ghost raw any
  ghost valid bool
  ghost msg any
  oncall chan:recv:*ConnectorMessage(ch, m): set raw = m
  oncall chan:recv:*ConnectorMessage(ch, m): set valid = false
  oncall (inter.Framework).NewTransportFromJSON(_, d) (m, e): assert what was received is what is parsed: bytes(d) == bytes(as(raw, "inter.ConnectorMessage").Data())
  oncall (inter.Framework).NewTransportFromJSON(_, d) (m, e): set valid = e == nil
  oncall (inter.Framework).NewTransportFromJSON(_, d) (m, e): set msg = m
  oncall (inter.Connector).ChanQueueSubscribe(_, n, subj, grp, c): assert requests are taken from the federation: mode == 1 ==> subj == "choria.federation." + b.Name + ".federation"
  oncall (inter.Connector).ChanQueueSubscribe(_, n, subj, grp, c): assert replies are taken from the collective: mode == 2 ==> subj == "choria.federation." + b.Name + ".collective"
  oncall chan:send:*chainmessage(ch, cm): assert only valid federated messages enter the federation: valid && cm.Message == msg && isFed(cm.Message) && cm.RequestID == id(cm.Message)

verify fed.contractClientEgest(ctx, mode, b, logger)
  requires b != nil && logger != nil && b.choria != nil && ctx != nil
  ghost body string
  ghost ready bool
  ghost msg any
  ghost to any
  ghost n int
  oncall chan:recv:*chainmessage(ch, cm): assert every target of the previous message was attempted: ready ==> n == len(unbox(to, "[]string"))
  oncall chan:recv:*chainmessage(ch, cm): set msg = cm.Message
  oncall chan:recv:*chainmessage(ch, cm): set to = box(cm.Targets)
  oncall chan:recv:*chainmessage(ch, cm): set n = 0
  oncall chan:recv:*chainmessage(ch, cm): set ready = false
  oncall (proto.TransportMessage).JSON(m) (j, e): assert only the received message is published: m == msg
  oncall (proto.TransportMessage).JSON(m) (j, e): set ready = e == nil
  oncall (proto.TransportMessage).JSON(m) (j, e): set body = bytes(j)
  oncall (inter.Connector).PublishRaw(_, t, d): assert only intact messages are published: ready && bytes(d) == body
  oncall (inter.Connector).PublishRaw(_, t, d): assert messages go to the targets they list only: n < len(unbox(to, "[]string")) && t == unbox(to, "[]string")[n]
  oncall (inter.Connector).PublishRaw(_, t, d): set n = n + 1

# ---- headers of messages

verify v1.contractClientToRequest(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && from.Headers != nil && to != nil
  requires from.Headers.Federation == nil || from.Headers.Federation != to.Envelope.federation
  ensures federated exactly when the source is: fed == (old(from.Headers.Federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.Headers.Federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.Headers.Federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.Headers.Federation.Targets))

verify v1.contractClientToReply(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && to != nil
  requires from.Envelope.federation == nil || from.Envelope.federation != to.Envelope.federation
  ensures federated exactly when the source is: fed == (old(from.Envelope.federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.Envelope.federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.Envelope.federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.Envelope.federation.Targets))

verify v1.contractClientToTransport(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && to != nil && to.Headers != nil
  requires from.Envelope.federation == nil || from.Envelope.federation != to.Headers.Federation
  ensures federated exactly when the source is: fed == (old(from.Envelope.federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.Envelope.federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.Envelope.federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.Envelope.federation.Targets))

verify v2.contractClientToRequest(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && from.Headers != nil && to != nil
  requires from.Headers.Federation == nil || from.Headers.Federation != to.ReqEnvelope.federation
  ensures federated exactly when the source is: fed == (old(from.Headers.Federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.Headers.Federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.Headers.Federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.Headers.Federation.Targets))

verify v2.contractClientToReply(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && to != nil
  requires from.ReqEnvelope.federation == nil || from.ReqEnvelope.federation != to.federation
  ensures federated exactly when the source is: fed == (old(from.ReqEnvelope.federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.ReqEnvelope.federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.ReqEnvelope.federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.ReqEnvelope.federation.Targets))

verify v2.contractClientToTransport(from, to) (fed, reply, hasReply, id, hasID, targets, hasTargets)
  requires from != nil && to != nil && to.Headers != nil
  requires from.ReqEnvelope.federation == nil || from.ReqEnvelope.federation != to.Headers.Federation
  ensures federated exactly when the source is: fed == (old(from.ReqEnvelope.federation) != nil) && hasReply == fed && hasID == fed && hasTargets == fed
  ensures the requester is told by the same address: fed ==> reply == old(from.ReqEnvelope.federation.ReplyTo)
  ensures the request is the same: fed ==> id == old(from.ReqEnvelope.federation.RequestID)
  ensures the targets are the same: fed ==> same(targets, old(from.ReqEnvelope.federation.Targets))

verify (m *v1.TransportMessage) SetReplyTo(r)
  requires m != nil && m.Headers != nil
  ensures only the reply address changes: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers == old(m.Headers) && m.Headers.ReplyTo == r && m.Headers.Federation == old(m.Headers.Federation)

verify (m *v1.TransportMessage) ReplyTo() (r)
  requires m != nil && m.Headers != nil
  ensures r == m.Headers.ReplyTo

verify (m *v1.TransportMessage) SetFederationReplyTo(r)
  requires m != nil && m.Headers != nil
  ensures the reply address of the requester is kept: m.Headers.Federation != nil && m.Headers.Federation.ReplyTo == r
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> m.Headers.Federation.RequestID == old(m.Headers.Federation.RequestID) && same(m.Headers.Federation.Targets, old(m.Headers.Federation.Targets)))

verify (m *v1.TransportMessage) SetFederationTargets(t)
  requires m != nil && m.Headers != nil
  ensures the targets are as asked: m.Headers.Federation != nil && same(m.Headers.Federation.Targets, t)
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> m.Headers.Federation.RequestID == old(m.Headers.Federation.RequestID) && m.Headers.Federation.ReplyTo == old(m.Headers.Federation.ReplyTo))

verify (m *v1.TransportMessage) SetFederationRequestID(id)
  requires m != nil && m.Headers != nil
  ensures the request id is as asked: m.Headers.Federation != nil && m.Headers.Federation.RequestID == id
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> same(m.Headers.Federation.Targets, old(m.Headers.Federation.Targets)) && m.Headers.Federation.ReplyTo == old(m.Headers.Federation.ReplyTo))

verify (m *v1.TransportMessage) SetUnfederated()
  requires m != nil && m.Headers != nil
  ensures the message is not federated: m.Headers.Federation == nil && same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo)

verify (m *v1.TransportMessage) FederationRequestID() (id, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> id == m.Headers.Federation.RequestID)

verify (m *v1.TransportMessage) FederationReplyTo() (r, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> r == m.Headers.Federation.ReplyTo)

verify (m *v1.TransportMessage) FederationTargets() (t, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> same(t, m.Headers.Federation.Targets))

verify (m *v1.TransportMessage) RecordNetworkHop(a, b, c)
  requires m != nil && m.Headers != nil
  ensures the content and the addresses stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && m.Headers.Federation == old(m.Headers.Federation)
  ensures the hop is added at the end: len(m.Headers.SeenBy) == len(old(m.Headers.SeenBy)) + 1

verify (m *v2.TransportMessage) SetReplyTo(r)
  requires m != nil && m.Headers != nil
  ensures only the reply address changes: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers == old(m.Headers) && m.Headers.ReplyTo == r && m.Headers.Federation == old(m.Headers.Federation)

verify (m *v2.TransportMessage) ReplyTo() (r)
  requires m != nil && m.Headers != nil
  ensures r == m.Headers.ReplyTo

verify (m *v2.TransportMessage) SetFederationReplyTo(r)
  requires m != nil && m.Headers != nil
  ensures the reply address of the requester is kept: m.Headers.Federation != nil && m.Headers.Federation.ReplyTo == r
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> m.Headers.Federation.RequestID == old(m.Headers.Federation.RequestID) && same(m.Headers.Federation.Targets, old(m.Headers.Federation.Targets)))

verify (m *v2.TransportMessage) SetFederationTargets(t)
  requires m != nil && m.Headers != nil
  ensures the targets are as asked: m.Headers.Federation != nil && same(m.Headers.Federation.Targets, t)
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> m.Headers.Federation.RequestID == old(m.Headers.Federation.RequestID) && m.Headers.Federation.ReplyTo == old(m.Headers.Federation.ReplyTo))

verify (m *v2.TransportMessage) SetFederationRequestID(id)
  requires m != nil && m.Headers != nil
  ensures the request id is as asked: m.Headers.Federation != nil && m.Headers.Federation.RequestID == id
  ensures the rest of the headers stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && (old(m.Headers.Federation) != nil ==> same(m.Headers.Federation.Targets, old(m.Headers.Federation.Targets)) && m.Headers.Federation.ReplyTo == old(m.Headers.Federation.ReplyTo))

verify (m *v2.TransportMessage) SetUnfederated()
  requires m != nil && m.Headers != nil
  ensures the message is not federated: m.Headers.Federation == nil && same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo)

verify (m *v2.TransportMessage) FederationRequestID() (id, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> id == m.Headers.Federation.RequestID)

verify (m *v2.TransportMessage) FederationReplyTo() (r, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> r == m.Headers.Federation.ReplyTo)

verify (m *v2.TransportMessage) FederationTargets() (t, ok)
  requires m != nil && m.Headers != nil
  ensures ok == (m.Headers.Federation != nil) && (ok ==> same(t, m.Headers.Federation.Targets))

verify (m *v2.TransportMessage) RecordNetworkHop(a, b, c)
  requires m != nil && m.Headers != nil
  ensures the content and the addresses stay: same(m.Data, old(m.Data)) && m.Protocol == old(m.Protocol) && m.Headers.ReplyTo == old(m.Headers.ReplyTo) && m.Headers.Federation == old(m.Headers.Federation)
  ensures the hop is added at the end: len(m.Headers.SeenBy) == len(old(m.Headers.SeenBy)) + 1


# ---- the headers travel with the request to its reply
alias choria = github.com/choria-io/go-choria/choria
alias message = github.com/choria-io/go-choria/message
alias server = github.com/choria-io/go-choria/server
alias agents = github.com/choria-io/go-choria/server/agents
alias disc = github.com/choria-io/go-choria/server/discovery

verify proto.CopyFederationData(from, to)
  requires from != nil && to != nil
  pure (proto.Federable).IsFederated (proto.Federable).FederationReplyTo (proto.Federable).FederationRequestID (proto.Federable).FederationTargets (proto.Federable).NetworkHops
  ghost n int
  oncall (proto.Federable).SetUnfederated(m): assert messages that are federated stay that way: m == to && !from.IsFederated()
  oncall (proto.Federable).SetFederationReplyTo(m, r): assert the requester keeps its address: m == to && r == r0(from.FederationReplyTo())
  oncall (proto.Federable).SetFederationRequestID(m, r): assert the request keeps its id: m == to && r == r0(from.FederationRequestID())
  oncall (proto.Federable).SetFederationTargets(m, t): assert the targets stay: m == to && same(t, r0(from.FederationTargets()))
  oncall (proto.Federable).RecordNetworkHop(m, a, b, c): assert the path is copied in order: m == to && a == from.NetworkHops()[n][0] && b == from.NetworkHops()[n][1] && c == from.NetworkHops()[n][2]
  oncall (proto.Federable).RecordNetworkHop(m, a, b, c): set n = n + 1
  ensures the whole path is copied: from.IsFederated() ==> n == len(from.NetworkHops())

group received
  ghost tr any
  ghost req any
  ghost copied bool
  opaque proto.CopyFederationData (*choria.Framework).NewTransportFromJSON (*choria.Framework).NewSecureRequestFromTransport (*choria.Framework).NewSecureReplyFromTransport (*choria.Framework).NewRequestFromSecureRequest (*choria.Framework).NewReplyFromSecureReply
  oncall (*choria.Framework).NewTransportFromJSON(_, d) (t, e): set tr = t
  oncall proto.CopyFederationData(a, b): set copied = a == tr && b == req

verify (fw *choria.Framework) NewRequestMessageFromTransportJSON(payload) (m, err)
  use received
  oncall (*choria.Framework).NewRequestFromSecureRequest(_, q) (r, e): set req = r
  oncall message.NewMessageFromRequest(r, t, f) (m, e): assert the request and its reply address are those received: copied && r == req && t == as(tr, "proto.TransportMessage").ReplyTo()
  opaque message.NewMessageFromRequest
  ensures true

verify (fw *choria.Framework) NewRequestFromTransportJSON(payload, skipvalidate) (r, err)
  use received
  oncall (*choria.Framework).NewRequestFromSecureRequest(_, q) (r, e): set req = r
  ensures the federation headers are those received: err == nil ==> (copied && r == req)
  cover made: err == nil

verify (fw *choria.Framework) NewReplyFromTransportJSON(payload, skipvalidate) (r, err)
  use received
  oncall (*choria.Framework).NewReplyFromSecureReply(_, q) (r, e): set req = r
  ensures the federation headers are those received: err == nil ==> (copied && r == req)
  cover made: err == nil

verify (fw *choria.Framework) NewReplyTransportForMessage(msg, request) (t, err)
  requires msg != nil && request != nil
  opaque proto.CopyFederationData (*choria.Framework).NewReply (*choria.Framework).NewSecureReply (*choria.Framework).NewTransportForSecureReply
  ghost tr any
  ghost copied bool
  oncall (*choria.Framework).NewTransportForSecureReply(_, s) (x, e): set tr = x
  oncall proto.CopyFederationData(a, b): set copied = a == request && b == tr
  ensures the reply is federated like its request: err == nil ==> (copied && t == tr)
  cover made: err == nil

verify v1.NewReply(request, certname) (rep, err)
  requires request != nil
  opaque proto.CopyFederationData
  ghost to any
  ghost copied bool
  oncall proto.CopyFederationData(a, b): set copied = a == request
  oncall proto.CopyFederationData(a, b): set to = b
  ensures the reply is federated like its request: err == nil ==> (copied && rep == to)
  cover made: err == nil

verify v2.NewReply(request, sender) (rep, err)
  requires request != nil
  opaque proto.CopyFederationData
  ghost to any
  ghost copied bool
  oncall proto.CopyFederationData(a, b): set copied = a == request
  oncall proto.CopyFederationData(a, b): set to = b
  ensures the reply is federated like its request: err == nil ==> (copied && rep == to)
  cover made: err == nil

verify (s *server.Instance).handleRawMessage(ctx, wg, replies, raw)
  requires s != nil && s.fw != nil && s.cfg != nil && s.log != nil && s.discovery != nil && s.agents != nil && raw != nil && wg != nil
  opaque proto.CopyFederationData
  ghost tr any
  ghost copied any
  oncall (inter.Framework).NewTransportFromJSON(_, d) (t, e): set tr = t
  oncall proto.CopyFederationData(a, b): set copied = ite(a == tr, b, nil)
  oncall (*disc.Manager).ShouldProcess(_, r): assert the request is federated like the received message: r == copied
  oncall (inter.Framework).NewMessageFromRequest(_, r, t) (x, e): assert the reply goes to the address in the message: r == copied && t == as(tr, "proto.TransportMessage").ReplyTo()
  oncall (*agents.Manager).Dispatch(_, _, _, _, x, r): assert the agent replies to that request: r == copied

def v1hdr(m) = typeis(m, "*v1.TransportMessage") && unbox(m, "*v1.TransportMessage") != nil && unbox(m, "*v1.TransportMessage").Headers != nil
def v2hdr(m) = typeis(m, "*v2.TransportMessage") && unbox(m, "*v2.TransportMessage") != nil && unbox(m, "*v2.TransportMessage").Headers != nil

verify v1.NewTransportFromJSON(data) (m, err)
  ensures a decoded message always has headers: err == nil ==> v1hdr(m)
  cover decoded: err == nil

verify v2.NewTransportFromJSON(data) (m, err)
  ensures a decoded message always has headers: err == nil ==> v2hdr(m)
  cover decoded: err == nil
