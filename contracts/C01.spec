property C01
alias rpc = github.com/choria-io/go-choria/providers/agent/mcorpc/client
alias inter = github.com/choria-io/go-choria/inter
alias proto = github.com/choria-io/go-choria/protocol
alias ctxp = context

client rpc C01_client.go.src

# the list of nodes still waited for
def on(n, h) = has(n.hosts, h)

verify rpc.NewNodeList() (n)
  fresh n
  ensures a new list is empty: n != nil && n.hosts != nil && len(n.hosts) == 0 && forall(h, "string", !on(n, h))

verify (n *rpc.NodeList) AddHosts(hosts)
  requires n != nil && n.hosts != nil
  modifies n.hosts[*]
  ensures every given node is on the list: forall(i, 0, len(hosts), on(n, hosts[i]))
  ensures the others stay as they were: forall(h, "string", (on(n, h) && !old(on(n, h))) ==> exists(i, 0, len(hosts), hosts[i] == h)) && forall(h, "string", old(on(n, h)) ==> on(n, h))

verify (n *rpc.NodeList) Clear()
  requires n != nil
  ensures nothing is on the list: n.hosts != nil && forall(h, "string", !on(n, h))
  modifies n.hosts

verify (n *rpc.NodeList) DeleteIfKnown(h) (known)
  requires n != nil
  modifies n.hosts[*]
  ensures it was known: known == old(on(n, h))
  ensures it is gone: !on(n, h)
  ensures the others stay: forall(o, "string", o != h ==> on(n, o) == old(on(n, o)))

verify (n *rpc.NodeList) Have(h) (known)
  requires n != nil
  ensures known == on(n, h)
  modifies nothing

verify (n *rpc.NodeList) HaveAny(hosts) (any)
  requires n != nil
  ensures any == exists(i, 0, len(hosts), on(n, hosts[i]))
  modifies nothing

verify (n *rpc.NodeList) Hosts() (r)
  requires n != nil
  ensures only nodes of the list: forall(i, 0, len(r), on(n, r[i]))
  ensures all of them: forall(h, "string", on(n, h) ==> exists(i, 0, len(r), r[i] == h))
  modifies nothing

verify (n *rpc.NodeList) Count() (c)
  requires n != nil
  ensures zero only when nothing is on the list: (c == 0) == forall(h, "string", !on(n, h))
  modifies nothing

# the accounting of one request
def wf(s) = s != nil && s.mu != nil && s.outstandingNodes != nil && s.unexpectedRespones != nil && s.outstandingNodes != s.unexpectedRespones && s.outstandingNodes.hosts != nil && s.unexpectedRespones.hosts != nil && s.outstandingNodes.hosts != s.unexpectedRespones.hosts
def waiting(s, h) = on(s.outstandingNodes, h)
def unasked(s, h) = on(s.unexpectedRespones, h)

verify rpc.NewStats() (s)
  fresh s
  ensures nothing is waited for: wf(s) && forall(h, "string", !waiting(s, h) && !unasked(s, h)) && s.passed == 0 && s.failed == 0 && s.responses == 0

verify (s *rpc.Stats) SetDiscoveredNodes(nodes)
  requires wf(s)
  ensures exactly the given nodes are waited for: forall(i, 0, len(nodes), waiting(s, nodes[i])) && forall(h, "string", waiting(s, h) ==> exists(i, 0, len(nodes), nodes[i] == h))
  ensures wf(s)
  ensures len(s.discoveredNodes) == len(nodes) && forall(i, 0, len(nodes), s.discoveredNodes[i] == nodes[i])

verify (s *rpc.Stats) RecordReceived(h)
  requires wf(s)
  ensures a node that answered is no longer waited for: !waiting(s, h)
  ensures other nodes are still waited for: forall(o, "string", o != h ==> waiting(s, o) == old(waiting(s, o)))
  ensures an answer nobody asked for is noted: !old(waiting(s, h)) ==> unasked(s, h)
  ensures expected answers are not noted as unexpected: forall(o, "string", (unasked(s, o) && !old(unasked(s, o))) ==> (o == h && !old(waiting(s, h))))
  ensures wf(s)

verify (s *rpc.Stats) All() (all)
  requires wf(s)
  ensures complete only when no node is waited for: all == forall(h, "string", !waiting(s, h))

verify (s *rpc.Stats) WaitingFor(nodes) (w)
  requires wf(s)
  ensures w == exists(i, 0, len(nodes), waiting(s, nodes[i]))

verify (s *rpc.Stats) NoResponseFrom() (r)
  requires wf(s)
  ensures only nodes that did not answer: forall(i, 0, len(r), waiting(s, r[i]))
  ensures every node that did not answer: forall(h, "string", waiting(s, h) ==> exists(i, 0, len(r), r[i] == h))

verify (s *rpc.Stats) Merge(o) (err)
  requires wf(s) && wf(o) && s != o && s.outstandingNodes != o.outstandingNodes && s.unexpectedRespones != o.unexpectedRespones && s.outstandingNodes.hosts != o.outstandingNodes.hosts && s.outstandingNodes != o.unexpectedRespones && s.unexpectedRespones != o.outstandingNodes && s.unexpectedRespones.hosts != o.outstandingNodes.hosts && s.outstandingNodes.hosts != o.unexpectedRespones.hosts && s.unexpectedRespones.hosts != o.unexpectedRespones.hosts && s.mu != o.mu
  ensures answers in the batch are answers in the total: forall(i, 0, len(o.discoveredNodes), !old(waiting(o, o.discoveredNodes[i])) ==> !waiting(s, o.discoveredNodes[i]))
  ensures nodes outside the batch or without an answer remain waited for: forall(h, "string", (old(waiting(s, h)) && !waiting(s, h)) ==> exists(i, 0, len(o.discoveredNodes), o.discoveredNodes[i] == h && !old(waiting(o, h))))
  ensures unexpected answers of the batch are kept: forall(h, "string", old(unasked(o, h)) ==> unasked(s, h))


verify rpc.InGroups(set, size, f) (err)
  requires size > 0 && f != nil
  ghost n int
  ghost done int
  ghost last error
  oncall dynamic:*(_, nodes) (e): assert nothing follows a failure: last == nil
  oncall dynamic:*(_, nodes) (e): assert batches are never larger than asked: len(nodes) > 0 && len(nodes) <= size
  oncall dynamic:*(_, nodes) (e): assert batches are taken from the list without gap or overlap: done + len(nodes) <= len(set) && forall(i, 0, len(nodes), nodes[i] == set[done+i])
  oncall dynamic:*(_, nodes) (e): assert only the last batch is smaller: len(nodes) == size || done + len(nodes) == len(set)
  oncall dynamic:*(_, nodes) (e): set n = n + 1
  oncall dynamic:*(_, nodes) (e): set done = done + len(nodes)
  oncall dynamic:*(_, nodes) (e): set last = e
  ensures success means every node was in a batch: err == nil ==> done == len(set)
  keeps done <= len(set)
  keeps done == n*size || (done == len(set) && n*size >= len(set))
  ensures failures are reported: err == last

pure (inter.ConnectorMessage).Data (proto.Reply).SenderID (proto.Reply).Message

verify rpc.contractClientReply(r, ctx, cancel, stats, m) (done)
  requires r != nil && r.opts != nil && wf(stats) && cancel != nil && m != nil && ctx != nil && r.fw != nil && r.log != nil
  ghost handed int
  ghost valid bool
  ghost good bool
  ghost from string
  ghost sound bool
  oncall (inter.Framework).NewReplyFromTransportJSON(_, d, skip) (rep, e): assert replies are validated: !skip
  oncall (inter.Framework).NewReplyFromTransportJSON(_, d, skip) (rep, e): assert the reply is the message that was received: bytes(d) == bytes(m.Data())
  oncall (inter.Framework).NewReplyFromTransportJSON(_, d, skip) (rep, e): assume e == nil ==> rep != nil
  oncall (inter.Framework).NewReplyFromTransportJSON(_, d, skip) (rep, e): set valid = e == nil
  oncall (inter.Framework).NewReplyFromTransportJSON(_, d, skip) (rep, e): set from = ite(e == nil, rep.SenderID(), "")
  oncall rpc.ParseReply(rep) (rr, e): set sound = e == nil
  oncall rpc.ParseReply(rep) (rr, e): set good = e == nil && rr.Statuscode == 0
  oncall dynamic:*(_, rep, rr): assert only valid replies are handed to the user: valid && sound
  oncall dynamic:*(_): assert a request ends early only when every node has answered: valid && forall(h, "string", !waiting(stats, h))
  ensures a reply counts as passed exactly when it is valid and reports success: done ==> stats.passed == old(stats.passed) + ite(good, 1, 0)
  ensures every other reply counts as failed: done ==> stats.failed == old(stats.failed) + ite(good, 0, 1)
  ensures only valid replies end the wait for a node: !valid ==> forall(h, "string", waiting(stats, h) == old(waiting(stats, h)))
  ensures the wait for the node that replied ends: (done && valid && old(r.opts.RequestType) != "service_request") ==> !waiting(stats, from)
  ensures the wait for other nodes goes on: forall(h, "string", h != from ==> waiting(stats, h) == old(waiting(stats, h)))
  cover passed: done && good
  cover failed: done && !good && valid

verify (r *rpc.RPC) doBatchedRequest(ctx, msg, cl) (err)
  opaque (*rpc.Stats).Merge
  requires r != nil && r.opts != nil && r.opts.BatchSize > 0 && wf(r.opts.totalStats) && cl != nil && msg != nil && ctx != nil && r.fw != nil && r.log != nil
  ghost n int
  ghost done int
  ghost told bool
  keeps done <= old(len(r.opts.Targets))
  keeps done == n*old(r.opts.BatchSize) || (done == old(len(r.opts.Targets)) && n*old(r.opts.BatchSize) >= old(len(r.opts.Targets)))
  oncall (inter.Message).SetDiscoveredHosts(_, nodes): assert messages are addressed to the nodes that are next: len(nodes) <= old(r.opts.BatchSize) && forall(i, 0, len(nodes), nodes[i] == old(r.opts.Targets)[done+i])
  oncall (inter.Message).SetDiscoveredHosts(_, nodes): set done = done + len(nodes)
  oncall (inter.Message).SetDiscoveredHosts(_, nodes): set n = n + 1
  oncall (inter.Message).SetDiscoveredHosts(_, nodes): set told = true
  oncall (rpc.ChoriaClient).Request(c, _, m, h): assert every batch is sent to its nodes: told && c == cl && m == msg
  oncall (rpc.ChoriaClient).Request(c, _, m, h): set told = false
  oncall rpc.InGroups(set, size, f): maybe assert the batches are made of all targets: size == r.opts.BatchSize && len(set) == len(r.opts.Targets)
  ensures true

verify (o *rpc.RequestOptions) limitTargets(targets) (limited, err)
  requires o != nil
  nopanic
  ensures never more targets than there are: err == nil ==> len(limited) <= len(targets)
  ensures the targets are used as they are without a limit: (err == nil && o.LimitSize == "") ==> (len(limited) == len(targets) && forall(i, 0, len(limited), limited[i] == old(targets[i])))
  ensures only given targets are left: err == nil ==> forall(i, 0, len(limited), exists(j, 0, len(targets), limited[i] == old(targets[j])))
  ensures no target is selected twice: (err == nil && forall(i, 0, len(targets), forall(j, 0, i, old(targets[i]) != old(targets[j])))) ==> forall(i, 0, len(limited), forall(j, 0, i, limited[i] != limited[j]))
  ensures a limit leaves some: (err == nil && o.LimitSize != "") ==> len(limited) > 0
  ensures unknown methods are refused: !in(o.LimitMethod, "random", "first") ==> err != nil
  cover limited: err == nil && len(limited) < len(targets)

verify (o *rpc.RequestOptions) ConfigureMessage(msg) (err)
  requires o != nil && msg != nil && wf(o.totalStats)
  ghost filtered bool
  ghost sent bool
  oncall (inter.Message).SetFilter(_, f): set filtered = f == o.Filter
  oncall (inter.Message).SetDiscoveredHosts(_, l): assert service requests are not addressed to nodes: o.RequestType == "service_request" ==> len(l) == 0
  oncall (inter.Message).SetDiscoveredHosts(_, l): assert the message is addressed to selected nodes: o.RequestType != "service_request" ==> (len(l) == len(o.Targets) && forall(i, 0, len(l), l[i] == o.Targets[i]))
  ensures the filter is kept: (err == nil && in(old(o.RequestType), "request", "direct_request")) ==> filtered
  ensures the selected nodes are waited for: (err == nil && in(old(o.RequestType), "request", "direct_request")) ==> (forall(i, 0, len(o.Targets), waiting(o.totalStats, o.Targets[i])) && forall(h, "string", waiting(o.totalStats, h) ==> exists(i, 0, len(o.Targets), o.Targets[i] == h)))
  ensures only given targets are selected: (err == nil && old(len(o.Targets)) > 0) ==> (len(o.Targets) <= old(len(o.Targets)) && forall(i, 0, len(o.Targets), exists(j, 0, old(len(o.Targets)), o.Targets[i] == old(o.Targets[j]))))
  ensures service requests have no targets: (err == nil && old(o.RequestType) == "service_request") ==> old(len(o.Targets)) == 0
  ensures batches are for direct requests only: (err == nil && old(o.RequestType) == "request") ==> old(o.BatchSize) <= 0
