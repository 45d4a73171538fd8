property P04
alias fag = github.com/choria-io/go-choria/filter/agents
alias fid = github.com/choria-io/go-choria/filter/identity
alias fcl = github.com/choria-io/go-choria/filter/classes
alias ffa = github.com/choria-io/go-choria/filter/facts
alias fco = github.com/choria-io/go-choria/filter/compound
alias disco = github.com/choria-io/go-choria/server/discovery
alias exprp = github.com/expr-lang/expr

pure (proto.ServerInfoSource).Classes (proto.ServerInfoSource).Facts (proto.ServerInfoSource).Identity (proto.ServerInfoSource).KnownAgents (proto.ServerInfoSource).DataFuncMap
pure (proto.Request).Filter (proto.Request).RequestID
# decided by P05
pure ffa.HasFactJSON
# compiling an expression is left to the expression library
pure fco.CompileExprQuery
pure fco.MatchExprProgram

def slashed(n) = prefix(n, "/") && suffix(n, "/")
def inner(n) = strings.TrimSuffix(strings.TrimPrefix(n, "/"), "/")
def rxm(p, s) = r0(regexp.MatchString(p, s))
def agentHit(n, a) = ite(slashed(n), rxm(inner(n), a), n == a)
def classHit(n, c) = ite(slashed(n), rxm(sprintf("(?i)%s", inner(n)), c), strings.ToLower(n) == c)
def identHit(n, i) = ite(slashed(n), rxm(inner(n), i) || i == inner(n), i == n)

verify fag.Match(needles, known) (ok)
  modular
  modifies nothing
  ensures all agents match: ok == (len(needles) > 0 && forall(i, 0, len(needles), exists(j, 0, len(known), agentHit(needles[i], known[j]))))
  cover matched: ok && len(needles) > 1

verify fcl.Match(needles, known) (ok)
  modular
  modifies nothing
  ensures all classes match: ok == (len(needles) > 0 && forall(i, 0, len(needles), exists(j, 0, len(known), classHit(needles[i], known[j]))))
  cover matched: ok && len(needles) > 1

verify fid.Match(filters, name) (ok)
  modular
  modifies nothing
  ensures some identity matches: ok == exists(i, 0, len(filters), identHit(filters[i], name))
  cover matched: ok && len(filters) > 1

def factOK(f, o, v, fs, log) = r1(ffa.HasFactJSON(f, o, v, fs, log)) == nil && r0(ffa.HasFactJSON(f, o, v, fs, log))

verify ffa.MatchFacts(filters, fs, log) (ok)
  modular
  modifies nothing
  ensures all facts match: ok == (len(filters) > 0 && forall(i, 0, len(filters), factOK(filters[i][0], filters[i][1], filters[i][2], fs, log)))
  cover matched: ok && len(filters) > 1

def queryOK(q, fs, cl, ag, df, log) = r1(fco.CompileExprQuery(q, df)) == nil && r1(fco.MatchExprProgram(r0(fco.CompileExprQuery(q, df)), fs, cl, ag, df, log)) == nil && r0(fco.MatchExprProgram(r0(fco.CompileExprQuery(q, df)), fs, cl, ag, df, log))

verify fco.MatchExprString(queries, fs, cl, ag, df, log) (ok)
  modular
  modifies nothing
  ensures all compound filters match: ok ==> (len(queries) > 0 && forall(i, 0, len(queries), len(queries[i]) == 1 && has(queries[i][0], "expr") && queryOK(queries[i][0]["expr"], fs, cl, ag, df, log)))
  cover matched: ok && len(queries) > 1

def F(r) = r0(r.Filter())
def isEmpty(f) = len(f.Fact) == 0 && len(f.Class) == 0 && len(f.Agent) == 0 && len(f.Identity) == 0 && len(f.Compound) == 0

verify (f *proto.Filter) MatchServerRequest(request, si, log) (ok)
  requires request != nil && si != nil && F(request) != nil
  ensures the identity matches: (ok && len(F(request).Identity) > 0) ==> exists(i, 0, len(F(request).Identity), identHit(F(request).Identity[i], si.Identity()))
  ensures every agent matches: ok ==> forall(i, 0, len(F(request).Agent), exists(j, 0, len(si.KnownAgents()), agentHit(F(request).Agent[i], si.KnownAgents()[j])))
  ensures every class matches: ok ==> forall(i, 0, len(F(request).Class), exists(j, 0, len(si.Classes()), classHit(F(request).Class[i], si.Classes()[j])))
  ensures every fact matches: ok ==> forall(i, 0, len(F(request).Fact), factOK(F(request).Fact[i].Fact, F(request).Fact[i].Operator, F(request).Fact[i].Value, si.Facts(), log))
  ensures every compound filter matches: ok ==> forall(i, 0, len(F(request).Compound), len(F(request).Compound[i]) == 1 && has(F(request).Compound[i][0], "expr") && queryOK(F(request).Compound[i][0]["expr"], si.Facts(), si.Classes(), si.KnownAgents(), r0(si.DataFuncMap()), log))
  ensures empty filters match: isEmpty(F(request)) ==> ok
  cover matched: ok && len(F(request).Identity) > 0 && len(F(request).Agent) > 0 && len(F(request).Class) > 0 && len(F(request).Fact) > 0 && len(F(request).Compound) > 0

# the request's own filter is matched against the node's own state
verify (mgr *disco.Manager) ShouldProcess(request) (ok)
  requires request != nil && mgr.si != nil && F(request) != nil && mgr.log != nil
  ghost hit bool
  ghost asked bool
  oncall (*proto.Filter).MatchServerRequest(f, q, si, l): assert the filter of the request is matched: f == F(request) && q == request
  oncall (*proto.Filter).MatchServerRequest(f, q, si, l): assert the state of this node is matched: si == mgr.si
  oncall (*proto.Filter).MatchServerRequest(f, q, si, l) (m): set hit = m
  oncall (*proto.Filter).MatchServerRequest(f, q, si, l) (m): set asked = true
  ensures only matching requests are processed: ok ==> (asked && hit)
  ensures matching requests are processed: (asked && hit) ==> ok
  cover matched: ok && len(F(request).Agent) > 0 && len(F(request).Class) > 0

# compound filters see the node's own facts, classes and agents
verify fco.MatchExprProgram(prog, fs, cl, ag, df, log) (ok, err)
  ghost res any
  ghost ran bool
  def envOf(env) = unbox(env, "map[string]any")
  oncall exprp.Run(p, env): assert the program given is run: p == prog
  oncall exprp.Run(p, env): assert facts are those of the node: str(unbox(envOf(env)["facts"], "json.RawMessage")) == str(fs)
  oncall exprp.Run(p, env): assert classes are those of the node: len(unbox(envOf(env)["classes"], "[]string")) == len(cl) && forall(i, 0, len(cl), unbox(envOf(env)["classes"], "[]string")[i] == cl[i])
  oncall exprp.Run(p, env): assert agents are those of the node: len(unbox(envOf(env)["agents"], "[]string")) == len(ag) && forall(i, 0, len(ag), unbox(envOf(env)["agents"], "[]string")[i] == ag[i])
  oncall exprp.Run(p, env) (r, e): set res = r
  oncall exprp.Run(p, env) (r, e): set ran = e == nil
  ensures only a true result matches: ok ==> (err == nil && ran && typeis(res, "bool") && unbox(res, "bool"))
  cover matched: ok

# what is matched is the filter in the request and the state of this server
alias v1 = github.com/choria-io/go-choria/protocol/v1
alias v2 = github.com/choria-io/go-choria/protocol/v2
alias server = github.com/choria-io/go-choria/server
alias sagents = github.com/choria-io/go-choria/server/agents

verify (r *v1.Request) Filter() (f, filtered)
  requires r != nil && r.Envelope != nil && r.Envelope.Filter != nil
  ensures the filter in the request: f == old(r.Envelope.Filter) && filtered == !isEmpty(f)

verify (r *v2.Request) Filter() (f, filtered)
  requires r != nil
  ensures the filter in the request: f != nil && (old(r.ReqEnvelope.Filter) != nil ==> f == old(r.ReqEnvelope.Filter)) && filtered == !isEmpty(f)

verify (r *v1.Request) SetFilter(f)
  requires r != nil && r.Envelope != nil
  ensures the filter given is sent: r.Envelope.Filter == f

verify (r *v2.Request) SetFilter(f)
  requires r != nil
  ensures the filter given is sent: r.ReqEnvelope.Filter == f

def kept(a, b) = len(a) >= len(b) && forall(i, 0, len(b), a[i] == b[i])

verify (f *proto.Filter) AddIdentityFilter(id)
  requires f != nil
  ensures the filter is added: exists(i, 0, len(f.Identity), f.Identity[i] == id)
  ensures earlier filters stay: kept(f.Identity, old(f.Identity)) && forall(i, len(old(f.Identity)), len(f.Identity), f.Identity[i] == id)

verify (f *proto.Filter) AddClassFilter(c)
  requires f != nil
  ensures the filter is added: exists(i, 0, len(f.Class), f.Class[i] == c)
  ensures earlier filters stay: kept(f.Class, old(f.Class)) && forall(i, len(old(f.Class)), len(f.Class), f.Class[i] == c)

verify (f *proto.Filter) AddAgentFilter(a)
  requires f != nil
  ensures the filter is added: a != "" ==> exists(i, 0, len(f.Agent), f.Agent[i] == a)
  ensures earlier filters stay: kept(f.Agent, old(f.Agent)) && forall(i, len(old(f.Agent)), len(f.Agent), f.Agent[i] == a)

verify (f *proto.Filter) AddFactFilter(fact, op, v) (err)
  requires f != nil
  ensures the filter is added: err == nil ==> (len(f.Fact) == old(len(f.Fact)) + 1 && f.Fact[len(f.Fact)-1].Fact == fact && f.Fact[len(f.Fact)-1].Operator == op && f.Fact[len(f.Fact)-1].Value == v)
  ensures only known operators: err == nil ==> in(op, ">=", "<=", "<", ">", "!=", "==", "=~")
  ensures all known operators: in(op, ">=", "<=", "<", ">", "!=", "==", "=~") ==> err == nil
  ensures earlier filters stay: len(f.Fact) >= old(len(f.Fact)) && forall(i, 0, old(len(f.Fact)), f.Fact[i].Fact == old(f.Fact[i].Fact) && f.Fact[i].Operator == old(f.Fact[i].Operator) && f.Fact[i].Value == old(f.Fact[i].Value))

verify (f *proto.Filter) AddCompoundFilter(q) (err)
  requires f != nil
  ensures the filter is added: (err == nil && q != "") ==> (len(f.Compound) == old(len(f.Compound)) + 1 && len(f.Compound[len(f.Compound)-1]) == 1 && f.Compound[len(f.Compound)-1][0]["expr"] == q)
  ensures filters are never refused: err == nil

verify (s *server.Instance) Identity() (i)
  requires s != nil && s.cfg != nil
  ensures the configured identity: i == s.cfg.Identity

pure (*sagents.Manager).KnownAgents
verify (s *server.Instance) KnownAgents() (a)
  requires s != nil && s.agents != nil
  ensures the agents of this server: len(a) == len(s.agents.KnownAgents()) && forall(i, 0, len(a), a[i] == s.agents.KnownAgents()[i])

verify (a *sagents.Manager) KnownAgents() (r)
  requires a != nil && a.mu != nil
  ensures only registered agents: forall(i, 0, len(r), has(a.agents, r[i]))
  ensures all registered agents: forall(k, "string", has(a.agents, k) ==> exists(i, 0, len(r), r[i] == k))
