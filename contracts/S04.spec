property S04
alias agents = github.com/choria-io/go-choria/server/agents

alias ctxp = context
extern ctxp.WithTimeout(c, t) (r, f) frame
  ensures r != nil && f != nil
pure (agents.Agent).Metadata (inter.Message).Agent

def denied(a, n) = exists(i, 0, len(a.denylist), a.denylist[i] == n)
def valid(g) = g.Metadata().Timeout >= 1 && g.Metadata().Name != ""

verify (a *agents.Manager).RegisterAgent(ctx, name, agent, conn) (err)
  requires a != nil && a.mu != nil && a.log != nil && a.fw != nil && agent != nil && conn != nil && agent.Metadata() != nil && a.agents != nil && a.subs != nil
  ghost activates bool
  ghost failed bool
  oncall (agents.Agent).ShouldActivate(g) (ok): set activates = ok && g == agent
  oncall (inter.AgentConnector).QueueSubscribe(_) (e): set failed = failed || e != nil
  ensures only valid agents are added: (has(a.agents, name) && !old(has(a.agents, name))) ==> (valid(agent) && name != "")
  ensures only agents that activate are added: (has(a.agents, name) && !old(has(a.agents, name))) ==> activates
  ensures denied agents are not added: (has(a.agents, name) && !old(has(a.agents, name))) ==> !denied(a, name)
  ensures only service agents on a service host: (has(a.agents, name) && !old(has(a.agents, name)) && a.servicesOnly) ==> agent.Metadata().Service
  ensures only fully subscribed agents are added: (has(a.agents, name) && !old(has(a.agents, name))) ==> (!failed && err == nil)
  ensures the agent given is the one added: (has(a.agents, name) && !old(has(a.agents, name))) ==> a.agents[name] == agent
  ensures a known agent is never replaced: old(has(a.agents, name)) ==> (has(a.agents, name) && a.agents[name] == old(a.agents[name]))
  ensures a failed registration adds no agent: err != nil ==> has(a.agents, name) == old(has(a.agents, name))
  ensures a failed registration can be repeated: (err != nil && !old(has(a.subs, name))) ==> !has(a.subs, name)
  ensures other agents are left alone: forall(k, "string", k != name ==> (has(a.agents, k) == old(has(a.agents, k)) && a.agents[k] == old(a.agents[k]) && has(a.subs, k) == old(has(a.subs, k))))
  locks
  cover added: has(a.agents, name) && !old(has(a.agents, name))
  cover failed subscription: failed && err != nil

verify (a *agents.Manager).ReplaceAgent(name, agent) (err)
  requires a != nil && a.mu != nil && a.log != nil && agent != nil && agent.Metadata() != nil && a.agents != nil
  requires forall(k, "string", has(a.agents, k) ==> (a.agents[k] != nil && a.agents[k].Metadata() != nil))
  ghost activates bool
  oncall (agents.Agent).ShouldActivate(g) (ok): set activates = ok && g == agent
  ensures only known agents are replaced: err == nil ==> old(has(a.agents, name))
  ensures only by valid agents that activate: err == nil ==> (activates && valid(agent))
  ensures service agents stay service agents: err == nil ==> old(a.agents[name]).Metadata().Service == agent.Metadata().Service
  ensures a failed replacement changes nothing: err != nil ==> (has(a.agents, name) == old(has(a.agents, name)) && a.agents[name] == old(a.agents[name]))
  ensures replaced by the agent given: err == nil ==> (has(a.agents, name) && a.agents[name] == agent)
  locks
  cover replaced: err == nil

verify (a *agents.Manager).UnregisterAgent(name, conn) (err)
  requires a != nil && a.mu != nil && a.log != nil && conn != nil && a.agents != nil && a.subs != nil
  ensures nothing is left behind: err == nil ==> (!has(a.agents, name) && !has(a.subs, name))
  ensures unknown agents are refused: !old(has(a.agents, name)) ==> err != nil
  ensures a failure changes nothing: err != nil ==> has(a.agents, name) == old(has(a.agents, name))
  locks
  cover removed: err == nil

verify (a *agents.Manager).Dispatch(ctx, wg, replies, m, request)
  requires a != nil && a.mu != nil && a.log != nil && wg != nil && m != nil && request != nil && ctx != nil
  requires forall(k, "string", has(a.agents, k) ==> (a.agents[k] != nil && a.agents[k].Metadata() != nil))
  oncall (agents.Agent).HandleMessage(g, _, x, q): assert only the registered agent named in the message is given the message: has(a.agents, m.Agent()) && g == a.agents[m.Agent()]
  oncall (agents.Agent).HandleMessage(g, _, x, q): assert the agent gets the message and request it was dispatched: x == m && q == request
  nopanic
