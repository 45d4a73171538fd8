property R01
alias mc = github.com/choria-io/go-choria/providers/agent/mcorpc
alias opap = github.com/choria-io/go-choria/opa
alias cfgp = github.com/choria-io/go-choria/config
alias agents = github.com/choria-io/go-choria/server/agents
alias tokens = github.com/choria-io/tokens

pure (proto.Request).CallerID (proto.Request).RequestID (proto.Request).SenderID (proto.Request).Collective (proto.Request).CallerPublicData (proto.Request).SignerPublicData (proto.Request).TTL (proto.Request).Time (proto.Request).Filter
pure (inter.Message).Payload (inter.Message).RequestID

# the authorizers change neither the request nor the configuration
extern mc.actionPolicyAuthorize(q, c, l) (a) frame
  ensures true
extern mc.regoPolicyAuthorize(q, f, s, c, l) (a, e) frame
  ensures true
extern mc.aaasvcPolicyAuthorize(q, c, l) (a, e) frame
  ensures true

alias auditp = github.com/choria-io/go-choria/providers/agent/mcorpc/audit
# nor does the auditor
extern auditp.Request(r, a, b, d, c) (ok) frame
  ensures true

verify (a *mc.Agent) HandleMessage(ctx, m, request, conn, outbox)
  requires a.meta != nil && a.Config != nil && request != nil && m != nil
  ghost parsed bool
  ghost treq ref
  ghost allowed bool
  ghost areq ref
  ghost acfg ref
  ghost ran int
  oncall encoding/json.Unmarshal(d, v) (e): set parsed = ite(typeis(v, "*mc.Request"), e == nil && str(d) == str(m.Payload()), parsed)
  oncall encoding/json.Unmarshal(d, v) (e): set treq = ite(typeis(v, "*mc.Request"), unbox(v, "*mc.Request"), treq)
  oncall mc.AuthorizeRequest(fw, q, c, si, l) (ok): set allowed = ok
  oncall mc.AuthorizeRequest(fw, q, c, si, l) (ok): set areq = q
  oncall mc.AuthorizeRequest(fw, q, c, si, l) (ok): set acfg = c
  oncall dynamic:*(f, _, q, rep, ag, _): assert only requests that parsed: parsed && q == treq
  oncall dynamic:*(f, _, q, rep, ag, _): assert only authorized requests: a.Config.RPCAuthorization ==> (allowed && areq == q && acfg == a.Config)
  oncall dynamic:*(f, _, q, rep, ag, _): assert authorized requests are for this agent: a.Config.RPCAuthorization ==> q.Agent == a.meta.Name
  oncall dynamic:*(f, _, q, rep, ag, _): assert only the action asked for: has(a.actions, q.Action) && f == a.actions[q.Action]
  oncall dynamic:*(f, _, q, rep, ag, _): assert the caller is the one the secure request proved: q.CallerID == request.CallerID() && q.CallerPublicData == request.CallerPublicData() && q.SignerPublicData == request.SignerPublicData()
  oncall dynamic:*(f, _, q, rep, ag, _): assert the action runs once: ran == 0
  oncall dynamic:*(f, _, q, rep, ag, _): set ran = ran + 1
  oncall (*mc.Agent).publish(_, rep, _, _, _): assert requests that did not run are answered with an error: ran == 0 ==> rep.Statuscode != mc.OK

verify mc.AuthorizeRequest(fw, req, cfg, si, log) (ok)
  modular
  modifies nothing
  ghost pol bool
  ghost opaok bool
  ghost listok bool
  ghost jwtreq bool
  oncall mc.actionPolicyAuthorize(q, c, l) (a): set pol = a && q == req && c == cfg
  oncall mc.regoPolicyAuthorize(q, f, s, c, l) (a, e): set opaok = a && e == nil && q == req && c == cfg && f == fw && s == si
  oncall mc.aaasvcPolicyAuthorize(q, c, l) (a, e): set listok = a && e == nil && q == req && c == cfg
  def prov(c) = strings.ToLower(c.RPCAuthorizationProvider)
  ensures nothing is allowed without a configuration: ok ==> cfg != nil
  ensures only what the configured provider allows: (ok && cfg.RPCAuthorization) ==> ((prov(cfg) == "action_policy" && pol) || (prov(cfg) == "rego_policy" && opaok) || (in(prov(cfg), "aaasvc", "aaasvc_policy") && listok))
  ensures only requests naming an agent: (ok && cfg.RPCAuthorization) ==> (req != nil && req.Agent != "")
  cover allowed by action policy: ok && pol
  cover allowed by rego policy: ok && opaok
  cover allowed by token: ok && listok
  cover denied: !ok && cfg != nil

# the rego policy decides on the request it is asked about
verify mc.regoPolicyAuthorize(req, fw, si, cfg, log) (ok, err)
  requires req != nil && fw != nil && si != nil && cfg != nil
  opaque github.com/choria-io/go-choria/opa*
  ghost said bool
  ghost inp any
  def in0(v) = unbox(v, "map[string]any")
  oncall (*opap.Evaluator).Evaluate(_, _, inputs) (a, e): set said = a && e == nil
  oncall (*opap.Evaluator).Evaluate(_, _, inputs): assert the policy sees the agent and action: in0(inputs)["agent"] == box(req.Agent, "string") && in0(inputs)["action"] == box(req.Action, "string")
  oncall (*opap.Evaluator).Evaluate(_, _, inputs): assert the policy sees the caller: in0(inputs)["callerid"] == box(req.CallerID, "string") && in0(inputs)["collective"] == box(req.Collective, "string")
  ensures only what the policy allows: ok ==> (err == nil && said)
  cover allowed: ok

verify (e *opap.Evaluator) Evaluate(ctx, inputs) (pass, err)
  requires e.opts != nil
  ensures errors never allow: err != nil ==> !pass
