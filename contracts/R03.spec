property R03
alias mc = github.com/choria-io/go-choria/providers/agent/mcorpc
alias opap = github.com/choria-io/go-choria/opa
alias cfgp = github.com/choria-io/go-choria/config
alias js = encoding/json
alias oast = github.com/open-policy-agent/opa/v1/ast
alias orego = github.com/open-policy-agent/opa/v1/rego
alias otypes = github.com/open-policy-agent/opa/v1/types
alias ffa = github.com/choria-io/go-choria/filter/facts
client mc R03_client.go.src

def parts(s) = strings.Split(s, ".")
def wellformed(s) = s == "*" || len(parts(s)) == 2
def allows(s, agent, action) = s == "*" || (len(parts(s)) == 2 && parts(s)[0] == agent && (parts(s)[1] == "*" || parts(s)[1] == action))

verify mc.EvaluateAgentListPolicy(agent, action, list, log) (ok, err)
  modular
  modifies nothing
  ensures only listed agents and actions are allowed: ok ==> exists(i, 0, len(list), allows(list[i], agent, action))
  ensures listed agents and actions are allowed: (forall(i, 0, len(list), wellformed(list[i])) && exists(i, 0, len(list), allows(list[i], agent, action))) ==> ok
  ensures errors never allow: err != nil ==> !ok
  ensures an empty list allows nothing: len(list) == 0 ==> !ok
  cover allowed: ok && len(list) > 1
  cover malformed: err != nil

pure tokens.ParseClientIDTokenUnverified
def claims(q) = r0(tokens.ParseClientIDTokenUnverified(q.CallerPublicData))
def listed(q) = len(claims(q).AllowedAgents) > 0 && claims(q).OPAPolicy == "" && exists(i, 0, len(claims(q).AllowedAgents), allows(claims(q).AllowedAgents[i], q.Agent, q.Action))

# evaluating a policy changes neither the request nor the token
extern mc.EvaluateOpenPolicyAgentPolicy(q, p, c, s, l) (a, e) frame
  ensures a ==> e == nil

verify mc.aaasvcPolicyAuthorize(req, cfg, log) (ok, err)
  requires req != nil && cfg != nil
  ghost said bool
  ghost spol string
  ghost sreq ref
  ghost sclaims ref
  oncall mc.EvaluateOpenPolicyAgentPolicy(q, p, c, s, l) (a, e): set said = a && e == nil
  oncall mc.EvaluateOpenPolicyAgentPolicy(q, p, c, s, l) (a, e): set spol = p
  oncall mc.EvaluateOpenPolicyAgentPolicy(q, p, c, s, l) (a, e): set sreq = q
  oncall mc.EvaluateOpenPolicyAgentPolicy(q, p, c, s, l) (a, e): set sclaims = c
  ensures only callers with a token: (ok && err == nil) ==> (req.CallerPublicData != "" && r1(tokens.ParseClientIDTokenUnverified(req.CallerPublicData)) == nil)
  ensures only what the list or the policy allows: (ok && err == nil && req.Agent != "discovery") ==> (listed(req) || (len(claims(req).AllowedAgents) == 0 && claims(req).OPAPolicy != "" && said && spol == claims(req).OPAPolicy && sreq == req && sclaims == claims(req)))
  ensures listed agents and actions are allowed: (req.CallerPublicData != "" && r1(tokens.ParseClientIDTokenUnverified(req.CallerPublicData)) == nil && listed(req) && forall(i, 0, len(claims(req).AllowedAgents), wellformed(claims(req).AllowedAgents[i]))) ==> (ok && err == nil)
  ensures errors never allow: err != nil ==> !ok
  cover by list: ok && err == nil && listed(req)
  cover by policy: ok && err == nil && said

verify mc.EvaluateOpenPolicyAgentPolicy(req, policy, claims, site, log) (ok, err)
  requires req != nil && claims != nil && log != nil && log.Logger != nil
  opaque github.com/choria-io/go-choria/opa* github.com/choria-io/go-choria/providers/agent/mcorpc.opaFunctionsMap
  ghost said bool
  ghost pol string
  ghost told bool
  def in0(v) = unbox(v, "map[string]any")
  oncall opap.Policy(p): set pol = str(p)
  oncall (*opap.Evaluator).Evaluate(_, _, inputs) (a, e): set said = a && e == nil
  oncall (*opap.Evaluator).Evaluate(_, _, inputs): assert the policy sees the agent and action: in0(inputs)["agent"] == box(req.Agent, "string") && in0(inputs)["action"] == box(req.Action, "string")
  oncall (*opap.Evaluator).Evaluate(_, _, inputs): assert the policy sees who asks and from where: in0(inputs)["sender"] == box(req.SenderID, "string") && in0(inputs)["collective"] == box(req.Collective, "string") && in0(inputs)["site"] == box(site, "string")
  oncall js.Marshal(v) (b, e): set told = told || (e == nil && v == box(claims))
  oncall (*opap.Evaluator).Evaluate(_, _, inputs): assert the policy sees the claims of the token: told && typeis(in0(inputs)["claims"], "*map[string]any")
  oncall mc.opaFunctionsMap(q): assert the policy functions judge this request: q == req
  ensures only what the policy says: ok ==> (err == nil && said && pol == policy && policy != "")
  cover allowed: ok

# the functions offered to policies can be called with the arguments they declare
extern otypes.Args(a) (r) frame
  ensures len(r) == len(a)
extern otypes.NewFunction(a, t) (f) frame
  fresh f
verify mc.opaFunctionsMap(req) (fs)
  requires req != nil
  ghost arity map[ref]int
  oncall otypes.NewFunction(a, t) (f): set arity[f] = len(a)
  oncall orego.Function1(d, f): maybe assert policy functions are called with the arguments they declare: arity[d.Decl] >= 1
  oncall orego.Function2(d, f): maybe assert policy functions are called with both arguments they declare: arity[d.Decl] >= 2
  ensures all functions are offered: len(fs) == 4

# what an embedded policy can ask about the filter of the request
def word(a) = conv(unbox(a.Value, "oast.String"), "string")
group says
  ghost said bool
  ghost sn int
  oncall oast.BooleanTerm(b): set said = b
  oncall oast.BooleanTerm(b): set sn = sn + 1

pure ffa.ParseFactFilterString

verify mc.contractRequiresFilter(req, a) (r, err)
  requires req != nil && req.Filter != nil && a != nil
  use says
  ensures a request with a filter: err == nil && sn == 1 && said == (len(req.Filter.Class) > 0 || len(req.Filter.Identity) > 0 || len(req.Filter.Fact) > 0 || len(req.Filter.Compound) > 0)

verify mc.contractRequiresIdentityFilter(req, a) (r, err)
  requires req != nil && req.Filter != nil && a != nil
  use says
  ensures a request with that identity: err == nil ==> (sn == 1 && typeis(a.Value, "oast.String") && said == exists(i, 0, len(req.Filter.Identity), req.Filter.Identity[i] == word(a)))

verify mc.contractRequiresClassFilter(req, a) (r, err)
  requires req != nil && req.Filter != nil && a != nil
  use says
  ensures a request with that class: err == nil ==> (sn == 1 && typeis(a.Value, "oast.String") && said == exists(i, 0, len(req.Filter.Class), req.Filter.Class[i] == word(a)))

def ff(a) = r0(ffa.ParseFactFilterString(word(a)))
verify mc.contractRequiresFactFilter(req, a) (r, err)
  requires req != nil && req.Filter != nil && a != nil
  use says
  ensures a request with that fact: err == nil ==> (sn == 1 && typeis(a.Value, "oast.String") && said == exists(i, 0, len(req.Filter.Fact), req.Filter.Fact[i].Fact == ff(a)[0] && req.Filter.Fact[i].Operator == ff(a)[1] && req.Filter.Fact[i].Value == ff(a)[2]))
