property R06
alias ext = github.com/choria-io/go-choria/providers/agent/mcorpc/external
alias mc = github.com/choria-io/go-choria/providers/agent/mcorpc
alias ddla = github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent
alias osx = os/exec
alias js = encoding/json
alias fp = path/filepath
alias rt = runtime
alias osp = os

pure (*osp.File).Name (*ddla.DDL).ActionInterface (*ddla.Action).ValidateRequestJSON (*mc.Agent).Name (*mc.Agent).Metadata
extern (*ddla.Action).SetOutputDefaults(a, r) frame
  ensures true
extern github.com/choria-io/go-choria/internal/util.FileIsRegular(f) (ok) frame
  ensures true
extern github.com/choria-io/go-choria/internal/util.FileExist(f) (ok) frame
  ensures no file has an empty name: f == "" ==> !ok
extern (*osp.File).Write(f, b) (n, e) frame
  ensures true
extern osp.CreateTemp(d, p) (f, e) frame
  fresh f
  ensures e == nil ==> (f != nil && f.Name() != "")

# opening the pipes of a command does not change what it runs
extern (*osx.Cmd).StdoutPipe(c) (r, e) frame
  ensures true
extern (*osx.Cmd).StderrPipe(c) (r, e) frame
  ensures true

def single(dir, name) = fp.Join(fp.Dir(dir), name)
def archBin(dir, name) = fp.Join(single(dir, name), sprintf("%s-%s_%s", name, rt.GOOS, rt.GOARCH))
def binary(c, dir, name) = c == single(dir, name) || c == archBin(dir, name)

verify (p *ext.Provider) externalAction(ctx, req, reply, agent, conn)
  requires p != nil && req != nil && reply != nil && agent != nil && agent.Log != nil && agent.Metadata() != nil && p.log != nil && p.cfg != nil
  ghost valid bool
  ghost ran bool
  ghost iface ref
  oncall (*ddla.DDL).ActionInterface(d, a) (i, e): set iface = ite(e == nil, i, iface)
  oncall (*ddla.DDL).ActionInterface(d, a): assert the interface is that of the action asked for: a == req.Action
  oncall (*ddla.DDL).ActionInterface(d, a): assert the interface is that of the agent: d.Metadata.Name == agent.Name()
  oncall (*ddla.Action).ValidateRequestJSON(a, d) (w, e): set valid = e == nil && a == iface && str(d) == str(req.Data)
  oncall osx.CommandContext(c, cmd, _): assert only validated requests are run: valid
  oncall osx.CommandContext(c, cmd, _): assert the agent's own program is run: has(p.paths, agent.Name()) && binary(cmd, p.paths[agent.Name()], agent.Metadata().Name)
  oncall (*ext.Provider).executeRequest(_, _, _, _, _, _, _, _, _) (e): set ran = e == nil
  ghost filled bool
  oncall (*ext.Provider).setReplyDefaults(_, d, a, r) (e): set filled = e == nil
  ensures failures are reported: (!valid || !ran || !filled) ==> reply.Statuscode == mc.Aborted
  cover ran: ran

verify (p *ext.Provider) executeRequest(ctx, command, protocol, req, reply, name, log, si) (err)
  requires p != nil && log != nil && p.cfg != nil
  ghost started bool
  ghost decoded bool
  ghost code int = 1
  ghost repf string
  ghost read string
  ghost reqf string
  ghost holds set[string]
  ghost made set[string]
  oncall osp.CreateTemp(d, p) (f, e): assume !made[f.Name()]
  oncall osp.CreateTemp(d, p) (f, e): set made[f.Name()] = true
  oncall (*osp.File).Write(f, b): set holds[f.Name()] = str(b) == str(req)
  oncall osx.CommandContext(c, cmd, args): set reqf = args[0]
  oncall osx.CommandContext(c, cmd, args): assert the program given is run: cmd == command && c == ctx
  oncall osx.CommandContext(c, cmd, args): assert the program is told where the request and the reply are: len(args) >= 2 && holds[args[0]]
  oncall osx.CommandContext(c, cmd, args): set repf = args[1]
  oncall (*osx.Cmd).Start(c): assert the environment says where the request and the reply are: exists(i, 0, len(c.Env), c.Env[i] == "CHORIA_EXTERNAL_REQUEST=" + reqf) && exists(i, 0, len(c.Env), c.Env[i] == "CHORIA_EXTERNAL_REPLY=" + repf)
  oncall osp.ReadFile(f): assert the reply is read from where it was written: f == repf
  oncall (*osx.Cmd).Start(_) (e): set started = e == nil
  oncall (*osp.ProcessState).ExitCode(_) (c): set code = c
  oncall osp.ReadFile(_) (b, e): set read = str(b)
  oncall js.Unmarshal(b, v) (e): set decoded = e == nil && v == reply && str(b) == read
  ensures success means the program ran and replied: err == nil ==> (started && code == 0 && decoded)
  cover ran: err == nil

verify (p *ext.Provider) newExternalRequest(req) (b, err)
  requires req != nil
  oncall js.Marshal(v): assert the program is given the request as received: unbox(v, "ext.Request").Action == req.Action && unbox(v, "ext.Request").Agent == req.Agent && unbox(v, "ext.Request").CallerID == req.CallerID && unbox(v, "ext.Request").RequestID == req.RequestID && unbox(v, "ext.Request").SenderID == req.SenderID && unbox(v, "ext.Request").Collective == req.Collective && unbox(v, "ext.Request").TTL == req.TTL && str(unbox(v, "ext.Request").Data) == str(req.Data)

verify (p *ext.Provider) externalActivationCheck(d) (c, err)
  requires p != nil && d != nil && d.Metadata != nil && p.log != nil && p.cfg != nil
  ghost ran bool
  oncall osx.CommandContext(c, cmd, _): assert the agent's own program is run: d.SourceLocation != "" && binary(cmd, d.SourceLocation, d.Metadata.Name)
  oncall (*ext.Provider).executeRequest(_, _, _, _, _, _, _, _, _) (e): set ran = e == nil
  ghost answer any
  oncall (*ext.Provider).executeRequest(_, _, _, _, _, r, _, _, _): set answer = r
  ensures agents that fail their activation check stay inactive: (err == nil && !ran) ==> !c()
  ensures agents decide themselves: (err == nil && c()) ==> unbox(answer, "*ext.ActivationReply").ShouldActivate
