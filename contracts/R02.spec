property R02
alias mc = github.com/choria-io/go-choria/providers/agent/mcorpc
alias ffa = github.com/choria-io/go-choria/filter/facts
alias fcl = github.com/choria-io/go-choria/filter/classes
alias ffl = github.com/choria-io/go-choria/filter
alias bufs = bufio
alias cfgp = github.com/choria-io/go-choria/config
alias ut = github.com/choria-io/go-choria/internal/util

def words(s) = strings.Split(s, " ")
def member(p, g, id) = has(p.groups, g) && exists(k, 0, len(p.groups[g]), p.groups[g][k] == id)
def reOf(c) = regexp.MustCompile("^/(.+)/$").FindStringSubmatch(c)[1]
def reShape(c) = regexp.MustCompile("^/(.+)/$").MatchString(c)
def reBad(c) = prefix(c, "/") && (!reShape(c) || r1(regexp.Compile(reOf(c))) != nil)
def reHit(c, id) = prefix(c, "/") && reShape(c) && r1(regexp.Compile(reOf(c))) == nil && r0(regexp.Compile(reOf(c))).MatchString(id)
def callerHit(p, c, id) = c == id || reHit(c, id)

verify (p *mc.actionPolicyPolicy) MatchesCallerID(id) (ok)
  modular
  modifies nothing
  ensures only callers the line names: ok ==> (p.caller == "*" || (p.caller != "" && exists(i, 0, len(words(p.caller)), member(p, words(p.caller)[i], id) || callerHit(p, words(p.caller)[i], id))))
  ensures members of a group are matched: (p.caller != "" && exists(i, 0, len(words(p.caller)), member(p, words(p.caller)[i], id))) ==> ok
  ensures every caller the line names: (p.caller != "" && forall(i, 0, len(words(p.caller)), !reBad(words(p.caller)[i])) && exists(i, 0, len(words(p.caller)), callerHit(p, words(p.caller)[i], id))) ==> ok
  ensures any caller: p.caller == "*" ==> ok
  cover matched: ok && p.caller != "*"

verify (p *mc.actionPolicyPolicy) MatchesAction(act) (ok)
  modular
  modifies nothing
  ensures the actions of the line: ok == (p.actions != "" && (p.actions == "*" || exists(i, 0, len(words(p.actions)), words(p.actions)[i] == act)))
  cover matched: ok && p.actions != "*"

verify (p *mc.actionPolicyPolicy) IsCompound(line) (ok)
  modular
  modifies nothing
  ensures any compound word: ok == exists(i, 0, len(words(line)), regexp.MustCompile("^!|^not$|^or$|^and$|\\(.+\\)").MatchString(words(line)[i]))

pure fcl.MatchFile ffa.MatchFile
pure ffa.ParseFactFilterString

verify (p *mc.actionPolicyPolicy) MatchesClasses(file, log) (ok, err)
  modular
  modifies nothing
  ensures only the classes of the line: ok ==> (err == nil && (p.classes == "*" || (p.classes != "" && file != "" && fcl.MatchFile(words(p.classes), file, log))))
  ensures every line that names the classes: (err == nil && !ok) ==> (p.classes != "*" && !fcl.MatchFile(words(p.classes), file, log))
  cover matched: ok && p.classes != "*"

def pff(w) = r0(ffa.ParseFactFilterString(w))
verify (p *mc.actionPolicyPolicy) MatchesFacts(cfg, log) (ok, err)
  modular
  modifies nothing
  requires cfg != nil
  ghost fm bool
  oncall ffa.MatchFile(m, f, l) (r): set fm = r && f == cfg.FactSourceFile
  oncall ffa.MatchFile(m, f, l): assert every fact of the line is matched: len(m) == len(words(p.facts)) && forall(i, 0, len(m), m[i][0] == pff(words(p.facts)[i])[0] && m[i][1] == pff(words(p.facts)[i])[1] && m[i][2] == pff(words(p.facts)[i])[2])
  ensures only the facts of the line: ok ==> (err == nil && (p.facts == "*" || (p.facts != "" && fm)))
  ensures every line that names the facts: (err == nil && !ok) ==> (p.facts != "*" && !fm)
  cover matched: ok && p.facts != "*"

def callerNamed(p, id) = p.caller == "*" || (p.caller != "" && exists(i, 0, len(words(p.caller)), member(p, words(p.caller)[i], id) || callerHit(p, words(p.caller)[i], id)))
def actionNamed(p, act) = p.actions != "" && (p.actions == "*" || exists(i, 0, len(words(p.actions)), words(p.actions)[i] == act))

verify (a *mc.actionPolicy) checkRequestAgainstPolicy() (ok, err)
  modular
  modifies nothing
  requires a.matcher != nil && a.req != nil && a.cfg != nil
  ghost fok bool
  ghost cok bool
  oncall (*mc.actionPolicyPolicy).MatchesFacts(p, c, l) (m, e): set fok = m && e == nil && p == a.matcher && c == a.cfg
  oncall (*mc.actionPolicyPolicy).MatchesClasses(p, f, l) (m, e): set cok = m && e == nil && p == a.matcher && f == a.cfg.ClassesFile
  ensures a line matches only its callers: ok ==> callerNamed(a.matcher, a.req.CallerID)
  ensures a line matches only its actions: ok ==> actionNamed(a.matcher, a.req.Action)
  ensures a line matches only when its facts and classes do: ok ==> (fok && cok)
  ensures errors never match: err != nil ==> !ok
  ensures a line matches when all its parts do: (err == nil && fok && cok) ==> ok
  cover matched: ok

def commentLine(l) = regexp.MustCompile("^(#.*|\\s*)$").MatchString(l)
def defaultRe() = regexp.MustCompile("^policy\\s+default\\s+(\\w+)")
def policyRe() = regexp.MustCompile("^(allow|deny)\\t+(.+?)\\t+(.+?)\\t+(.+?)(\\t+(.+?))*$")
def isDefault(l) = !commentLine(l) && defaultRe().MatchString(l)
def compound(f) = exists(i, 0, len(words(f)), regexp.MustCompile("^!|^not$|^or$|^and$|\\(.+\\)").MatchString(words(f)[i]))
def isPolicy(l) = !commentLine(l) && !defaultRe().MatchString(l) && policyRe().MatchString(l)
def psub(l, i) = policyRe().FindStringSubmatch(l)[i]

verify (a *mc.actionPolicy) evaluatePolicy(f) (allowed, reason, err)
  requires a.matcher != nil && a.req != nil && a.cfg != nil
  ghost line string
  ghost hit bool
  ghost owed bool
  ghost failed bool
  ghost ended bool
  ghost dflt bool = a.allowUnconfigured()
  ghost complete bool
  oncall (*bufs.Scanner).Scan(_) (ok): set ended = !ok
  oncall (*bufs.Scanner).Err(_) (e): set complete = ended && e == nil
  oncall (*bufs.Scanner).Text(_) (l): set line = l
  oncall (*bufs.Scanner).Text(_) (l): assert every policy line is considered: !owed
  oncall (*bufs.Scanner).Text(_) (l): set owed = isPolicy(l) && !compound(psub(l, 4)) && !compound(psub(l, 6))
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p) (m, e): set failed = failed || e != nil
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p): set owed = false
  oncall (*bufs.Scanner).Text(_) (l): set dflt = ite(isDefault(l), defaultRe().FindStringSubmatch(l)[1] == "allow", dflt)
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p): assert only policy lines are matched: isPolicy(line) && p == a
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p): assert the line is the one matched: a.matcher.caller == psub(line, 2) && a.matcher.actions == psub(line, 3) && a.matcher.facts == psub(line, 4) && a.matcher.classes == psub(line, 6)
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p): assert the groups are the known groups: a.matcher.groups == a.groups
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p): assert the first match decides: !hit
  oncall (*mc.actionPolicy).checkRequestAgainstPolicy(p) (m, e): set hit = m && e == nil
  ensures a matching line decides: (err == nil && hit) ==> allowed == (psub(line, 1) == "allow")
  ensures no policy line is left out: err == nil ==> !owed
  ensures otherwise the default decides: (err == nil && !hit) ==> (ended && allowed == dflt)
  ensures the default only decides on a policy that was read to its end: (err == nil && !hit && allowed) ==> complete
  ensures errors never allow: err != nil ==> !allowed
  ensures a line that cannot be evaluated denies: failed ==> !allowed
  cover allowed by a line: allowed && hit
  cover allowed by default: allowed && !hit
  cover denied by a line: !allowed && hit && err == nil

verify (p *mc.actionPolicyPolicy) Set(caller, actions, facts, classes, groups)
  modular
  modifies p.caller, p.actions, p.facts, p.classes, p.groups
  ensures the line is taken as it was written: p.caller == caller && p.actions == actions && p.facts == facts && p.classes == classes && p.groups == groups

pure (*cfgp.Config).Option ut.StrToBool
def flag(a, k) = r1(ut.StrToBool(a.cfg.Option(k, "n"))) == nil && r0(ut.StrToBool(a.cfg.Option(k, "n")))

verify (a *mc.actionPolicy) allowUnconfigured() (r)
  modifies nothing
  requires a.cfg != nil
  ensures only when configured: r == flag(a, "plugin.actionpolicy.allow_unconfigured")

verify (a *mc.actionPolicy) shouldUseDefault() (r)
  modifies nothing
  requires a.cfg != nil
  ensures only when configured: r == flag(a, "plugin.actionpolicy.enable_default")

def policyPath(a, n) = filepath.Join(filepath.Dir(a.cfg.ConfigFile), "policies", n + ".policy")

verify (a *mc.actionPolicy) lookupPolicyFile() (f, err)
  modular
  opaque ut.FileExist
  requires a.cfg != nil && a.req != nil
  ghost own bool
  ghost seen bool
  ghost deflt bool
  oncall ut.FileExist(p) (e): set own = ite(p == policyPath(a, a.req.Agent), e, own)
  oncall ut.FileExist(p) (e): set seen = seen || p == policyPath(a, a.req.Agent)
  oncall ut.FileExist(p) (e): set deflt = ite(p == policyPath(a, a.defaultPolicyFileName()), e, deflt)
  ensures the own policy of the agent is looked at first: seen && (own ==> (err == nil && f == policyPath(a, a.req.Agent)))
  ensures the default policy is only for agents without their own: (err == nil && !own) ==> (a.shouldUseDefault() && deflt && f == policyPath(a, a.defaultPolicyFileName()))
  ensures the default policy is used when enabled: (!own && a.shouldUseDefault() && deflt) ==> err == nil
  ensures errors name no file: err != nil ==> f == ""
  cover own: err == nil && own
  cover default: err == nil && !own

def groupLine(l) = !commentLine(l) && len(strings.Split(l, " ")) >= 2 && regexp.MustCompile("^([\\w\\.\\-]+)$").MatchString(strings.Split(l, " ")[0])

def kept(a, g, l) = has(a.groups, g) && len(a.groups[g]) == len(strings.Split(l, " ")) - 1 && forall(i, 0, len(a.groups[g]), a.groups[g][i] == strings.Split(l, " ")[i+1])

verify (a *mc.actionPolicy) parseGroupFile(f) (err)
  requires a.cfg != nil && a.groups != nil && f == ""
  keeps !owed || kept(a, gname, line)
  opaque ut.FileExist
  ghost line string
  ghost gname string
  ghost owed bool
  ghost got bool
  oncall os.Open(p): assert the groups of the configuration: p == filepath.Join(filepath.Dir(a.cfg.ConfigFile), "policies", "groups")
  oncall (*bufs.Scanner).Text(_) (l): assert every group line is kept: !owed || kept(a, gname, line)
  oncall (*bufs.Scanner).Text(_) (l): set line = l
  oncall (*bufs.Scanner).Text(_) (l): set owed = groupLine(l)
  oncall (*bufs.Scanner).Text(_) (l): set gname = strings.Split(l, " ")[0]
  ensures every group line is kept to the last: (err == nil && owed) ==> kept(a, gname, line)
  cover groups: err == nil && owed

verify mc.actionPolicyAuthorize(req, cfg, log) (ok)
  requires req != nil && cfg != nil
  opaque ut.FileExist (*mc.actionPolicy).evaluatePolicy
  ghost said bool
  ghost asked bool
  ghost grouped bool
  ghost pfile string
  ghost unconf bool
  oncall (*mc.actionPolicy).evaluatePolicy(p, f) (al, r, e): set said = al && e == nil
  oncall (*mc.actionPolicy).evaluatePolicy(p, f): assert the policy decides on the request and configuration asked about: p.req == req && p.cfg == cfg
  oncall (*mc.actionPolicy).allowUnconfigured(p) (u): set unconf = u
  oncall (*mc.actionPolicy).parseGroupFile(p, f): assert the groups are read first: p.req == req && p.cfg == cfg && !asked
  oncall (*mc.actionPolicy).parseGroupFile(p, f): set grouped = true
  oncall (*mc.actionPolicy).lookupPolicyFile(p) (f, e): set pfile = ite(e == nil, f, "")
  oncall (*mc.actionPolicy).evaluatePolicy(p, f): assert the policy is the one of the agent: grouped && f == pfile && f != ""
  oncall (*mc.actionPolicy).evaluatePolicy(p, f): set asked = true
  ensures only what the policy or the configuration allows: ok ==> (said || unconf)
  ensures what the policy says holds: asked ==> ok == said
  cover allowed: ok && said
