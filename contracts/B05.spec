property B05

include broker.inc
alias md5 = crypto/md5
alias sha256 = crypto/sha256

def perm(t, p) = tokHasPerms(t) && tokPerm(t, p)
def ident(t) = conv(tokIdentity(t), "[]byte")
def maySub(t, s) = exists(k, "string", tokCollective(t, k) && (in(s, sprintf("%s.broadcast.agent.>", k), sprintf("%s.node.%s", k, tokIdentity(t)), sprintf("%s.reply.%x.>", k, md5.Sum(ident(t))), sprintf("%s.reply.%x.>", k, sha256.Sum256(ident(t)))) || (perm(t, "service_host") && s == sprintf("%s.broadcast.service.>", k))))
  || (perm(t, "streams") && s == sprintf("%s.republish.>", tokOU(t)))
def streamsPub(p, s) = in(s, sprintf("%s.STREAM.INFO.*", p), sprintf("%s.STREAM.MSG.GET.*", p), sprintf("%s.STREAM.MSG.DELETE.*", p), sprintf("%s.DIRECT.GET.*", p), sprintf("%s.DIRECT.GET.*.>", p), sprintf("%s.CONSUMER.CREATE.*", p), sprintf("%s.CONSUMER.CREATE.*.>", p), sprintf("%s.CONSUMER.DURABLE.CREATE.*.*", p), sprintf("%s.CONSUMER.INFO.*.*", p), sprintf("%s.CONSUMER.MSG.NEXT.*.*", p), "$JS.ACK.>", "$JS.FC.>")
def mayPub(t, s) = in(s, "choria.lifecycle.>", "choria.machine.transition", "choria.machine.watcher.>") || tokPub(t, s)
  || exists(k, "string", tokCollective(t, k) && (in(s, sprintf("%s.reply.>", k), sprintf("%s.broadcast.agent.registration", k), sprintf("choria.federation.%s.collective", k)) || (perm(t, "submission") && s == sprintf("%s.submission.in.>", k)) || (perm(t, "governor") && perm(t, "streams") && s == sprintf("%s.governor.*", k))))
  || (perm(t, "streams") && tokOU(t) == "choria" && streamsPub("$JS.API", s))
  || (perm(t, "streams") && tokOU(t) != "choria" && streamsPub("choria.streams", s))

def serverConn(a, c, u) = opts(c).Username != "provisioner" && !(a.systemUser != "" && opts(c).Username == a.systemUser) && u.Account != a.provisioningAccount && tls(c) != nil && tok(c) != "" && tokens.TokenPurpose(tok(c)) == tokens.ServerPurpose

def denied(p) = p != nil && len(p.Deny) == 1 && p.Deny[0] == ">"

verify (a *net.ChoriaAuth).Check(c) (ok)
  requires a != nil && c != nil && a.log != nil && opts(c) != nil
  requires c.RemoteAddress() != nil
  requires the accounts are separate: a.provisioningAccount != a.choriaAccount
  ghost admitted bool
  oncall (srv.ClientAuthentication).RegisterUser(_, u): set admitted = admitted || (serverConn(a, c, u) && tokNCollectives(tok(c)) > 0)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert a server gets permissions:
     serverConn(a, c, u) ==> (u.Permissions != nil && u.Permissions.Subscribe != nil && u.Permissions.Publish != nil)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert no access for denied servers and servers without collectives:
     (serverConn(a, c, u) && (a.denyServers || tokNCollectives(tok(c)) == 0)) ==> (denied(u.Permissions.Subscribe) && denied(u.Permissions.Publish))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert subscriptions stay within the collectives and identity:
     (serverConn(a, c, u) && !a.denyServers && tokNCollectives(tok(c)) > 0) ==> (len(u.Permissions.Subscribe.Allow) > 0 && forall(i, 0, len(u.Permissions.Subscribe.Allow), maySub(tok(c), u.Permissions.Subscribe.Allow[i])))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert publishing stays within the collectives and grants:
     (serverConn(a, c, u) && !a.denyServers && tokNCollectives(tok(c)) > 0) ==> (len(u.Permissions.Publish.Allow) > 0 && forall(i, 0, len(u.Permissions.Publish.Allow), mayPub(tok(c), u.Permissions.Publish.Allow[i])))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the user is the identity in the token:
     serverConn(a, c, u) ==> u.Username == tokIdentity(tok(c))
  cover a server: admitted && ok

# the permissions given to a server in any account, whichever way it connected
def sP(c) = c.Permissions != nil
def cSub(c, s) = exists(k, 0, len(c.Collectives), in(s, sprintf("%s.broadcast.agent.>", c.Collectives[k]), sprintf("%s.node.%s", c.Collectives[k], c.ChoriaIdentity), sprintf("%s.reply.%x.>", c.Collectives[k], md5.Sum(conv(c.ChoriaIdentity, "[]byte"))), sprintf("%s.reply.%x.>", c.Collectives[k], sha256.Sum256(conv(c.ChoriaIdentity, "[]byte")))) || (sP(c) && c.Permissions.ServiceHost && s == sprintf("%s.broadcast.service.>", c.Collectives[k])))
  || (sP(c) && c.Permissions.Streams && s == sprintf("%s.republish.>", c.OrganizationUnit))
def cPub(c, s) = in(s, "choria.lifecycle.>", "choria.machine.transition", "choria.machine.watcher.>") || exists(k, 0, len(c.AdditionalPublishSubjects), c.AdditionalPublishSubjects[k] == s)
  || exists(k, 0, len(c.Collectives), in(s, sprintf("%s.reply.>", c.Collectives[k]), sprintf("%s.broadcast.agent.registration", c.Collectives[k]), sprintf("choria.federation.%s.collective", c.Collectives[k])) || (sP(c) && c.Permissions.Submission && s == sprintf("%s.submission.in.>", c.Collectives[k])) || (sP(c) && c.Permissions.Governor && c.Permissions.Streams && s == sprintf("%s.governor.*", c.Collectives[k])))
  || (sP(c) && c.Permissions.Streams && c.OrganizationUnit == "choria" && streamsPub("$JS.API", s))
  || (sP(c) && c.Permissions.Streams && c.OrganizationUnit != "choria" && streamsPub("choria.streams", s))

verify (a *net.ChoriaAuth).setServerPermissions(user, claims, log)
  requires a != nil && user != nil && user.Permissions != nil && log != nil && a.log != nil
  ensures the lists are set: user.Permissions.Subscribe != nil && user.Permissions.Publish != nil
  ensures denied servers get nothing: (a.denyServers || (claims != nil && len(claims.Collectives) == 0)) ==> (denied(user.Permissions.Subscribe) && denied(user.Permissions.Publish))
  ensures subscriptions stay within the claims: (!a.denyServers && claims != nil) ==> forall(i, 0, len(user.Permissions.Subscribe.Allow), cSub(claims, user.Permissions.Subscribe.Allow[i]))
  ensures publishing stays within the claims: (!a.denyServers && claims != nil) ==> forall(i, 0, len(user.Permissions.Publish.Allow), cPub(claims, user.Permissions.Publish.Allow[i]))
  ensures an empty list is never open: (len(user.Permissions.Subscribe.Allow) > 0 || len(user.Permissions.Subscribe.Deny) > 0) && (len(user.Permissions.Publish.Allow) > 0 || len(user.Permissions.Publish.Deny) > 0)
