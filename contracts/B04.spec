property B04

include broker.inc
alias md5 = crypto/md5
alias sha256 = crypto/sha256

def orgAdmin(t) = tokHasPerms(t) && tokPerm(t, "org_admin")
def perm(t, p) = tokHasPerms(t) && tokPerm(t, p)
def streams(t) = perm(t, "streams_user") || perm(t, "streams_admin")
def callerReply(w, s) = s == sprintf("*.reply.%x.>", md5.Sum(conv(w, "[]byte"))) || s == sprintf("*.reply.%x.>", sha256.Sum256(conv(w, "[]byte")))
def maySub(t, w, s) = callerReply(w, s) || (w == "" && s == "*.reply.>") || tokSub(t, s)
  || (perm(t, "streams_admin") && s == "$JS.EVENT.>")
  || (perm(t, "streams_user") && s == sprintf("%s.republish.>", tokOU(t)))
  || (perm(t, "events_viewer") && in(s, "choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition"))
def mayPub(t, s) = s == "$SYS.REQ.USER.INFO" || tokPub(t, s)
  || (perm(t, "streams_admin") && s == "$JS.>")
  || (perm(t, "streams_user") && in(s, "$JS.API.INFO", "$JS.API.STREAM.NAMES", "$JS.API.STREAM.LIST", "$JS.API.STREAM.INFO.*", "$JS.API.STREAM.MSG.GET.*", "$JS.API.STREAM.MSG.DELETE.*", "$JS.API.DIRECT.GET.*", "$JS.API.DIRECT.GET.*.>", "$JS.API.CONSUMER.CREATE.*", "$JS.API.CONSUMER.CREATE.*.>", "$JS.API.CONSUMER.DURABLE.CREATE.*.*", "$JS.API.CONSUMER.DELETE.*.*", "$JS.API.CONSUMER.NAMES.*", "$JS.API.CONSUMER.LIST.*", "$JS.API.CONSUMER.INFO.*.*", "$JS.API.CONSUMER.MSG.NEXT.*.*", "$JS.ACK.>", "$JS.FC.>", "$KV.>", "$O.>"))
  || (perm(t, "election_user") && in(s, "$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>"))
  || (perm(t, "governor") && streams(t) && in(s, "*.governor.*", "choria.lifecycle.event.governor.>"))
  || ((perm(t, "fleet_management") || perm(t, "signed_fleet_management")) && in(s, "*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"))

def clientConn(a, c, u) = opts(c).Username != "provisioner" && !(a.systemUser != "" && opts(c).Username == a.systemUser) && u.Account != a.provisioningAccount && tls(c) != nil && tok(c) != "" && tokens.TokenPurpose(tok(c)) == tokens.ClientIDPurpose

verify (a *net.ChoriaAuth).Check(c) (ok)
  requires a != nil && c != nil && a.log != nil && opts(c) != nil
  requires c.RemoteAddress() != nil
  requires the accounts are separate: a.provisioningAccount != a.choriaAccount
  ghost admitted bool
  oncall (srv.ClientAuthentication).RegisterUser(_, u): set admitted = admitted || clientConn(a, c, u)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert subscriptions are limited to granted subjects:
     (clientConn(a, c, u) && !orgAdmin(tok(c))) ==> forall(i, 0, len(u.Permissions.Subscribe.Allow), maySub(tok(c), u.Username, u.Permissions.Subscribe.Allow[i]))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert publishing is limited to granted subjects:
     (clientConn(a, c, u) && !orgAdmin(tok(c))) ==> forall(i, 0, len(u.Permissions.Publish.Allow), mayPub(tok(c), u.Permissions.Publish.Allow[i]))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert clients never get unlimited access by an empty list:
     clientConn(a, c, u) ==> (u.Permissions != nil && u.Permissions.Subscribe != nil && u.Permissions.Publish != nil && len(u.Permissions.Subscribe.Allow) > 0 && len(u.Permissions.Publish.Allow) > 0)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the user is the caller in the token:
     clientConn(a, c, u) ==> u.Username == tokCaller(tok(c))
  cover a client: admitted && ok

# the permissions given to a user in any account, whichever way it connected
def haveP(c) = c != nil && c.Permissions != nil
def inChoria(a, u) = u.Account == a.choriaAccount
def inProv(a, u) = u.Account == a.provisioningAccount
def cStreams(c) = haveP(c) && (c.Permissions.StreamsUser || c.Permissions.StreamsAdmin)
def okSub(a, u, w, c, s) = callerReply(w, s) || (w == "" && s == "*.reply.>")
  || (c != nil && exists(k, 0, len(c.AdditionalSubscribeSubjects), c.AdditionalSubscribeSubjects[k] == s))
  || (haveP(c) && c.Permissions.StreamsAdmin && inChoria(a, u) && s == "$JS.EVENT.>")
  || (haveP(c) && c.Permissions.StreamsUser && inChoria(a, u) && s == sprintf("%s.republish.>", c.OrganizationUnit))
  || (haveP(c) && c.Permissions.EventsViewer && inChoria(a, u) && in(s, "choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition"))
  || (haveP(c) && c.Permissions.EventsViewer && inProv(a, u) && s == "choria.lifecycle.event.*.provision_mode_server")
def okPub(a, u, c, s) = s == "$SYS.REQ.USER.INFO"
  || (c != nil && exists(k, 0, len(c.AdditionalPublishSubjects), c.AdditionalPublishSubjects[k] == s))
  || (haveP(c) && c.Permissions.StreamsAdmin && inChoria(a, u) && s == "$JS.>")
  || (haveP(c) && c.Permissions.StreamsUser && inChoria(a, u) && in(s, "$JS.API.INFO", "$JS.API.STREAM.NAMES", "$JS.API.STREAM.LIST", "$JS.API.STREAM.INFO.*", "$JS.API.STREAM.MSG.GET.*", "$JS.API.STREAM.MSG.DELETE.*", "$JS.API.DIRECT.GET.*", "$JS.API.DIRECT.GET.*.>", "$JS.API.CONSUMER.CREATE.*", "$JS.API.CONSUMER.CREATE.*.>", "$JS.API.CONSUMER.DURABLE.CREATE.*.*", "$JS.API.CONSUMER.DELETE.*.*", "$JS.API.CONSUMER.NAMES.*", "$JS.API.CONSUMER.LIST.*", "$JS.API.CONSUMER.INFO.*.*", "$JS.API.CONSUMER.MSG.NEXT.*.*", "$JS.ACK.>", "$JS.FC.>", "$KV.>", "$O.>"))
  || (haveP(c) && c.Permissions.ElectionUser && inChoria(a, u) && in(s, "$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>"))
  || (haveP(c) && c.Permissions.ElectionUser && inProv(a, u) && in(s, "choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.provisioner"))
  || (haveP(c) && c.Permissions.Governor && cStreams(c) && inChoria(a, u) && in(s, "*.governor.*", "choria.lifecycle.event.governor.>"))
  || (haveP(c) && (c.Permissions.FleetManagement || c.Permissions.SignedFleetManagement) && in(s, "*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"))

verify (a *net.ChoriaAuth).setClientPermissions(user, caller, client, log)
  requires a != nil && user != nil && user.Permissions != nil && log != nil && a.log != nil
  requires the accounts are separate: a.provisioningAccount != a.choriaAccount
  ensures the lists are set: user.Permissions.Subscribe != nil && user.Permissions.Publish != nil
  ensures subscriptions stay within the token and the account: (!(haveP(client) && client.Permissions.OrgAdmin)) ==> forall(i, 0, len(user.Permissions.Subscribe.Allow), okSub(a, user, caller, client, user.Permissions.Subscribe.Allow[i]))
  ensures publishing stays within the token and the account: (!(haveP(client) && client.Permissions.OrgAdmin)) ==> forall(i, 0, len(user.Permissions.Publish.Allow), okPub(a, user, client, user.Permissions.Publish.Allow[i]))
  ensures an empty list is never open: (len(user.Permissions.Subscribe.Allow) > 0 || len(user.Permissions.Subscribe.Deny) > 0) && (len(user.Permissions.Publish.Allow) > 0 || len(user.Permissions.Publish.Deny) > 0)
