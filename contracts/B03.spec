property B03

include broker.inc

def provisioner(c) = opts(c).Username == "provisioner"
def issuers(a) = len(a.issuerTokens) > 0
def provIssuerTok(a, t) = hasIssuer(a, t) && provTok(t, issuerKey(a, t))
def provSubscribe(s) = in(s, "provisioning.node.>", "provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.rpcutil", "provisioning.broadcast.agent.choria_util", "provisioning.broadcast.agent.choria_provision")
def provPublish(s) = in(s, "choria.lifecycle.>", "provisioning.reply.>", "provisioning.registration.>")

verify (a *net.ChoriaAuth).Check(c) (ok)
  requires a != nil && c != nil && a.log != nil && opts(c) != nil
  requires c.RemoteAddress() != nil
  requires the provisioning account is a separate account: a.provisioningAccount != a.choriaAccount && a.provisioningAccount != a.systemAccount
  ghost prov int
  oncall (srv.ClientAuthentication).RegisterUser(_, u): set prov = ite(u.Account == a.provisioningAccount, prov + 1, prov)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the provisioner is isolated in the provisioning account:
     provisioner(c) ==> (u.Account == a.provisioningAccount && a.provisioningAccount != nil)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the provisioner supplied the configured password:
     provisioner(c) ==> (a.provPass != "" && opts(c).Password == a.provPass)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the provisioner proved who it is:
     provisioner(c) ==> ite(issuers(a),
        ite(tok(c) == "", a.provWithoutToken, hasIssuer(a, tok(c)) && clientTok(tok(c), issuerKey(a, tok(c))) && tokHasPerms(tok(c)) && tokPerm(tok(c), "provisioner")),
        mtls(c) && a.isTLS)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert provisioning servers present a provisioning token:
     (u.Account == a.provisioningAccount && !provisioner(c)) ==>
       (tls(c) != nil || pipe(c)) && a.isTLS && tok(c) != "" && a.provisioningAccount != nil && ((issuers(a) && a.provPass != "" && provIssuerTok(a, tok(c))) || (a.provisioningTokenSigner != "" && provTokFile(tok(c), a.provisioningTokenSigner)))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert provisioning servers subscribe only to provisioning subjects:
     (u.Account == a.provisioningAccount && !provisioner(c)) ==> (u.Permissions != nil && u.Permissions.Subscribe != nil && len(u.Permissions.Subscribe.Allow) > 0 && forall(i, 0, len(u.Permissions.Subscribe.Allow), provSubscribe(u.Permissions.Subscribe.Allow[i])))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert provisioning servers publish only to provisioning subjects:
     (u.Account == a.provisioningAccount && !provisioner(c)) ==> (u.Permissions != nil && u.Permissions.Publish != nil && len(u.Permissions.Publish.Allow) > 0 && forall(i, 0, len(u.Permissions.Publish.Allow), provPublish(u.Permissions.Publish.Allow[i])))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert connections without a verified identity are isolated in the provisioning account:
     (!mtls(c) && !pipe(c) && !provisioner(c) && !(a.systemUser != "" && opts(c).Username == a.systemUser) && !in(tokens.TokenPurpose(tok(c)), tokens.ClientIDPurpose, tokens.ServerPurpose))
        ==> (u.Account == a.provisioningAccount && a.provisioningAccount != nil)
  ensures a provisioner that fails is denied: (provisioner(c) && prov == 0) ==> !ok
  cover provisioning access: ok && prov == 1
