property B02

include broker.inc

def sysGranted(t) = tokPerm(t, "system_user") || tokPerm(t, "org_admin")

verify (a *net.ChoriaAuth).Check(c) (ok)
  requires a != nil && c != nil && a.log != nil && opts(c) != nil
  requires c.RemoteAddress() != nil
  requires the system account is a separate account: a.systemAccount != a.choriaAccount && a.systemAccount != a.provisioningAccount
  ghost sys int
  oncall (srv.ClientAuthentication).RegisterUser(_, u): set sys = ite(u.Account == a.systemAccount, sys + 1, sys)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert exactly the configured credentials were supplied:
     u.Account == a.systemAccount ==> (a.systemUser != "" && a.systemPass != "" && opts(c).Username == a.systemUser && opts(c).Password == a.systemPass)
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert the transport is verified or a privileged token was presented:
     u.Account == a.systemAccount ==> (mtls(c) || pipe(c) || (tls(c) != nil && tok(c) != "" && c.Kind() == srv.CLIENT && trustedClient(a, tok(c)) && tokHasPerms(tok(c)) && sysGranted(tok(c)) && nonceOK(c)))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert no connection ends up without an account of its own: u.Account == a.systemAccount ==> a.systemAccount != nil
  ensures a system user that fails is denied: (a.systemUser != "" && opts(c).Username == a.systemUser && opts(c).Username != "provisioner" && sys == 0) ==> !ok
  cover system access: ok && sys == 1
  cover normal access: ok && sys == 0
