property B01

include broker.inc

def ordinary(a, u) = !(a.provisioningAccount != nil && u.Account == a.provisioningAccount) && !(a.systemAccount != nil && u.Account == a.systemAccount)

verify (a *net.ChoriaAuth).Check(c) (ok)
  requires a != nil && c != nil && a.log != nil && opts(c) != nil
  requires c.RemoteAddress() != nil
  ghost registered int
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert ordinary connections prove who they are:
     ordinary(a, u)
        ==> (mtls(c) || pipe(c) || (tls(c) != nil && tok(c) != ""))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): assert presented tokens verify and belong to the connection:
     (ordinary(a, u) && tls(c) != nil && tok(c) != "")
        ==> ((trustedClient(a, tok(c)) || trustedServer(a, tok(c))) && nonceOK(c))
  oncall (srv.ClientAuthentication).RegisterUser(_, u): set registered = registered + 1
  ensures admitted only with a registered user: ok ==> registered == 1
  ensures denied connections have no user: !ok ==> registered == 0
  ensures tls is required when configured: (a.isTLS && tls(c) == nil && !pipe(c)) ==> !ok
  cover admitted: ok
  cover denied: !ok
