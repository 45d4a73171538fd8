property P01
alias csec = github.com/choria-io/go-choria/providers/security/choria

extern tokens.ParseClientIDTokenUnverified(t) (c, err) frame
  ensures err == nil ==> clientClaims(t, c)

def ou(t) = unbox(r0(tokens.ParseTokenUnverified(t))["ou"], "string")
def mayManage(t) = tokHasPerms(t) && (tokPerm(t, "fleet_management") || tokPerm(t, "signed_fleet_management"))
def mayManageAlone(t) = tokHasPerms(t) && tokPerm(t, "fleet_management") && !tokPerm(t, "signed_fleet_management")
def delegator(t) = tokHasPerms(t) && tokPerm(t, "authentication_delegator")
def orgKey(s, t) = str(s.conf.Issuers[ou(t)])
def hasOrg(s, t) = typeis(r0(tokens.ParseTokenUnverified(t))["ou"], "string") && has(s.conf.Issuers, ou(t))
def signedBy(d, t, sig) = tokPK(t) != "" && edok(hexdec(tokPK(t)), str(d), str(sig))

verify (s *csec.ChoriaSecurity) VerifySignatureBytes(dat, sig, public) (ok, signer)
  requires s.conf != nil && s.log != nil
  requires issuer and signer keys are keys: forall(k, "string", has(s.conf.Issuers, k) ==> len(s.conf.Issuers[k]) == 32) && forall(i, 0, len(s.conf.TrustedTokenSigners), len(s.conf.TrustedTokenSigners[i]) == 32)
  ensures one or two tokens are needed: ok ==> (len(public) == 1 || len(public) == 2)
  ensures a lone token that is no server must allow unsigned management: (ok && len(public) == 1 && tokens.TokenPurpose(str(public[0])) != tokens.ServerPurpose) ==> mayManageAlone(str(public[0]))
  ensures a lone token is issued by the organization: (ok && len(public) == 1 && len(s.conf.Issuers) > 0) ==> (hasOrg(s, str(public[0])) && (clientTok(str(public[0]), orgKey(s, str(public[0]))) || serverTok(str(public[0]), orgKey(s, str(public[0])))))
  ensures a lone token is signed by a trusted signer: (ok && len(public) == 1 && len(s.conf.Issuers) == 0) ==> exists(i, 0, len(s.conf.TrustedTokenSigners), clientTok(str(public[0]), str(s.conf.TrustedTokenSigners[i])) || serverTok(str(public[0]), str(s.conf.TrustedTokenSigners[i])))
  ensures the data is signed by the key in the token: (ok && len(public) == 1) ==> signedBy(dat, str(public[0]), sig)
  ensures the data is signed by the key of the delegator: (ok && len(public) == 2) ==> signedBy(dat, str(public[1]), sig)
  ensures only delegators sign for others: (ok && len(public) == 2) ==> (delegator(str(public[1])) && mayManage(str(public[0])))
  ensures both tokens are issued by the organization: (ok && len(public) == 2 && len(s.conf.Issuers) > 0) ==> (hasOrg(s, str(public[1])) && clientTok(str(public[1]), orgKey(s, str(public[1]))) && clientTok(str(public[0]), orgKey(s, str(public[1]))))
  ensures both tokens have the same trusted signer: (ok && len(public) == 2 && len(s.conf.Issuers) == 0) ==> exists(i, 0, len(s.conf.TrustedTokenSigners), clientTok(str(public[0]), str(s.conf.TrustedTokenSigners[i])) && clientTok(str(public[1]), str(s.conf.TrustedTokenSigners[i])))
  nopanic
  cover alone: ok && len(public) == 1
  cover delegated: ok && len(public) == 2

verify (s *csec.ChoriaSecurity) ShouldAllowCaller(name, callers) (privileged, err)
  requires s.log != nil
  ensures one or two tokens are needed: err == nil ==> (len(callers) == 1 || len(callers) == 2)
  ensures a lone token names exactly the caller: (err == nil && len(callers) == 1) ==> (tokCaller(str(callers[0])) == name && mayManage(str(callers[0])))
  ensures a second token must be a delegator: (err == nil && len(callers) == 2) ==> (delegator(str(callers[1])) && mayManage(str(callers[0])))
  ensures only delegation is privileged: (err == nil && privileged) ==> len(callers) == 2
  nopanic
  cover alone: err == nil && len(callers) == 1
  cover delegated: err == nil && len(callers) == 2
  cover denied: err != nil
