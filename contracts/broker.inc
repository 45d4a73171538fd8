def opts(c) = c.GetOpts()
def pipe(c) = c.RemoteAddress() != nil && c.RemoteAddress().String() == "pipe"
def tls(c) = c.GetTLSConnectionState()
def mtls(c) = tls(c) != nil && len(tls(c).VerifiedChains) > 0
def tok(c) = opts(c).Token

def nonceOK(c) = opts(c).Sig != "" && len(c.GetNonce()) > 0 && tokPK(tok(c)) != "" && edok(hexdec(tokPK(tok(c))), str(c.GetNonce()), b64dec(base64.RawURLEncoding, opts(c).Sig))
def ou(t) = unbox(r0(tokens.ParseTokenUnverified(t))["ou"], "string")
def issuerKey(a, t) = hexdec(a.issuerTokens[ou(t)])
def hasIssuer(a, t) = typeis(r0(tokens.ParseTokenUnverified(t))["ou"], "string") && has(a.issuerTokens, ou(t))
def trustedClient(a, t) = (len(a.issuerTokens) > 0 ==> (hasIssuer(a, t) && clientTok(t, issuerKey(a, t)))) && (len(a.issuerTokens) == 0 ==> exists(i, 0, len(a.clientJwtSigners), clientTok(t, hexdec(a.clientJwtSigners[i])) || clientTokFile(t, a.clientJwtSigners[i])))
def trustedServer(a, t) = (len(a.issuerTokens) > 0 ==> (hasIssuer(a, t) && serverTok(t, issuerKey(a, t)))) && (len(a.issuerTokens) == 0 ==> exists(i, 0, len(a.serverJwtSigners), serverTok(t, hexdec(a.serverJwtSigners[i])) || serverTokFile(t, a.serverJwtSigners[i])))

verify (a *net.ChoriaAuth).cachedEd25519Token(token) (pk, err)
  modular
  invariant forall(k, "string", has(a.tokenCache, k) ==> str(a.tokenCache[k]) == hexdec(k))
  ensures key is the decoded token: err == nil ==> str(pk) == hexdec(token)
  owns ChoriaAuth.tokenCache
  modifies a.tokenCache, a.tokenCache[*], a.mu

