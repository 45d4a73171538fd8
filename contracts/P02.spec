property P02
alias v1 = github.com/choria-io/go-choria/protocol/v1
alias v2 = github.com/choria-io/go-choria/protocol/v2
alias b64s = encoding/base64
alias js = encoding/json
alias message = github.com/choria-io/go-choria/message
alias choria = github.com/choria-io/go-choria/choria

pure (inter.SecurityProvider).ChecksumBytes (inter.SecurityProvider).CallerIdentity (inter.SecurityProvider).BackingTechnology
pure (proto.TransportMessage).Message (proto.SecureRequest).Message (proto.SecureReply).Message (proto.SecureRequest).Version (proto.SecureReply).Version

def certOf(sec, caller) = r0(sec.CallerIdentity(caller))

group v2req
  ghost sigOK bool
  ghost sdat string
  ghost ssig string
  ghost sids int
  ghost sid0 string
  ghost sid1 string
  ghost allowed bool
  ghost aname string
  ghost aids int
  ghost aid0 string
  ghost aid1 string
  ghost parsed string
  ghost caller string
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set sigOK = ok
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set sdat = str(d)
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set ssig = str(s)
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set sids = len(p)
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set sid0 = str(p[0])
  oncall (inter.SecurityProvider).VerifySignatureBytes(_, d, s, p) (ok, who): set sid1 = str(p[1])
  oncall (inter.SecurityProvider).ShouldAllowCaller(_, n, p) (priv, e): set allowed = e == nil
  oncall (inter.SecurityProvider).ShouldAllowCaller(_, n, p) (priv, e): set aname = n
  oncall (inter.SecurityProvider).ShouldAllowCaller(_, n, p) (priv, e): set aids = len(p)
  oncall (inter.SecurityProvider).ShouldAllowCaller(_, n, p) (priv, e): set aid0 = str(p[0])
  oncall (inter.SecurityProvider).ShouldAllowCaller(_, n, p) (priv, e): set aid1 = str(p[1])
  oncall js.Unmarshal(d, v) (e): set parsed = ite(typeis(v, "*v2.Request") || typeis(v, "*v1.Request"), str(d), parsed)
  oncall js.Unmarshal(d, v) (e): set caller = ite(typeis(v, "*v2.Request"), unbox(v, "*v2.Request").ReqEnvelope.CallerID, ite(typeis(v, "*v1.Request"), unbox(v, "*v1.Request").Envelope.CallerID, caller))

verify (r *v2.SecureRequest) Valid() (ok)
  use v2req
  requires r.security != nil && proto.IsSecure()
  ensures the signature over exactly the message verified: ok ==> (sigOK && sdat == str(r.MessageBody) && ssig == str(r.Signature))
  ensures the signature verified against the presented identities: ok ==> (sid0 == r.CallerJWT && ite(r.SignerJWT != "", sids == 2 && sid1 == r.SignerJWT, sids == 1))
  ensures the caller named in the message is allowed: ok ==> (allowed && parsed == str(r.MessageBody) && aname == caller)
  ensures the caller is allowed by the presented identities: ok ==> (aid0 == r.CallerJWT && ite(r.SignerJWT != "", aids == 2 && aid1 == r.SignerJWT, aids == 1))
  cover accepted: ok
  cover delegated: ok && r.SignerJWT != ""
  cover refused: !ok && sigOK

verify v2.NewSecureRequestFromTransport(m, sec, skip) (q, err)
  use v2req
  requires sec != nil && m != nil && proto.IsSecure()
  def R(q) = unbox(q, "*v2.SecureRequest")
  ensures a secure request results: (err == nil && !skip) ==> (typeis(q, "*v2.SecureRequest"))
  ensures the signature over exactly the message verified: (err == nil && !skip) ==> (sigOK && sdat == str(R(q).MessageBody) && ssig == str(R(q).Signature))
  ensures the signature verified against the presented identities: (err == nil && !skip) ==> (sid0 == R(q).CallerJWT && ite(R(q).SignerJWT != "", sids == 2 && sid1 == R(q).SignerJWT, sids == 1))
  ensures the caller named in the message is allowed: (err == nil && !skip) ==> (allowed && parsed == str(R(q).MessageBody) && aname == caller)
  ensures only token based security: err == nil ==> sec.BackingTechnology() == inter.SecurityTechnologyED25519JWT
  cover accepted: err == nil && !skip

verify (r *v1.SecureRequest) Valid() (ok)
  use v2req
  requires r.security != nil && proto.IsSecure()
  ensures the signature over exactly the message verified: ok ==> (sigOK && sdat == r.MessageBody && ssig == b64dec(base64.StdEncoding, r.Signature))
  ensures the signature verified against the presented certificate: ok ==> (sids == 1 && sid0 == r.PublicCertificate)
  ensures the caller named in the message is allowed: ok ==> (allowed && parsed == r.MessageBody && aname == certOf(r.security, caller))
  ensures the caller is allowed by the presented certificate: ok ==> (aids == 1 && aid0 == r.PublicCertificate)
  cover accepted: ok
  cover refused: !ok && allowed

verify v1.NewSecureRequestFromTransport(m, sec, skip) (q, err)
  use v2req
  requires sec != nil && m != nil && proto.IsSecure()
  def Q(q) = unbox(q, "*v1.SecureRequest")
  ensures a secure request results: (err == nil && !skip) ==> (typeis(q, "*v1.SecureRequest"))
  ensures the signature over exactly the message verified: (err == nil && !skip) ==> (sigOK && sdat == Q(q).MessageBody && ssig == b64dec(base64.StdEncoding, Q(q).Signature))
  ensures the signature verified against the presented certificate: (err == nil && !skip) ==> (sids == 1 && sid0 == Q(q).PublicCertificate)
  ensures the caller named in the message is allowed: (err == nil && !skip) ==> (allowed && parsed == Q(q).MessageBody && aname == certOf(Q(q).security, caller))
  cover accepted: err == nil && !skip

verify (r *v2.SecureReply) Valid() (ok)
  requires r.security != nil
  ensures the hash matches the reply: ok == (base64.StdEncoding.EncodeToString(r.security.ChecksumBytes(r.MessageBody)) == r.Hash)
  locks
verify (r *v1.SecureReply) Valid() (ok)
  requires r.security != nil
  ensures the hash matches the reply: ok == (base64.StdEncoding.EncodeToString(r.security.ChecksumBytes(bytes(r.MessageBody))) == r.Hash)
  locks

verify v2.NewSecureReplyFromTransport(m, sec, skip) (q, err)
  requires sec != nil && m != nil
  def P(q) = unbox(q, "*v2.SecureReply")
  ensures the hash matches the reply: (err == nil && !skip) ==> (typeis(q, "*v2.SecureReply") && base64.StdEncoding.EncodeToString(P(q).security.ChecksumBytes(P(q).MessageBody)) == P(q).Hash)
  cover accepted: err == nil && !skip
verify v1.NewSecureReplyFromTransport(m, sec, skip) (q, err)
  requires sec != nil && m != nil
  def P1(q) = unbox(q, "*v1.SecureReply")
  ensures the hash matches the reply: (err == nil && !skip) ==> (typeis(q, "*v1.SecureReply") && base64.StdEncoding.EncodeToString(P1(q).security.ChecksumBytes(bytes(P1(q).MessageBody))) == P1(q).Hash)
  cover accepted: err == nil && !skip

# what is acted on is exactly what was signed, on behalf of the caller named in it
verify v2.NewRequestFromSecureRequest(sr) (q, err)
  use v2req
  requires sr != nil
  def S2(q) = unbox(q, "*v2.SecureRequest")
  ensures the request is what the secure request carries: err == nil ==> (typeis(q, "*v2.Request") && parsed == str(sr.Message()) && unbox(q, "*v2.Request").ReqEnvelope.CallerID == caller)
  ensures the identities stay with the request: err == nil ==> (unbox(q, "*v2.Request").callerJWT == S2(sr).CallerJWT && unbox(q, "*v2.Request").signerJWT == S2(sr).SignerJWT)
  cover opened: err == nil

verify v1.NewRequestFromSecureRequest(sr) (q, err)
  use v2req
  requires sr != nil
  ensures the request is what the secure request carries: err == nil ==> (typeis(q, "*v1.Request") && parsed == str(sr.Message()) && unbox(q, "*v1.Request").Envelope.CallerID == caller)
  cover opened: err == nil

group reply
  ghost body string
  ghost from string
  oncall js.Unmarshal(d, v) (e): set body = ite(typeis(v, "*v2.Reply") || typeis(v, "*v1.Reply"), str(d), body)
  oncall js.Unmarshal(d, v) (e): set from = ite(typeis(v, "*v2.Reply"), unbox(v, "*v2.Reply").Sender, ite(typeis(v, "*v1.Reply"), unbox(v, "*v1.Reply").Envelope.SenderID, from))

verify v2.NewReplyFromSecureReply(sr) (q, err)
  use reply
  requires sr != nil
  ensures the reply is what the secure reply carries: err == nil ==> (typeis(q, "*v2.Reply") && body == str(sr.Message()) && unbox(q, "*v2.Reply").Sender == from)
  cover opened: err == nil

verify v1.NewReplyFromSecureReply(sr) (q, err)
  use reply
  requires sr != nil
  ensures the reply is what the secure reply carries: err == nil ==> (typeis(q, "*v1.Reply") && body == str(sr.Message()) && unbox(q, "*v1.Reply").Envelope.SenderID == from)
  cover opened: err == nil

verify (r *v2.SecureRequest) Message() (m)
  ensures the signed bytes: m == r.MessageBody
verify (r *v1.SecureRequest) Message() (m)
  ensures the signed bytes: str(m) == r.MessageBody
verify (r *v2.SecureReply) Message() (m)
  ensures the hashed bytes: m == r.MessageBody
verify (r *v1.SecureReply) Message() (m)
  ensures the hashed bytes: str(m) == r.MessageBody
verify (r *v2.Request) CallerID() (c)
  ensures the caller of the message: c == r.ReqEnvelope.CallerID
verify (r *v1.Request) CallerID() (c)
  requires r.Envelope != nil
  ensures the caller of the message: c == r.Envelope.CallerID
verify (r *v2.Request) CallerPublicData() (c)
  ensures the identity of the message: c == r.callerJWT
verify (r *v2.Request) SignerPublicData() (c)
  ensures the signer of the message: c == r.signerJWT

# the framework neither skips validation on its own nor swaps messages or security providers
group requests
  ghost valid bool
  ghost made any
  oncall v1.NewSecureRequestFromTransport(m, sec, skip) (q, e): assert validated as asked by the configured provider: sec == fw.security && m == message && (skip ==> skipvalidate)
  oncall v1.NewSecureRequestFromTransport(m, sec, skip) (q, e): set valid = e == nil
  oncall v1.NewSecureRequestFromTransport(m, sec, skip) (q, e): set made = q
  oncall v2.NewSecureRequestFromTransport(m, sec, skip) (q, e): assert validated as asked by the configured provider: sec == fw.security && m == message && (skip ==> skipvalidate)
  oncall v2.NewSecureRequestFromTransport(m, sec, skip) (q, e): set valid = e == nil
  oncall v2.NewSecureRequestFromTransport(m, sec, skip) (q, e): set made = q
  opaque v1.NewSecureRequestFromTransport v2.NewSecureRequestFromTransport

verify (fw *choria.Framework) NewSecureRequestFromTransport(message, skipvalidate) (q, err)
  use requests
  requires message != nil
  ensures only what validated: err == nil ==> (valid && q == made)
  cover made: err == nil

# the framework neither skips validation on its own nor swaps messages or security providers
group replies
  ghost valid bool
  ghost made any
  oncall v1.NewSecureReplyFromTransport(m, sec, skip) (q, e): assert validated as asked by the configured provider: sec == fw.security && m == message && (skip ==> skipvalidate)
  oncall v1.NewSecureReplyFromTransport(m, sec, skip) (q, e): set valid = e == nil
  oncall v1.NewSecureReplyFromTransport(m, sec, skip) (q, e): set made = q
  oncall v2.NewSecureReplyFromTransport(m, sec, skip) (q, e): assert validated as asked by the configured provider: sec == fw.security && m == message && (skip ==> skipvalidate)
  oncall v2.NewSecureReplyFromTransport(m, sec, skip) (q, e): set valid = e == nil
  oncall v2.NewSecureReplyFromTransport(m, sec, skip) (q, e): set made = q
  opaque v1.NewSecureReplyFromTransport v2.NewSecureReplyFromTransport

verify (fw *choria.Framework) NewSecureReplyFromTransport(message, skipvalidate) (q, err)
  use replies
  requires message != nil
  ensures only what validated: err == nil ==> (valid && q == made)
  cover made: err == nil

extern proto.CopyFederationData(a, b) frame
  ensures true

group chain
  ghost tr any
  ghost decoded bool
  ghost sec any
  ghost valid bool
  ghost req any
  ghost opened bool
  opaque (*choria.Framework).NewTransportFromJSON (*choria.Framework).NewSecureRequestFromTransport (*choria.Framework).NewSecureReplyFromTransport (*choria.Framework).NewRequestFromSecureRequest (*choria.Framework).NewReplyFromSecureReply
  oncall (*choria.Framework).NewTransportFromJSON(_, d) (t, e): set tr = t
  oncall (*choria.Framework).NewTransportFromJSON(_, d) (t, e): set decoded = e == nil && d == payload

group chainRequest
  oncall (*choria.Framework).NewSecureRequestFromTransport(_, t, skip) (q, e): set valid = e == nil && decoded && t == tr && (skip ==> skipping)
  oncall (*choria.Framework).NewSecureRequestFromTransport(_, t, skip) (q, e): set sec = q
  oncall (*choria.Framework).NewRequestFromSecureRequest(_, q) (r, e): set opened = e == nil && valid && q == sec
  oncall (*choria.Framework).NewRequestFromSecureRequest(_, q) (r, e): set req = r

verify (fw *choria.Framework) NewRequestMessageFromTransportJSON(payload) (m, err)
  ghost skipping bool
  use chain
  use chainRequest
  ghost from any
  oncall message.NewMessageFromRequest(r, t, f) (m, e): set from = ite(e == nil, r, nil)
  opaque message.NewMessageFromRequest
  ensures only from a validated request: err == nil ==> (opened && from == req)
  cover made: err == nil

verify (fw *choria.Framework) NewRequestFromTransportJSON(payload, skipvalidate) (r, err)
  ghost skipping bool = skipvalidate
  use chain
  use chainRequest
  ensures only from a validated request: err == nil ==> (opened && r == req)
  cover made: err == nil

verify (fw *choria.Framework) NewReplyFromTransportJSON(payload, skipvalidate) (r, err)
  use chain
  oncall (*choria.Framework).NewSecureReplyFromTransport(_, t, skip) (q, e): set valid = e == nil && decoded && t == tr && (skip ==> skipvalidate)
  oncall (*choria.Framework).NewSecureReplyFromTransport(_, t, skip) (q, e): set sec = q
  oncall (*choria.Framework).NewReplyFromSecureReply(_, q) (r, e): set opened = e == nil && valid && q == sec
  oncall (*choria.Framework).NewReplyFromSecureReply(_, q) (r, e): set req = r
  ensures only from a validated reply: err == nil ==> (opened && r == req)
  cover made: err == nil
