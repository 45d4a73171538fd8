property P03
alias fsec = github.com/choria-io/go-choria/providers/security/filesec
alias x5 = crypto/x509
alias pemp = encoding/pem
alias rsap = crypto/rsa

# what PEM and DER input means is left to the standard library
ufn pemOK(d) bool
ufn pemDer(d) string
ufn certCN(der) string
ufn certDNS(der, n) bool
ufn certMail(der, n) bool
ufn certRSA(der) bool
ufn certKey(der) int
ufn rsaOK(key, hashed, sig) bool

extern pemp.Decode(d) (b, rest) frame
  ensures b == nil ==> !pemOK(str(d))
  ensures b != nil ==> (pemOK(str(d)) && str(b.Bytes) == pemDer(str(d)))
extern x5.ParseCertificate(d) (c, err) frame
  ensures err == nil ==> (c != nil && str(c.Raw) == str(d) && c.Subject.CommonName == certCN(str(d)) && forall(i, 0, len(c.DNSNames), certDNS(str(d), c.DNSNames[i])) && forall(i, 0, len(c.EmailAddresses), certMail(str(d), c.EmailAddresses[i])))
extern x5.NewCertPool() (p) frame
  fresh p
  ensures p != nil
extern (*x5.CertPool).AppendCertsFromPEM(p, d) (ok) frame
  ensures true
extern (*x5.Certificate).Verify(c, opts) (chains, err) frame
  ensures true
extern rsap.VerifyPKCS1v15(k, h, d, s) (err) frame
  ensures true

def slashed(r) = regexp.MustCompile("^/.+/$").MatchString(r)
def pat(r) = ite(slashed(r), strings.TrimRight(strings.TrimLeft(r, "/"), "/"), r)
def rx(r, s) = r0(regexp.MatchString(pat(r), s))
def listed(list, s) = exists(i, 0, len(list), rx(list[i], s))

verify fsec.MatchAnyRegex(s, list) (ok)
  modular
  ensures a name matches when some pattern does: ok == listed(list, s)
  modifies nothing
  cover matched: ok
  cover not matched: !ok

group certs
  ghost cadata string
  ghost haveca bool
  ghost capool set[ref]
  ghost tainted set[ref]
  ghost verified bool
  ghost vder string
  oncall os.ReadFile(f) (d, e): set haveca = ite(f == s.caPath(), e == nil, haveca)
  oncall os.ReadFile(f) (d, e): set cadata = ite(f == s.caPath(), str(d), cadata)
  oncall (*x5.CertPool).AppendCertsFromPEM(p, d) (ok): set capool[p] = capool[p] || (ok && haveca && str(d) == cadata)
  oncall (*x5.CertPool).AppendCertsFromPEM(p, d) (ok): set tainted[p] = tainted[p] || !(haveca && str(d) == cadata)
  oncall (*x5.CertPool).AddCert(p, c): maybe set tainted[p] = true
  oncall (*x5.CertPool).AddCertWithConstraint(p, c): maybe set tainted[p] = true
  oncall (*x5.Certificate).Verify(c, o) (chains, e): set verified = e == nil && o.Roots != nil && capool[o.Roots] && !tainted[o.Roots] && len(o.KeyUsages) > 0 && forall(i, 0, len(o.KeyUsages), o.KeyUsages[i] == x509.ExtKeyUsageClientAuth)
  oncall (*x5.Certificate).Verify(c, o) (chains, e): set vder = str(c.Raw)

def named(der, n) = certCN(der) == n || certDNS(der, n) || (prefix(n, "email:") && certMail(der, strings.TrimPrefix(n, "email:")))
def trusted(d) = pemOK(str(d)) && verified && vder == pemDer(str(d))

verify (s *fsec.FileSecurity) VerifyCertificate(certpem, name) (err)
  requires s.conf != nil
  use certs
  ensures only PEM certificates: err == nil ==> pemOK(str(certpem))
  ensures only certificates that chain to the configured CA: err == nil ==> verified
  ensures only the certificate presented: err == nil ==> vder == pemDer(str(certpem))
  ensures only certificates of the name: (err == nil && name != "") ==> named(pemDer(str(certpem)), name)
  cover accepted: err == nil && name != ""
  cover accepted by mail: err == nil && prefix(name, "email:")

verify (s *fsec.FileSecurity) ShouldAllowCaller(name, callers) (priv, err)
  requires s.conf != nil
  use certs
  ensures exactly one certificate: err == nil ==> len(callers) == 1
  ensures only PEM certificates: err == nil ==> pemOK(str(callers[0]))
  ensures only certificates that chain to the configured CA: err == nil ==> verified
  ensures only the certificate presented: err == nil ==> vder == pemDer(str(callers[0]))
  ensures privileged callers are on the privileged list: (err == nil && priv) ==> exists(i, 0, len(s.conf.PrivilegedUsers), exists(n, "string", named(pemDer(str(callers[0])), n) && rx(s.conf.PrivilegedUsers[i], n)))
  ensures other callers have a certificate of their name: (err == nil && !priv && name != "") ==> named(pemDer(str(callers[0])), name)
  ensures other callers are on the allow list: (err == nil && !priv) ==> listed(s.conf.AllowList, name)
  ensures failed callers are not privileged: err != nil ==> !priv
  cover privileged: err == nil && priv
  cover allowed: err == nil && !priv

verify (s *fsec.FileSecurity) VerifySignatureBytes(dat, sig, public) (ok, who)
  requires s.conf != nil
  ghost rok bool
  ghost rdat string
  ghost rsig string
  ghost rkey ref
  ghost pder string
  ghost pkey ref
  oncall x5.ParseCertificate(d) (c, e): set pder = str(d)
  oncall x5.ParseCertificate(d) (c, e): set pkey = unbox(c.PublicKey, "*rsap.PublicKey")
  oncall rsap.VerifyPKCS1v15(k, h, d, sg) (e): set rok = e == nil && h == crypto.SHA256
  oncall rsap.VerifyPKCS1v15(k, h, d, sg) (e): set rdat = str(d)
  oncall rsap.VerifyPKCS1v15(k, h, d, sg) (e): set rsig = str(sg)
  oncall rsap.VerifyPKCS1v15(k, h, d, sg) (e): set rkey = k
  ensures exactly one certificate: ok ==> len(public) == 1
  ensures the signature verified: ok ==> rok
  ensures the signature is the one presented: ok ==> rsig == str(sig)
  ensures the signature is over the data presented: ok ==> rdat == str(s.ChecksumBytes(dat))
  ensures the signature verified with the key of the certificate: ok ==> rkey == pkey
  ensures the certificate is the one presented: (ok && len(public[0]) > 0) ==> (pemOK(str(public[0])) && pder == pemDer(str(public[0])))
  nopanic
  cover verified: ok
