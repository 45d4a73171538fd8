# aliases shared by all contract files
alias msg = github.com/choria-io/go-choria/message
alias inter = github.com/choria-io/go-choria/inter
alias proto = github.com/choria-io/go-choria/protocol
alias bo = github.com/choria-io/go-choria/backoff
alias watcher = github.com/choria-io/go-choria/aagent/watchers/watcher
alias net = github.com/choria-io/go-choria/broker/network
alias model = github.com/choria-io/go-choria/aagent/model
alias mach = github.com/choria-io/go-choria/aagent/machine

# the standard library
extern time.NewTimer(d) (t)
  ensures t != nil

# ---- signatures, encodings ----
alias ed = crypto/ed25519
alias hexp = encoding/hex
alias b64 = encoding/base64
alias tokens = github.com/choria-io/tokens
alias srv = github.com/nats-io/nats-server/v2/server

ufn edok(key, msg, sig) bool
ufn hexdec(s) string
ufn b64dec(enc, s) string

extern ed.Verify(pk, m, sig) (ok) frame
  requires ed25519 keys are 32 bytes: len(pk) == 32
  ensures ok == edok(str(pk), str(m), str(sig))

extern hexp.DecodeString(s) (b, err) frame
  ensures err == nil ==> str(b) == hexdec(s)

extern (e *b64.Encoding).DecodeString(s) (b, err) frame
  ensures err == nil ==> str(b) == b64dec(e, s)

# ---- JWT library: a token that parses verifies against the key and has the purpose its kind needs ----
ufn clientTok(t, key) bool
ufn clientTokFile(t, file) bool
ufn serverTok(t, key) bool
ufn serverTokFile(t, file) bool
ufn provTok(t, key) bool
ufn provTokFile(t, file) bool
ufn tokPK(t) string
ufn tokCaller(t) string
ufn tokIdentity(t) string
ufn tokOU(t) string
ufn tokPolicy(t) string
ufn tokHasPerms(t) bool
ufn tokPerm(t, p) bool
ufn tokPub(t, s) bool
ufn tokSub(t, s) bool
ufn tokCollective(t, s) bool
ufn tokNCollectives(t) int

def clientPerms(t, p) = p.StreamsAdmin == tokPerm(t, "streams_admin") && p.StreamsUser == tokPerm(t, "streams_user") && p.EventsViewer == tokPerm(t, "events_viewer") && p.ElectionUser == tokPerm(t, "election_user") && p.SystemUser == tokPerm(t, "system_user") && p.Governor == tokPerm(t, "governor") && p.OrgAdmin == tokPerm(t, "org_admin") && p.FleetManagement == tokPerm(t, "fleet_management") && p.SignedFleetManagement == tokPerm(t, "signed_fleet_management") && p.AuthenticationDelegator == tokPerm(t, "authentication_delegator") && p.ServerProvisioner == tokPerm(t, "provisioner")
def clientClaims(t, c) = c != nil && c.PublicKey == tokPK(t) && c.CallerID == tokCaller(t) && c.OrganizationUnit == tokOU(t) && c.OPAPolicy == tokPolicy(t) && (c.Permissions != nil) == tokHasPerms(t) && clientPerms(t, c.Permissions) && forall(i, 0, len(c.AdditionalPublishSubjects), tokPub(t, c.AdditionalPublishSubjects[i])) && forall(i, 0, len(c.AdditionalSubscribeSubjects), tokSub(t, c.AdditionalSubscribeSubjects[i]))
def serverPerms(t, p) = p.Submission == tokPerm(t, "submission") && p.Streams == tokPerm(t, "streams") && p.Governor == tokPerm(t, "governor") && p.ServiceHost == tokPerm(t, "service_host")
def serverClaims(t, c) = c != nil && c.PublicKey == tokPK(t) && c.ChoriaIdentity == tokIdentity(t) && c.OrganizationUnit == tokOU(t) && (c.Permissions != nil) == tokHasPerms(t) && serverPerms(t, c.Permissions) && len(c.Collectives) == tokNCollectives(t) && forall(i, 0, len(c.Collectives), tokCollective(t, c.Collectives[i])) && forall(i, 0, len(c.AdditionalPublishSubjects), tokPub(t, c.AdditionalPublishSubjects[i]))

extern tokens.ParseClientIDToken(t, pk, v) (c, err) frame
  ensures err == nil ==> (clientClaims(t, c) && (v ==> clientTok(t, str(unbox(pk, "ed.PublicKey")))))

extern tokens.ParseClientIDTokenWithKeyfile(t, f, v) (c, err) frame
  ensures err == nil ==> (clientClaims(t, c) && (v ==> clientTokFile(t, f)))

extern tokens.ParseServerToken(t, pk) (c, err) frame
  ensures err == nil ==> (serverClaims(t, c) && serverTok(t, str(unbox(pk, "ed.PublicKey"))))

extern tokens.ParseServerTokenWithKeyfile(t, f) (c, err) frame
  ensures err == nil ==> (serverClaims(t, c) && serverTokFile(t, f))

extern tokens.ParseProvisioningToken(t, pk) (c, err) frame
  ensures err == nil ==> (c != nil && provTok(t, str(unbox(pk, "ed.PublicKey"))))

extern tokens.ParseProvisioningTokenWithKeyfile(t, f) (c, err) frame
  ensures err == nil ==> (c != nil && provTokFile(t, f))

pure tokens.ParseTokenUnverified tokens.TokenPurpose tokens.TokenSigningAlgorithm

# ---- the broker's view of a connection does not change while it is being authenticated ----
pure (srv.ClientAuthentication).GetOpts (srv.ClientAuthentication).RemoteAddress (srv.ClientAuthentication).GetTLSConnectionState (srv.ClientAuthentication).GetNonce (srv.ClientAuthentication).Kind (net.Addr).String
