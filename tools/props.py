#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

A="broker/network/choria_auth.go"
p("B01","Broker admits ordinary connections only after proof of identity",
 "When the broker admits a connection into an account other than the system and the provisioning account, then either its TLS peer certificate was verified, or it is an in-process pipe, or it presented a token over TLS. A token that is presented over TLS must be a client or server token that verifies against a configured signer (or the issuer configured for the token's organization unit when issuers are configured), and the connection nonce must be signed by the private key belonging to the public key inside that same token. In every other case the connection is denied and no user is registered for it.",
 ["inputs","configurations"],"every token, signature, nonce, TLS state, remote address and broker configuration",
 "the admission decision is a conjunction over many independently controlled inputs (token purpose, signer list, issuer map, signature, nonce, key, TLS state); tests sample a few dozen combinations, an attacker picks the combination nobody sampled",
 [A],[("connection check and default connection handling",A+": Check, handleDefaultConnection"),("nonce signature verification",A+": verifyNonceSignature"),("token parsing against signers and issuers",A+": parseClientIDJWT, parseServerJWT")],["issuerTokens","clientJwtSigners","serverJwtSigners"],["user registration on the connection","returned admission decision"])
p("B02","System account needs system credentials and a trusted transport",
 "The broker places a connection in the system account only when a system user and password are configured and the connection supplied exactly these. Additionally the connection must have a verified TLS certificate, be an in-process pipe, or be a TLS client connection carrying a verified client token that has the system user or organization administrator permission and whose key signed the connection nonce.",
 ["inputs","configurations"],"every credential pair, token, transport state and broker configuration",
 "the system account gives control over the whole broker and the paths to it are spread over several handlers; only enumeration of all input combinations shows there is no other path",
 [A],[("system account handlers",A+": handleVerifiedSystemAccount, handleUnverifiedSystemAccount, Check")],["systemUser","systemPass","systemAccount"],["account of the registered user"])
p("B03","Provisioning connections are isolated and authenticated",
 "A connection using the provisioner user name is only admitted into the provisioning account, with the configured non-empty provisioner password, and additionally either with a verified TLS certificate or, when organization issuers are configured, with a client token from a configured issuer holding the server provisioner permission (a token may be absent only if the broker was configured to allow that). An unprovisioned server falling back to provisioning over unverified TLS is only admitted with a provisioning token that verifies against the configured issuer or provisioning signer, always lands in the provisioning account, and may only use the fixed provisioning subjects.",
 ["inputs","configurations"],"every provisioning connection, token and broker configuration",
 "provisioning is reachable by completely untrusted nodes; the guarantee concerns every combination of issuer, signer, password and token settings",
 [A],[("provisioner user handling",A+": handleProvisioningUserConnection*"),("unverified provisioning servers",A+": handleUnverifiedProvisioningConnection*, setProvisioningServerPermissions")],["provisioningAccount","provPass"],["account and permissions of the registered user"])
p("B04","Client subject permissions never exceed what the token grants",
 "For every client token the broker grants publish and subscribe access only to the caller's private reply subjects, the user information subject, the additional subjects listed in the token, and the fixed subject sets belonging to permissions present in the token; only organization administrators get access to all subjects. Reply subscriptions of an identified caller are always limited to subjects derived from a hash of that caller identity, and streams, election, governor and event subjects are only granted in the accounts they belong to.",
 ["inputs","configurations"],"every combination of claims, caller, account and additional subjects",
 "permissions are independent boolean claims whose combinations (and account interplay) grow exponentially; one wrong combination grants fleet wide access",
 [A],[("client permission construction",A+": setClientPermissions, setClientTokenPermissions, set*Permissions")],["user permissions"],["permissions of the registered user"])
p("B05","Server connections are confined to their collectives and identity",
 "A server admitted by token may subscribe only to broadcast agent subjects, its own node subject and its own hashed reply subjects in the collectives in its token (plus service requests, streams and republish subjects where the token allows those), and may publish only replies, registration, federation and lifecycle style subjects of those collectives, token listed extra subjects, and submission, governor and stream subjects where the token allows those. A token without collectives, or a broker that denies servers, results in no access to any subject.",
 ["inputs","configurations"],"every server token and any number of collectives",
 "loops over collectives combined with optional permissions produce unbounded permission sets; tests check fixed examples",
 [A],[("server permission construction",A+": setServerPermissions, setClaimsBasedServerPermissions, setDefaultServerPermissions")],["user permissions"],["permissions of the registered user"])

C="providers/security/choria/choria_security.go"
p("P01","Callers are authorized only with valid delegation",
 "With token based security a caller named in a request is allowed only if the caller's token verifies against a trusted signer and names exactly that caller, and: either that caller may manage the fleet unsigned, or a second, delegator, token that verifies and holds the authentication delegator permission is presented. Callers whose token requires signed requests are never allowed without a delegator.",
 ["inputs","configurations"],"every caller name, list of presented tokens, signer and issuer configuration",
 "token lists and permissions are attacker supplied; the decision must be right for every combination of signed, unsigned, expired and delegated tokens",
 [C],[("caller authorization",C+": ShouldAllowCaller"),("signature verification",C+": VerifySignatureBytes")],None,["returned error and resolved name"])
p("P02","Secure requests and replies are accepted only with intact signatures",
 "A secure request is considered valid only if its signature over exactly the message bytes it carries verifies against the identities presented with it and the security layer allows the caller named in that message; a secure reply is considered valid only if its hash matches exactly the reply bytes it carries. Decoding a secure message or request from a transport fails whenever validation fails.",
 ["inputs"],"every message, signature and identity set, in both protocol generations",
 "validity quantifies over all byte strings an attacker can send, tests only cover a few tampered examples",
 ["protocol/v1/secure_request.go","protocol/v2/secure_request.go","protocol/v1/secure_reply.go","protocol/v2/secure_reply.go"],
 [("request validation","protocol/v{1,2}/secure_request.go: Valid"),("reply validation","protocol/v{1,2}/secure_reply.go: Valid"),("construction from transport","protocol/v{1,2}/constructors.go"),("framework entry points","choria/protocol.go: New*FromTransportJSON, NewSecure*FromTransport")],None,["Valid result, constructor errors"])
FS="providers/security/filesec/file_security.go"
p("P03","Certificate based callers are authorized only with a trusted certificate",
 "With file based security a caller is allowed only if the presented certificate is a certificate that chains to the configured CA and its name is the caller's own certificate name on the allow list, or belongs to a privileged user allow list. Input that is not a parseable certificate, or a CA that cannot be read, never results in a caller being allowed.",
 ["inputs","configurations"],"every byte string presented as certificate, every caller name and allow list",
 "the accepting condition must be false for every malformed certificate, and there are infinitely many of those",
 [FS],[("certificate verification",FS+": VerifyCertificate"),("caller authorization",FS+": ShouldAllowCaller")],None,["returned errors"])
p("P04","A server acts on a request only when every filter matches",
 "A request is processed by a server only if it matches every kind of filter it carries: its identity, its agents, classes, facts and compound filters must all match, and a request with an empty filter matches every server. No filter kind that is present in a request is ever ignored.",
 ["inputs"],"every filter, node state and order of filters",
 "a filter decides which of potentially many thousand nodes run an action; tests cover single filters and few combinations",
 ["protocol/filter.go","filter/identity/identity.go","filter/agents/agents.go","filter/classes/classes.go","filter/facts/facts.go"],
 [("conjunction of filters","protocol/filter.go: MatchServerRequest"),("individual matchers","filter/*")],None,["boolean match result"])
p("P05","Fact comparisons follow their operator",
 "For every fact value and filter value a fact filter matches exactly as its operator says: equality, inequality, less, greater and their inclusive forms compare as floating point numbers when the fact is a number and the filter value has a decimal point, as whole numbers when the filter value is one, as truth values when the fact is one, and as text otherwise; patterns match the text of the fact, and a fact that does not exist never matches. Strict comparisons never match equal values.",
 ["inputs"],"every pair of fact value and filter value and every operator",
 "boundary cases such as equal floating point values are not sampled by the tests",
 ["filter/facts/facts.go","filter/facts/matchers.go"],[("operators","filter/facts: eqMatch, ltMatch, gtMatch, leMatch, geMatch")],None,["boolean match result"])

p("S01","Requests run the full admission pipeline before reaching an agent",
 "A received message is dispatched to an agent only after it was decoded, its secure envelope validated, its filter matched this server and its age was found to be within its time to live. If any of these steps fails the message is dropped and no agent sees it.",
 ["inputs","fault_sequences"],"every received message and every failing step",
 "requires that on no path through the processing code a step is skipped; tests observe single failures",
 ["server/processor.go"],[("message processing","server/processor.go: handleRawMessage")],None,["dispatch to the agents manager"])
p("S02","Messages outside their time to live are rejected",
 "A message is accepted only if its timestamp is not older than its time to live and not further in the future than its time to live, for every timestamp and every time to live.",
 ["inputs"],"every timestamp, current time and TTL value",
 "boundaries and clock skew in both directions form a continuous space",
 ["message/message.go"],[("TTL validation","message/message.go: ValidateTTL")],None,["returned error"])
p("S03","Outgoing messages target exactly what they declare",
 "A message can only be given a known type and a collective the node belongs to, a direct request cannot be made without discovered hosts and only requests can be given a reply target; refused changes leave the message unchanged. A request is only encoded for the network with a reply target, a protocol version and, where the configuration requires it, a filter, and a reply carries the identifiers, collective and reply subject of its request. Messages are only published to the subject that follows from their type, collective, agent, reply target and custom target, or to a federation on behalf of that subject.",
 ["inputs","configurations"],"every type, collective and version string",
 "quantifies over all strings and configurations",
 ["message/message.go","choria/connection.go"],[("setters and validation","message/message.go: SetType, SetCollective, SetReplyTo, Validate, Transport, NewMessage, NewMessageFromRequest"),("publishing","choria/connection.go: Publish, TargetForMessage")],None,["returned errors, message state, published subjects"])
p("S04","Agents are registered once and only registered agents get requests",
 "An agent is only registered when it is not denied by configuration, its metadata is valid, it permits activation and no agent of that name exists; a failed registration leaves no trace that would prevent a later one. A request for an unknown agent is never handed to any agent.",
 ["inputs","fault_sequences","histories"],"every registration history including failing subscriptions",
 "requires reasoning about all failure points within registration",
 ["server/agents/agents.go"],[("registration and dispatch","server/agents/agents.go: RegisterAgent, subscribeAgent, Dispatch")],["agents and subs maps"],["registered agents"])

M="providers/agent/mcorpc/agent.go"
p("R01","RPC actions run only after authorization",
 "An RPC action handler is invoked only for a known action with a request that parsed and, when authorization is enabled, was allowed by the configured authorization provider. Unknown providers and authorization errors deny, and a denied or unknown request is answered with an error status without the action running.",
 ["inputs","configurations"],"every request, action name and authorization outcome",
 "the guarantee is about the absence of any other path to the action handlers",
 [M,"providers/agent/mcorpc/agent.go"],[("request handling",M+": HandleMessage"),("authorization",M+": authorize, AuthorizeRequest")],None,["action invocation"])
AP="providers/agent/mcorpc/authz_actionpolicy.go"
p("R02","Action policies are evaluated first match wins and default deny",
 "A request is decided by the policy file of its agent, or by the default policy file where that is enabled and the agent has none. A policy file decides a request by the first policy line whose caller, action, facts and classes all match; if no line matches the last default line of the policy decides and in absence of one the request is denied unless the server is configured to allow unconfigured agents. Errors and malformed lines never allow a request, and callers belong to exactly the groups the groups file lists them in.",
 ["inputs","configurations"],"every policy file, caller, action and node state",
 "policy files and requests are unbounded text",
 [AP],[("policy evaluation",AP+": evaluatePolicy, checkRequestAgainstPolicy"),("policy lookup and groups",AP+": lookupPolicyFile, parseGroupFile")],None,["authorization result"])
AJ="providers/agent/mcorpc/authz_jwt.go"
p("R03","Token listed agents limit what a caller can run",
 "With token based authorization an action is allowed only if the caller's token lists all agents, lists the agent with all its actions, or lists exactly that agent and action, or its embedded policy allows it. Tokens with neither or both of a list and a policy deny.",
 ["inputs"],"every agent list, agent name and action name",
 "string splitting and prefix rules over unbounded lists",
 [AJ],[("agent list evaluation",AJ+": EvaluateAgentListPolicy"),("token evaluation",AJ)],None,["authorization result"])
DD="providers/agent/mcorpc/ddl/agent/action.go"
p("R04","Request inputs are validated against the interface description",
 "Data is accepted for an action only if every required input is present, no undeclared input is present, and every value has the declared type and passes the declared length limit and validation. Inputs given as text are converted to their declared type before they are checked, and inputs that were not given take exactly their declared default. The first violation is reported as an error naming the input.",
 ["inputs"],"every set of inputs, every declared interface and every value",
 "values and interfaces are unbounded; tests cover a handful of interfaces",
 [DD,"providers/agent/mcorpc/ddl/common/input_item.go"],[("request validation",DD+": ValidateRequestData"),("value validation","providers/agent/mcorpc/ddl/common/input_item.go: ValidateValue")],None,["returned errors"])
p("R05","Input validators accept exactly their language",
 "The shell safety validator rejects every string containing a shell metacharacter from its list, the length validator rejects every string longer than the limit, and the enumeration, IP address and regular expression validators accept exactly the listed values, addresses of the right family and matching strings.",
 ["inputs"],"every string and every limit",
 "quantifies over all strings",
 ["validator/shellsafe/shellsafe.go","validator/maxlength/maxlength.go","validator/enum/enum.go","validator/regex/regex.go","validator/ipv4/ipv4.go","validator/ipv6/ipv6.go","validator/ipaddress/ipaddress.go"],
 [("validators","validator/*: ValidateString etc.")],None,["boolean results and errors"])
p("R06","External agents only receive validated requests",
 "An external agent's program is executed only after the request was parsed and validated against its interface description and, for its activation check, only its own executable is run. When validation or execution fails the reply carries an error status.",
 ["inputs","fault_sequences"],"every request and every failing step",
 "absence of any path to execution that skips validation",
 ["providers/agent/mcorpc/external/agent.go"],[("external action","providers/agent/mcorpc/external/agent.go: externalAction")],None,["program execution"])

p("Q01","Submitted messages are only sent while valid and in order",
 "A spooled message is published only if it is within its maximum age and below its maximum tries, unreliable messages are never retried after success or expiry, and once delivery of a reliable message fails no later reliable message of the same round is sent before it. A message that was delivered but could not be removed from disk is not delivered again.",
 ["inputs","fault_sequences","histories"],"every message, failure sequence and spool content",
 "ordering across failures is a property of all histories",
 ["submission/disk_spool.go","submission/spool.go","submission/msg.go"],[("spool processing","submission/spool.go: Run"),("directory scan","submission/disk_spool.go: processDir"),("validation","submission/msg.go: Validate")],["skip list"],["published messages"])

p("A01","State machines only make declared transitions",
 "An autonomous agent machine changes state only through a declared transition whose source states include its current state, towards the declared destination of that transition; any other event leaves the state unchanged. A specification without a name, version, initial state, transitions or watchers, with empty transitions or watchers, or whose watchers refer to undeclared states or transitions, is refused without crashing.",
 ["inputs","histories"],"every machine specification and event sequence",
 "specifications and histories are unbounded",
 ["aagent/machine/machine.go"],[("validation and transitions","aagent/machine/machine.go: Validate, Setup, Transition, KnownStates")],None,["machine state"])
p("A02","Watchers act only in their active states",
 "A watcher with declared active states runs its check, command or deployment only while the machine is in one of those states and every required foreign machine is in its required state; an unresolvable foreign machine prevents it. A watcher without declared states is active in every state.",
 ["inputs","configurations"],"every list of active and required states and every machine state",
 "list membership over unbounded lists combined with failures of the foreign lookups",
 ["aagent/watchers/watcher/watcher.go"],[("activity decision","aagent/watchers/watcher/watcher.go: ShouldWatch"),("command execution","aagent/watchers/execwatcher/exec.go: watch")],None,["boolean decision, execution of commands"])
p("A03","Archives are deployed only when verified and contained",
 "A managed archive is put in place only if the downloaded file had exactly the configured checksum and, when content verification is configured, the extracted content verified against the checksummed sums file. Extraction never writes outside the temporary directory made for it and refuses anything other than regular files and directories.",
 ["inputs","fault_sequences"],"every archive, checksum and failing step",
 "archives are attacker supplied and unbounded",
 ["aagent/watchers/archivewatcher/archive.go"],[("download and verification","aagent/watchers/archivewatcher/archive.go: downloadSourceToTemp, extractAndVerifyToTemp, untar, watch")],None,["files written and renamed"])
p("A04","Managed machines and plugins need a valid signature",
 "When a public key is configured, the machines and plugins to deploy are read only from data whose signature verifies with that key; unsigned, badly signed or undecodable data is rejected and nothing is deployed from it. Every accepted entry has a name, source, archive checksum and content checksum.",
 ["inputs"],"every data item, signature and key",
 "the data is supplied remotely, any byte string is possible",
 ["aagent/watchers/machineswatcher/machines.go","aagent/watchers/pluginswatcher/plugins.go"],[("data validation","aagent/watchers/{machineswatcher,pluginswatcher}: loadAndValidateData, desiredState")],None,["desired state"])
p("E01","A campaigner is leader only while its claim is confirmed",
 "A candidate reports itself leader only after it created the election key and then successfully renewed it at least once; any failed renewal immediately ends its leadership and notifies it of the loss. Stopping or shutting down a leader ends its leadership and notifies it.",
 ["histories","fault_sequences"],"every sequence of successful and failing key operations",
 "leadership is a property of all campaign histories",
 ["providers/election/streams/election.go"],[("campaigning","providers/election/streams/election.go: try, campaignForLeadership, maintainLeadership, stop")],["state, last sequence, notification flag"],["leader status and callbacks"])
p("E02","Governor slots are taken and returned exactly once",
 "Starting a governed task succeeds only after a slot was confirmed by the server, retries only when the governor is full, and a finished task gives back exactly the slot it obtained, at most once. A failed start does not leave the governor marked as running.",
 ["histories","fault_sequences"],"every sequence of publish outcomes and finish calls",
 "histories with retries and repeated finish calls are unbounded",
 ["providers/governor/streams/governor.go"],[("slot handling","providers/governor/streams/governor.go: Start and its finisher")],["running flag, sequence"],["slot deletions"])
p("U01","Directory checksum verification reports every mismatch",
 "Verifying a directory against a checksums file succeeds only if every listed file exists and has the listed checksum; malformed lines and read errors are reported as errors and never as success.",
 ["inputs","fault_sequences"],"every sums file and directory content",
 "a loop over unbounded lines where a single mismatch must never be forgotten",
 ["internal/util/sha256sum.go"],[("verification","internal/util/sha256sum.go: Sha256VerifyDir")],None,["boolean result"])
p("U02","Backoff delays stay within the policy",
 "For every policy with at least one, non-negative, step and every try number from zero the backoff delay is non-negative, never exceeds one and a half times the largest configured step, and computing it never fails; tries beyond the last step keep using the last step.",
 ["inputs"],"every try number and policy",
 "quantifies over all integers",
 ["backoff/backoff.go"],[("delay","backoff/backoff.go: Duration")],None,["returned duration"])
p("L01","Locks are released on every path and never taken twice",
 "Every operation of the components that guard their state with locks (agent manager, connections, federation, election, governor, state machines and watchers, authorization, statistics, the security providers and so on) releases every lock it took on every return path, including every error path. None of them acquires a lock it already holds or releases one it does not hold.",
 ["inputs","fault_sequences"],"every return path, including every error path, of every function that takes or releases a lock",
 "error paths are rarely exercised; a single leaked lock hangs the process forever",
 ["providers/election/streams/election.go","providers/governor/streams/governor.go","server/agents/agents.go","aagent/machine/machine.go","choria/connection.go"],[("locking","all functions that lock, found mechanically in every package that uses locks")],["mutex state"],["lock state on return"])
p("C01","RPC requests reach every selected node once and account for every reply",
 "Every target selected for a request is contacted in exactly one batch that is no larger than asked, and limits select a subset of the discovered targets without inventing or repeating any. Replies are always validated; each reply counts once as passed or failed, and a node is waited for until a valid reply from that very node arrives. A request ends early only once every node has answered, so nodes without an answer are always reported.",
 ["inputs","histories"],"every list of targets, batch size and limit, and every sequence of valid, invalid, repeated and unexpected replies",
 "tests use a handful of nodes and well behaved replies; off by one batches and accounting under repeats need particular sizes and orders",
 ["providers/agent/mcorpc/client/client.go","providers/agent/mcorpc/client/stats.go","providers/agent/mcorpc/client/nodelist.go","providers/agent/mcorpc/client/options.go"],[("requests and their accounting","providers/agent/mcorpc/client")],["nodes waited for","passed and failed counters"],["request statistics","targets contacted"])
p("F01","Federation brokers forward the message they received to where it is addressed",
 "A federation broker forwards a request to exactly the targets it lists and keeps its content, request id and the address of the requester, while replies come back through that broker; a reply goes only to the requester named in its headers, without federation headers. Messages that are invalid, not federated or without an address are never forwarded, and a decoded message always has the headers these decisions are made on. Every target of a message is attempted even when publishing to another fails, and the federation headers travel unchanged from a request to its reply.",
 ["inputs","fault_sequences","histories"],"every received message, every list of targets and every pattern of failures, after any number of messages",
 "tests send one well formed message at a time; state kept between messages and failures part way need particular sequences",
 ["broker/federation/request_transformer.go","broker/federation/reply_transformer.go","broker/federation/choria_nats_ingest.go","broker/federation/choria_nats_egest.go","protocol/federation.go","protocol/v1/transport.go","protocol/v2/transport.go"],[("forwarding","broker/federation, protocol")],["federation headers"],["published messages and their subjects"])
p("N01","At most one leader exists at any time across the fleet",
 "For one election key at most one participant considers itself leader at any instant, under every interleaving, clock skew and network delay.",
 ["schedules","crash_points","histories"],"every interleaving of campaigners, bucket expiry and delays",
 "a distributed timing property over all schedules",
 ["providers/election/streams/election.go"],[("campaigning","providers/election/streams/election.go")])
p("N02","Requests reach every connected matching server",
 "Every server that is connected, matches the filter and is within the request's time to live eventually processes a published request, also through federation brokers.",
 ["schedules","fault_sequences"],"every schedule of publishes, reconnects and federation hops",
 "a liveness property over network schedules",
 ["broker/federation/federation_broker.go","server/instance.go"],[("delivery","broker/federation, server")])
p("N03","No data races between watchers, machines and their managers",
 "Concurrent watchers, machine transitions, manager reloads and HTTP queries never access shared state without synchronization.",
 ["schedules"],"every interleaving",
 "data races depend on the schedule",
 ["aagent/aagent.go","aagent/machine/machine.go"],[("machine lifecycle","aagent")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
