From c37fe4c5a75a769139dd6cc3534e4e3879f56915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 01/20] fix: forget subscriptions of an agent that failed to
 register

---
 server/agents/agents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 10d2553..8169ddc 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -335,6 +335,8 @@ func (a *Manager) subscribeAgent(ctx context.Context, name string, agent Agent,
 				conn.Unsubscribe(sub)
 			}
 
+			delete(a.subs, name)
+
 			return fmt.Errorf("subscription failed: %s", err)
 		}
 
-- 
2.43.0


From 4074e8c929b5505770474fd0a8d2cc1ba1567a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 02/20] fix: do not panic on client tokens without permissions

A token without a permissions section was dereferenced when deciding
whether the caller may be allowed, which panics the process.
---
 providers/security/choria/choria_security.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/providers/security/choria/choria_security.go b/providers/security/choria/choria_security.go
index fc150ac..3d79c62 100644
--- a/providers/security/choria/choria_security.go
+++ b/providers/security/choria/choria_security.go
@@ -642,9 +642,6 @@ func (s *ChoriaSecurity) shouldAllowCallerUnsigned(name string, caller []byte) (
 
 	// technically already done in sig verify but cant harm
 	if token.Permissions == nil || !(token.Permissions.SignedFleetManagement || token.Permissions.FleetManagement) {
-		if token.Permissions.SignedFleetManagement {
-			return false, fmt.Errorf("requires signed fleet management access")
-		}
 		return false, fmt.Errorf("does not have fleet management access")
 	}
 
-- 
2.43.0


From 26ba3a887aed67f1774df93ae2fb1223fc6848a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 03/20] fix: refuse certificates and CA files that are not PEM

---
 providers/security/filesec/file_security.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 4f49d8b..bb78ef3 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -353,13 +353,15 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	roots := x509.NewCertPool()
 	if !roots.AppendCertsFromPEM(capem) {
-		s.log.Warnf("Could not use CA '%s' as PEM data: %s", ca, err)
+		err = fmt.Errorf("could not use CA '%s' as PEM data", ca)
+		s.log.Warnf("Could not verify certificate '%s': %s", name, err)
 		return err
 	}
 
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate '%s' PEM data: %s", name, err)
+		err = fmt.Errorf("could not decode certificate PEM data")
+		s.log.Warnf("Could not verify certificate '%s': %s", name, err)
 		return err
 	}
 
@@ -371,7 +373,8 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	intermediates := x509.NewCertPool()
 	if !intermediates.AppendCertsFromPEM(certpem) {
-		s.log.Warnf("Could not add intermediates: %s", err)
+		err = fmt.Errorf("could not add intermediates")
+		s.log.Warnf("Could not verify certificate '%s': %s", name, err)
 		return err
 	}
 
@@ -693,7 +696,8 @@ func (s *FileSecurity) ShouldAllowCaller(name string, callers ...[]byte) (privil
 func (s *FileSecurity) certDNSNames(certpem []byte) (names []string, err error) {
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate PEM data: %s", err)
+		err = fmt.Errorf("could not decode certificate PEM data")
+		s.log.Warnf("Could not determine certificate names: %s", err)
 		return names, err
 	}
 
-- 
2.43.0


From 5eab56411b2323b0105ca841d3f6716c981b8b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 04/20] fix: do not panic on signatures by certificates that
 hold no RSA key

---
 providers/security/filesec/file_security.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index bb78ef3..7ad1a0c 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -293,7 +293,12 @@ func (s *FileSecurity) VerifySignatureBytes(dat []byte, sig []byte, public ...[]
 		return false, ""
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		s.log.Errorf("Signature verification failed: unsupported public key type %T", cert.PublicKey)
+		return false, ""
+	}
+
 	hashed := s.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From 25c91487609848af86307e042a0fe9a39b151a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 05/20] fix: do not panic on signatures by certificates that
 hold no RSA key in pkcs11 security

---
 providers/security/pkcs11sec/pkcs11_security.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/providers/security/pkcs11sec/pkcs11_security.go b/providers/security/pkcs11sec/pkcs11_security.go
index dd3ac4f..f27eb9e 100644
--- a/providers/security/pkcs11sec/pkcs11_security.go
+++ b/providers/security/pkcs11sec/pkcs11_security.go
@@ -376,7 +376,12 @@ func (p *Pkcs11Security) VerifySignatureBytes(dat []byte, sig []byte, public ...
 		cert = p.cert.Leaf
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		p.log.Errorf("Signature verification failed: unsupported public key type %T", cert.PublicKey)
+		return false, ""
+	}
+
 	hashed := p.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From ff2e7382dded6764e7dde0e5a3d0e21554fae0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:37 +0000
Subject: [PATCH 06/20] fix: a compound filter that does not match fails the
 whole filter

---
 filter/compound/compound.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/compound/compound.go b/filter/compound/compound.go
index 628b1cf..d90b488 100644
--- a/filter/compound/compound.go
+++ b/filter/compound/compound.go
@@ -101,7 +101,7 @@ func MatchExprString(queries [][]map[string]string, facts json.RawMessage, class
 		if res {
 			matched++
 		} else {
-			matched--
+			failed++
 		}
 	}
 
-- 
2.43.0


From d530a184d78a6738d51f703850ea96c2fbc0136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:38 +0000
Subject: [PATCH 07/20] fix: greater than does not match equal floating point
 facts

---
 filter/facts/matchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 42f5bf4..3debf41 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -169,7 +169,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 				return false, err
 			}
 
-			return fact.Float() >= f, nil
+			return fact.Float() > f, nil
 		}
 
 		v, err := strconv.Atoi(value)
-- 
2.43.0


From aac97ade14e5ffcc296660e44a77f2a1812ff116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:42 +0000
Subject: [PATCH 08/20] fix: validate the content of strings that declare no
 maximum length

---
 providers/agent/mcorpc/ddl/common/input_item.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/common/input_item.go b/providers/agent/mcorpc/ddl/common/input_item.go
index 3653882..b12c337 100644
--- a/providers/agent/mcorpc/ddl/common/input_item.go
+++ b/providers/agent/mcorpc/ddl/common/input_item.go
@@ -95,12 +95,8 @@ func (i *InputItem) ValidateValue(val any) (warnings []string, err error) {
 			return warnings, fmt.Errorf("is not a string")
 		}
 
-		if i.MaxLength == 0 {
-			return warnings, nil
-		}
-
 		sval := val.(string)
-		if len(sval) > i.MaxLength {
+		if i.MaxLength != 0 && len(sval) > i.MaxLength {
 			return warnings, fmt.Errorf("is longer than %d characters", i.MaxLength)
 		}
 
-- 
2.43.0


From 1556964b8580a8e2a70e0606919e996ef82bf2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 09/20] fix: do not forget submitted messages that could not be
 removed from the spool

---
 submission/disk_spool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index 36ece62..b887fb3 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -170,9 +170,9 @@ func (d *DirectorySpool) processDir(priority uint, dir string, handler func([]*M
 	found := make(map[string]struct{})
 
 	for _, entry := range entries {
-		found[entry.Name()] = struct{}{}
-
 		msgPath := filepath.Join(dir, entry.Name())
+		found[msgPath] = struct{}{}
+
 		if _, skip := skipList[msgPath]; skip {
 			os.Remove(msgPath) // maybe it works this time
 			continue
-- 
2.43.0


From e54fc101fcf8a96680abc75ab427da26917c7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 10/20] fix: refuse machines with empty transitions or watchers
 rather than panic

---
 aagent/machine/machine.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e7ddd86..a198377 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -589,7 +589,17 @@ func (m *Machine) Validate() error {
 		return fmt.Errorf("no watchers defined")
 	}
 
-	for _, w := range m.Watchers() {
+	for i, t := range m.Transitions {
+		if t == nil {
+			return fmt.Errorf("transition %d is empty", i)
+		}
+	}
+
+	for i, w := range m.Watchers() {
+		if w == nil {
+			return fmt.Errorf("watcher %d is empty", i)
+		}
+
 		err := w.ParseAnnounceInterval()
 		if err != nil {
 			return err
-- 
2.43.0


From f6009a8723c5110fbac745a3043ab092a987a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 11/20] fix: refuse empty entries in managed machines and
 plugins rather than panic

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 aagent/watchers/pluginswatcher/plugins.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index c66e2c6..eaed7cd 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -470,6 +470,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty machine specification")
+		}
+
 		m.Interval = w.properties.MachineManageInterval.String()
 		m.Target = filepath.Dir(w.machine.Directory())
 
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 78a6b4a..a224776 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -474,6 +474,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty plugin specification")
+		}
+
 		m.NamePrefix = w.properties.ManagerMachinePrefix
 		m.Interval = w.properties.PluginManageInterval.String()
 		m.Target = w.targetDirForManagedPlugins()
-- 
2.43.0


From 1486affcfba1c253119863c4d3799dfcba07da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 12/20] fix: do not panic on malformed managed machine public
 keys

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index eaed7cd..6533078 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -439,6 +439,10 @@ func (w *Watcher) loadAndValidateData() ([]byte, error) {
 			w.Errorf("invalid public key: %s", err)
 			return nil, fmt.Errorf("invalid data_item")
 		}
+		if len(pk) != ed25519.PublicKeySize {
+			w.Errorf("invalid public key: unexpected length %d", len(pk))
+			return nil, fmt.Errorf("invalid data_item")
+		}
 
 		sig, err := hex.DecodeString(spec.Signature)
 		if err != nil {
-- 
2.43.0


From 6b47eff86ea71ba1603f5a92a34db816b8aa4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0000
Subject: [PATCH 13/20] fix: do not accept messages with a negative ttl that
 overflows

---
 message/message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/message/message.go b/message/message.go
index 00d0e3b..0513833 100644
--- a/message/message.go
+++ b/message/message.go
@@ -303,6 +303,12 @@ func (m *Message) Validate() (bool, error) {
 
 // ValidateTTL validates the message age, true if the message should be allowed
 func (m *Message) ValidateTTL() bool {
+	// a message without a positive ttl is never current, large negative ones
+	// overflow a time.Duration below and would appear to be valid
+	if m.ttl <= 0 {
+		return false
+	}
+
 	now := time.Now()
 	earliest := now.Add(-1 * time.Duration(m.ttl) * time.Second)
 	latest := now.Add(time.Duration(m.ttl) * time.Second)
-- 
2.43.0


From 6a0c0c9303d1fa2f1609f656a86c4d0276243944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:41 +0000
Subject: [PATCH 14/20] fix: refuse submitted messages with a negative ttl that
 overflows

---
 submission/msg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/submission/msg.go b/submission/msg.go
index 7151a1d..95064e2 100644
--- a/submission/msg.go
+++ b/submission/msg.go
@@ -91,6 +91,11 @@ func (m *Message) Validate() error {
 		return fmt.Errorf("ttl may not be 0")
 	}
 
+	// large negative ttls overflow a time.Duration and would appear not to be expired
+	if m.TTL < 0 {
+		return fmt.Errorf("ttl may not be negative")
+	}
+
 	if m.TTL > maxTTL.Seconds() {
 		return fmt.Errorf("ttl exceeds maximum %s", maxTTL)
 	}
-- 
2.43.0


From 2a45b72998c6df6b9157e8b5e9d7e6504f7176c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:20 +0000
Subject: [PATCH 15/20] fix: let a governor retry after a failed start and
 ignore repeated finishers

---
 providers/governor/streams/governor.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8f69241..c55bbb4 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -264,6 +264,14 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	g.running = true
 	seq := uint64(0)
 	tries := 0
+	started := false
+
+	// failing to obtain a slot should not prevent later attempts
+	defer func() {
+		if !started {
+			g.running = false
+		}
+	}()
 
 	try := func() error {
 		ctx, cancel := context.WithTimeout(ctx, time.Second)
@@ -289,12 +297,14 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 		}
 
 		seq = res.Sequence
+		started = true
 
 		g.Infof("Got a slot on %s with sequence %d", g.name, seq)
 
 		return nil
 	}
 
+	finished := false
 	closer := func() error {
 		if seq == 0 {
 			return nil
@@ -302,10 +312,12 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 
 		g.mu.Lock()
 		defer g.mu.Unlock()
-		if !g.running {
+		// a repeated call must not affect a later task that holds another slot
+		if finished || !g.running {
 			return nil
 		}
 
+		finished = true
 		g.running = false
 
 		if g.noLeave {
-- 
2.43.0


From df5291a4135d8091a92054a53f9db79c71a23b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 16/20] fix: release the election lock when the election cannot
 be configured

---
 providers/election/streams/election.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 31688c7..cd81c28 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -294,6 +294,7 @@ func (e *election) Start(ctx context.Context) error {
 
 	err := e.configure(ctx)
 	if err != nil {
+		e.mu.Unlock()
 		return err
 	}
 
-- 
2.43.0


From c8824d4f1f344161892633b7edbd452bab5e1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:37 +0000
Subject: [PATCH 17/20] fix: do not deadlock when stopping a started election

---
 providers/election/streams/election.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index cd81c28..a17605e 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -318,17 +318,13 @@ func (e *election) Start(ctx context.Context) error {
 
 func (e *election) Stop() {
 	e.mu.Lock()
-	defer e.mu.Unlock()
-
-	if !e.started {
-		return
-	}
+	started := e.started
+	e.mu.Unlock()
 
-	if e.cancel != nil {
-		e.cancel()
+	// stop takes the lock and cancels the context
+	if started {
+		e.stop()
 	}
-
-	e.stop()
 }
 
 func (e *election) IsLeader() bool {
-- 
2.43.0


From 5e9aaa6fe8ff0a4853074a4db15927b0fcc9d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:21 +0000
Subject: [PATCH 18/20] fix: do not select more rpc targets than were
 discovered

---
 providers/agent/mcorpc/client/options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index ad9fb5a..74d5183 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -398,6 +398,11 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 		return limited, fmt.Errorf("could not parse limit as either number or percent")
 	}
 
+	// never select more targets than there are, the remainder would be empty names
+	if count > len(targets) {
+		count = len(targets)
+	}
+
 	if count <= 0 {
 		return limited, fmt.Errorf("no targets left after applying target limits of '%s'", o.LimitSize)
 	}
-- 
2.43.0


From 415766045afd45191e1ba367b2bd4f2293c95f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:54 +0000
Subject: [PATCH 19/20] fix: reject transport messages without headers instead
 of crashing on them later

---
 protocol/v1/constructors.go | 6 ++++++
 protocol/v2/transport.go    | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 09ef8e2..d0d2b6b 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -299,5 +299,11 @@ func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err e
 		return nil, err
 	}
 
+	// a null document or null headers leave nothing to read the message from
+	transport, ok := message.(*TransportMessage)
+	if !ok || transport.Headers == nil {
+		return nil, errors.New("invalid transport message: no headers")
+	}
+
 	return message, nil
 }
diff --git a/protocol/v2/transport.go b/protocol/v2/transport.go
index 31a5db9..d32eaca 100644
--- a/protocol/v2/transport.go
+++ b/protocol/v2/transport.go
@@ -6,6 +6,7 @@ package v2
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"strings"
 	"sync"
@@ -72,6 +73,12 @@ func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err e
 		return nil, err
 	}
 
+	// a null document or null headers leave nothing to read the message from
+	transport, ok := message.(*TransportMessage)
+	if !ok || transport.Headers == nil {
+		return nil, errors.New("invalid transport message: no headers")
+	}
+
 	return message, nil
 }
 
-- 
2.43.0


From 4042ad98038021e839944da052f5b8c5118683f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:28 +0000
Subject: [PATCH 20/20] fix: policies calling requires_filter() no longer panic

---
 providers/agent/mcorpc/authz_jwt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/authz_jwt.go b/providers/agent/mcorpc/authz_jwt.go
index 8722a40..885d531 100644
--- a/providers/agent/mcorpc/authz_jwt.go
+++ b/providers/agent/mcorpc/authz_jwt.go
@@ -183,7 +183,10 @@ func opaInputs(req *Request, data json.RawMessage, site string, claims *tokens.C
 
 func opaFunctionsMap(req *Request) []func(r *rego.Rego) {
 	return []func(r *rego.Rego){
-		rego.Function1(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, opaFuncRequiresFilter(req)),
+		// takes no arguments, rego.Function1() functions always access their first argument
+		rego.FunctionDyn(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, func(bctx rego.BuiltinContext, _ []*ast.Term) (*ast.Term, error) {
+			return opaFuncRequiresFilter(req)(bctx, nil)
+		}),
 		rego.Function1(&rego.Function{Name: "requires_fact_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresFactFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_class_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresClassFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_identity_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresIdentityFilter(req)),
-- 
2.43.0

