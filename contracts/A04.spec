property A04
alias mw = github.com/choria-io/go-choria/aagent/watchers/machineswatcher
alias pw = github.com/choria-io/go-choria/aagent/watchers/pluginswatcher
alias wa = github.com/choria-io/go-choria/aagent/watchers/watcher
alias model = github.com/choria-io/go-choria/aagent/model
alias iu = github.com/choria-io/go-choria/internal/util
alias ed = crypto/ed25519
alias ms = github.com/mitchellh/mapstructure
alias js = encoding/json
alias hex = encoding/hex
alias b64 = encoding/base64
alias fp = path/filepath
alias osp = os

extern (*wa.Watcher).Warnf(f, a) frame
  ensures true
extern (*wa.Watcher).Infof(f, a) frame
  ensures true
extern (*wa.Watcher).Debugf(f, a) frame
  ensures true
extern (*wa.Watcher).Errorf(f, a) frame
  ensures true
extern (*wa.Watcher).ShouldWatch() (b) frame
  ensures true
extern ms.NewDecoder(c) (d, e)
  fresh d
  ensures true
extern ed.Verify(k, m, s) (ok) frame
  requires len(k) == 32
  ensures true
pure (model.Machine).Directory

verify (w *mw.Watcher) loadAndValidateData() (data, err)
  modular
  modifies nothing
  nopanic
  requires w != nil && w.properties != nil && w.machine != nil
  ghost target ref
  oncall ms.NewDecoder(c): set target = unbox(c.Result, "**mw.Specification")
  oncall (*ms.Decoder).Decode(d, x) (e): assume *as(target, "**mw.Specification") != nil
  ghost good bool
  ghost signed string
  oncall ed.Verify(k, m, sig) (ok): set good = ok && str(k) == hexdec(w.properties.PublicKey)
  oncall ed.Verify(k, m, sig) (ok): set signed = str(m)
  ensures data is signed with the configured key: (err == nil && w.properties.PublicKey != "") ==> (good && signed == str(data))
  cover accepted: err == nil && w.properties.PublicKey != ""

verify (s *pw.Specification) VerifySignature(key) (ok, err)
  modular
  modifies nothing
  nopanic
  ghost good bool
  oncall ed.Verify(k, m, sig) (v): set good = v && str(k) == str(key) && str(m) == s.Plugins
  ensures only a valid signature verifies: ok ==> good

verify (w *pw.Watcher) loadAndValidateData() (data, err)
  modular
  modifies nothing
  nopanic
  requires w != nil && w.properties != nil && w.machine != nil
  ghost target ref
  oncall ms.NewDecoder(c): set target = unbox(c.Result, "**pw.Specification")
  oncall (*ms.Decoder).Decode(d, x) (e): assume *as(target, "**pw.Specification") != nil
  ghost good bool
  ghost signed string
  oncall (*pw.Specification).VerifySignature(s, k) (ok, e): set good = ok && str(k) == hexdec(w.properties.PublicKey)
  oncall (*pw.Specification).VerifySignature(s, k) (ok, e): set signed = s.Plugins
  ensures data is signed with the configured key: (err == nil && w.properties.PublicKey != "") ==> (good && b64dec(b64.StdEncoding, signed) == str(data))
  cover accepted: err == nil && w.properties.PublicKey != ""

verify (w *mw.Watcher) desiredState() (r, err)
  nopanic
  requires w != nil && w.properties != nil && w.machine != nil
  ghost good bool
  ghost dat string
  oncall (*mw.Watcher).loadAndValidateData(x) (d, e): set good = e == nil && x == w
  oncall (*mw.Watcher).loadAndValidateData(x) (d, e): set dat = str(d)
  oncall js.Unmarshal(b, v): assert only validated data is read: good && str(b) == dat
  ensures only validated data is used: err == nil ==> good
  ensures every entry is complete: err == nil ==> forall(i, 0, len(r), r[i] != nil && r[i].Name != "" && r[i].Source != "" && r[i].ArchiveChecksum != "" && r[i].ContentChecksumsChecksum != "")
  cover two: err == nil && len(r) == 2

verify (w *pw.Watcher) desiredState() (r, err)
  nopanic
  requires w != nil && w.properties != nil && w.machine != nil
  ghost good bool
  ghost dat string
  oncall (*pw.Watcher).loadAndValidateData(x) (d, e): set good = e == nil && x == w
  oncall (*pw.Watcher).loadAndValidateData(x) (d, e): set dat = str(d)
  oncall js.Unmarshal(b, v): assert only validated data is read: good && str(b) == dat
  ensures only validated data is used: err == nil ==> good
  ensures every entry is complete: err == nil ==> forall(i, 0, len(r), r[i] != nil && r[i].Name != "" && r[i].Source != "" && r[i].ArchiveChecksum != "" && r[i].ContentChecksumsChecksum != "")
  cover two: err == nil && len(r) == 2

verify (w *mw.Watcher) watch(ctx) (state, err)
  opaque (*mw.Watcher).desiredState (*mw.Watcher).purgeUnknownMachines
  ghost good bool
  requires w != nil && w.properties != nil
  oncall (*mw.Watcher).desiredState(x) (d, e): set good = e == nil
  oncall (*mw.Watcher).purgeUnknownMachines(x, c, d): assert nothing is removed because of unverified data: good
  oncall osp.RemoveAll(p): assert nothing is replaced because of unverified data: good
  oncall osp.WriteFile(p, b, m): assert nothing is deployed from unverified data: good
  oncall osp.MkdirAll(p, m): assert nothing is deployed from unverified data: good

verify (w *pw.Watcher) watch(ctx) (state, err)
  opaque (*pw.Watcher).desiredState (*pw.Watcher).purgeUnknownPlugins pw.IsNodeMatch
  ghost good bool
  requires w != nil && w.properties != nil
  oncall (*pw.Watcher).desiredState(x) (d, e): set good = e == nil
  oncall (*pw.Watcher).purgeUnknownPlugins(x, c, d): assert nothing is removed because of unverified data: good
  oncall osp.RemoveAll(p): assert nothing is replaced because of unverified data: good
  oncall osp.WriteFile(p, b, m): assert nothing is deployed from unverified data: good
  oncall osp.MkdirAll(p, m): assert nothing is deployed from unverified data: good
