property A03
alias aw = github.com/choria-io/go-choria/aagent/watchers/archivewatcher
alias wa = github.com/choria-io/go-choria/aagent/watchers/watcher
alias iu = github.com/choria-io/go-choria/internal/util
alias fp = path/filepath
alias http = net/http
alias url = net/url
alias tarp = archive/tar
alias fsp = io/fs
alias osp = os

pure (*tarp.Header).FileInfo (fsp.FileInfo).IsDir (fsp.FileInfo).Mode (*osp.File).Name fp.Dir
extern (*wa.Watcher).ProcessTemplate(s) (r, e) frame
  ensures true
extern (*wa.Watcher).Warnf(f, a) frame
  ensures true
extern (*wa.Watcher).Infof(f, a) frame
  ensures true
extern (*wa.Watcher).Errorf(f, a) frame
  ensures true
extern iu.FileHasSha256Sum(f, s) (ok, sum, e) frame
  ensures true
extern iu.FileIsRegular(f) (ok) frame
  ensures true
extern iu.FileIsDir(f) (ok) frame
  ensures true
extern iu.FileExist(f) (ok) frame
  ensures true

extern http.NewRequestWithContext(c, m, u, b) (r, e) frame
  fresh r
  ensures true
extern (*http.Client).Do(r) (x, e) frame
  fresh x
  ensures true
extern (*http.Request).SetBasicAuth(u, p) frame
  ensures true
extern (http.Header).Add(k, v) frame
  ensures true
extern osp.CreateTemp(d, p) (f, e) frame
  fresh f
  ensures true
extern io.Copy(d, s) (n, e) frame
  ensures true
extern (*osp.File).Close() (e) frame
  ensures true
extern osp.Open(p) (f, e) frame
  fresh f
  ensures true
extern url.Parse(p) (f, e) frame
  fresh f
  ensures true

extern (*wa.Watcher).ShouldWatch() (b) frame
  ensures true
extern (*wa.Watcher).EnterGovernor(c, n, t) (f, e) frame
  ensures true

def under(p, t) = p == t || prefix(p, t + "/")

extern iu.Sha256VerifyDir(f, d, log, cb) (ok, e) frame
  ensures true

# the standard library's path cleaning: an element without .. stays below a clean directory
extern fp.Join(a) (r) pure
  ensures (len(a) == 2 && a[0] == fp.Clean(a[0]) && a[0] != "" && a[0] != "." && a[0] != "/" && !contains(a[1], "..")) ==> under(r, a[0])

verify (w *aw.Watcher) verify(dir) (err)
  modular
  modifies nothing
  requires w != nil && w.properties != nil
  ghost want string
  ghost summed string
  ghost checked bool
  oncall (*wa.Watcher).ProcessTemplate(_, s) (r, e): set want = ite(e == nil && s == w.properties.ContentChecksumsChecksum, r, "")
  oncall iu.FileHasSha256Sum(f, s) (ok, sum, e): set summed = ite(ok && e == nil && s == want && want != "", f, "")
  oncall iu.Sha256VerifyDir(f, d, log, cb) (ok, e): set checked = ok && e == nil && f == summed && f == fp.Join(dir, w.properties.ContentChecksums) && d == dir
  ensures the sums file has the configured checksum and the content matches it: err == nil ==> (want != "" && checked)
  cover verified: err == nil

verify (w *aw.Watcher) untar(s, t) (err)
  requires w != nil && t != "" && t != "." && t != "/" && t == fp.Clean(t)
  ghost hdr ref
  oncall (*tarp.Reader).Next(r) (h, e): set hdr = h
  oncall osp.MkdirAll(p, m): assert directories are made inside the target: under(p, t)
  oncall osp.OpenFile(p, f, m): assert files are written inside the target: under(p, t)
  oncall osp.OpenFile(p, f, m): assert only regular files are written: as(hdr, "*tarp.Header").Typeflag == 48 || as(hdr, "*tarp.Header").Typeflag == 53
  cover extracted: err == nil

extern osp.MkdirTemp(d, p) (r, e) frame
  ensures the name is clean: e == nil ==> (r == fp.Clean(r) && r != "" && r != "." && r != "/")
extern (*aw.Watcher).untar(s, t) (e) frame
  requires t != "" && t != "." && t != "/" && t == fp.Clean(t)
  ensures true

verify (w *aw.Watcher) extractAndVerifyToTemp(path) (td, err)
  modular
  modifies nothing
  requires w != nil && w.properties != nil
  ghost file ref
  ghost dir string
  ghost extracted bool
  ghost verified bool
  oncall osp.Open(p) (f, e): set file = ite(e == nil && p == path, f, 0)
  oncall osp.MkdirTemp(d, p) (r, e): set dir = ite(e == nil, r, "")
  oncall (*aw.Watcher).untar(x, s, t): assert the archive is extracted to a new directory: t == dir && unbox(s, "*osp.File") == file
  oncall (*aw.Watcher).untar(x, s, t) (e): set extracted = e == nil
  oncall (*aw.Watcher).untar(x, s, t) (e): set verified = false
  oncall (*aw.Watcher).verify(x, d) (e): set verified = e == nil && d == fp.Join(dir, w.properties.Creates)
  ensures only extracted archives are used: err == nil ==> (extracted && td == dir && dir != "")
  ensures contents are verified when that is configured: (err == nil && w.properties.ContentChecksumsChecksum != "") ==> verified
  cover extracted: err == nil && verified

verify (w *aw.Watcher) downloadSourceToTemp(ctx) (path, err)
  modular
  modifies w.previousSource
  requires w != nil && w.properties != nil
  ghost want set[string]
  ghost good bool
  ghost file string
  oncall (*wa.Watcher).ProcessTemplate(_, s) (r, e): set want[r] = want[r] || (e == nil && s == w.properties.ArchiveChecksum)
  oncall io.Copy(d, s): set good = false
  oncall iu.FileHasSha256Sum(f, s) (ok, sum, e): set good = ok && e == nil && want[s] && s != ""
  oncall iu.FileHasSha256Sum(f, s) (ok, sum, e): set file = f
  ensures only files with the configured checksum are used: err == nil ==> (good && path == file)
  cover downloaded: err == nil

verify (w *aw.Watcher) watch(ctx) (state, err)
  requires w != nil && w.properties != nil
  ghost archive string
  ghost loaded bool
  ghost ready bool
  ghost dir string
  oncall (*aw.Watcher).downloadSourceToTemp(x, c) (f, e): set archive = f
  oncall (*aw.Watcher).downloadSourceToTemp(x, c) (f, e): set loaded = e == nil && x == w
  oncall (*aw.Watcher).extractAndVerifyToTemp(x, f) (d, e): set dir = d
  oncall (*aw.Watcher).extractAndVerifyToTemp(x, f) (d, e): set ready = e == nil && x == w && f == archive && loaded
  oncall osp.Rename(a, b): assert only verified content is deployed: ready && a == fp.Join(dir, w.properties.Creates)
  oncall osp.Rename(a, b): assert content is deployed to the configured place: b == fp.Join(w.properties.TargetDirectory, w.properties.Creates)
  ensures success is reported only after deployment: state == aw.Downloaded ==> ready
  cover deployed: err == nil && state == aw.Downloaded
