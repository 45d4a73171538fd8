property U01
alias iu = github.com/choria-io/go-choria/internal/util
alias fp = path/filepath
alias osp = os
alias bufs = bufio
alias hashp = hash
alias hexp = encoding/hex
alias sha = crypto/sha256
alias logr = github.com/sirupsen/logrus

extern osp.Open(p) (f, e) frame
  fresh f
  ensures true
extern sha.New() (h) frame
  ensures h != nil
extern io.Copy(d, s) (n, e) frame
  ensures true
extern (*osp.File).Close() (e) frame
  ensures true
extern (*logr.Entry).Debugf(f, a) frame
  ensures true
extern fp.Abs(p) (a, e) frame
  ensures true
extern (*bufs.Scanner).Scan() (ok) frame
  ensures true
extern (*bufs.Scanner).Err() (e) frame
  ensures true
extern (*bufs.Scanner).Text() (l) frame
  ensures true
extern (*bufs.Scanner).Split(f) frame
  ensures true
extern bufs.NewScanner(r) (s) frame
  fresh s
  ensures true

# the sum of a file is the digest of everything that was read from it
verify iu.Sha256HashFile(path) (sum, err)
  modular
  modifies nothing
  nopanic
  ghost file ref
  ghost made any
  ghost fed any
  ghost digest string
  ghost summed bool
  oncall osp.Open(p) (f, e): set file = ite(e == nil && p == path, f, zero("*osp.File"))
  oncall sha.New() (h): set made = h
  oncall io.Copy(d, s) (n, e): set fed = ite(e == nil && d == box(made, "hashp.Hash") && typeis(s, "*osp.File") && unbox(s, "*osp.File") == as(file, "*osp.File"), d, nil)
  oncall (hashp.Hash).Sum(h, b) (r): set summed = h == fed && len(b) == 0
  oncall (hashp.Hash).Sum(h, b) (r): set digest = hexp.EncodeToString(r)
  ensures the sum is of the whole file: err == nil ==> (summed && sum == digest)
  cover summed: err == nil

verify iu.FileHasSha256Sum(path, want) (ok, sum, err)
  nopanic
  ghost got string
  ghost done bool
  oncall iu.Sha256HashFile(p) (h, e): set done = e == nil && p == path
  oncall iu.Sha256HashFile(p) (h, e): set got = h
  ensures only when the sums match: ok ==> (err == nil && done && got == want)
  ensures always when the sums match: (done && got == want) ==> (ok && err == nil)
  cover matched: ok
  cover mismatched: !ok && err == nil

def listed(l) = len(regexp.MustCompile("^([a-z0-9]+)\\s+(\\S.+)$").FindStringSubmatch(l)) == 3
def sumOf(l) = regexp.MustCompile("^([a-z0-9]+)\\s+(\\S.+)$").FindStringSubmatch(l)[1]
def fileOf(l) = regexp.MustCompile("^([a-z0-9]+)\\s+(\\S.+)$").FindStringSubmatch(l)[2]

verify iu.Sha256VerifyDir(sumsFile, dir, log, cb) (ok, err)
  nopanic
  ghost file ref
  ghost scan ref
  ghost root string = dir
  ghost bad bool
  ghost pending bool
  ghost line string
  ghost ended bool
  ghost complete bool
  oncall fp.Abs(p) (a, e): set root = ite(dir == "" && p == sumsFile && e == nil, fp.Dir(a), root)
  oncall osp.Open(p) (f, e): set file = ite(e == nil && p == sumsFile, f, file)
  oncall bufs.NewScanner(r) (s): set scan = ite(typeis(r, "*osp.File") && unbox(r, "*osp.File") == as(file, "*osp.File"), s, scan)
  oncall (*bufs.Scanner).Scan(s) (more): set bad = bad || pending || s != scan
  oncall (*bufs.Scanner).Scan(s) (more): set ended = !more
  oncall (*bufs.Scanner).Text(_) (l): set line = l
  oncall (*bufs.Scanner).Text(_) (l): set pending = l != "" && !(listed(l) && fileOf(l) == sumsFile)
  oncall iu.Sha256HashFile(f) (h, e): set pending = pending && !(listed(line) && f == fp.Join(root, fileOf(line)) && e == nil && h == sumOf(line))
  oncall (*bufs.Scanner).Err(_) (e): set complete = ended && e == nil
  ensures every listed file has the listed checksum: (ok && err == nil) ==> (!bad && !pending)
  ensures the whole sums file was read: (ok && err == nil) ==> complete
  cover verified: ok && err == nil
