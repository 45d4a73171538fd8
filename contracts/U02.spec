property U02
alias rand = math/rand/v2

extern rand.N(n) (r)
  requires rand.N argument is positive: n > 0
  ensures r >= 0 && r < n

ufn limit() int

def step(b, n) = b.Millis[ite(n < len(b.Millis), n, len(b.Millis)-1)]

verify (b bo.Policy).Duration(n) (d)
  requires len(b.Millis) > 0 && n >= 0
  requires steps are sane: forall(i, 0, len(b.Millis), b.Millis[i] >= 0 && b.Millis[i] <= limit() && b.Millis[i] <= 6000000000)
  nopanic
  ensures never negative: d >= 0
  ensures never more than one and a half times the largest step: 2*d <= 3*limit()*1000000
  ensures at least about half the step, the last step repeating: 2*d >= (step(b,n)-1)*1000000
  ensures at most one and a half times the step, the last step repeating: 2*d <= 3*step(b,n)*1000000
  cover n >= len(b.Millis)
  cover n < len(b.Millis)

verify (b bo.Policy).TrySleep(ctx, n) (err)
  requires len(b.Millis) > 0 && n >= 0 && ctx != nil
  requires steps are sane: forall(i, 0, len(b.Millis), b.Millis[i] >= 0 && b.Millis[i] <= limit() && b.Millis[i] <= 6000000000)
  nopanic
  oncall time.NewTimer(t): maybe assert waits for the delay of this try: 2*t >= (step(b,n)-1)*1000000 && 2*t <= 3*step(b,n)*1000000

verify (b bo.Policy).For(ctx, cb) (err)
  requires len(b.Millis) > 0 && ctx != nil && cb != nil
  requires steps are sane: forall(i, 0, len(b.Millis), b.Millis[i] >= 0 && b.Millis[i] <= limit() && b.Millis[i] <= 6000000000)
  ghost last error
  ghost calls int
  ghost done bool
  oncall dynamic:*(_, try) (e): assert tries count up from one: try == calls + 1
  oncall dynamic:*(_, try) (e): set calls = calls + 1
  oncall dynamic:*(_, try) (e): set last = e
  oncall (context.Context).Err(_) (e): assume done ==> e != nil
  oncall (context.Context).Err(_) (e): set done = done || e != nil
  nopanic
  ensures success only after the callback succeeded: err == nil ==> (calls > 0 && last == nil)
