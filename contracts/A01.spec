property A01
alias mach = github.com/choria-io/go-choria/aagent/machine
alias wt = github.com/choria-io/go-choria/aagent/watchers
alias bo = github.com/choria-io/go-choria/backoff
alias fsmp = github.com/looplab/fsm

def named(xs, s) = exists(i, 0, len(xs), xs[i] == s)
def isState(m, s) = s == m.InitialState || exists(i, 0, len(m.Transitions), m.Transitions[i].Destination == s || named(m.Transitions[i].From, s))
def isEvent(m, s) = exists(i, 0, len(m.Transitions), m.Transitions[i].Name == s)
def statesOK(w, valid) = forall(i, 0, len(w.StateMatch), named(valid, w.StateMatch[i]))
def eventsOK(w, valid) = (w.FailTransition != "" ==> named(valid, w.FailTransition)) && (w.SuccessTransition != "" ==> named(valid, w.SuccessTransition))

verify (w *wt.WatcherDef) ParseAnnounceInterval() (err)
  modular
  modifies w.AnnounceDuration

verify (w *wt.WatcherDef) ValidateStates(valid) (err)
  modular
  modifies nothing
  ensures only declared states are accepted: err == nil ==> statesOK(w, valid)
  ensures declared states are accepted: statesOK(w, valid) ==> err == nil
  cover ok: err == nil && len(w.StateMatch) > 1

verify (w *wt.WatcherDef) ValidateTransitions(valid) (err)
  modular
  modifies nothing
  ensures only declared transitions are accepted: err == nil ==> eventsOK(w, valid)
  ensures declared transitions are accepted: eventsOK(w, valid) ==> err == nil

verify (m *mach.Machine) KnownTransitions() (r)
  modular
  modifies nothing
  requires forall(i, 0, len(m.Transitions), m.Transitions[i] != nil)
  ensures the known transitions are those declared: len(r) == len(m.Transitions) && forall(i, 0, len(r), r[i] == m.Transitions[i].Name)

extern (mach.WatcherManager).SetMachine(m) (e) frame
  ensures true

def wellFormed(m) = forall(i, 0, len(m.Transitions), m.Transitions[i] != nil)
def known(m) = forall(k, "string", has(m.knownStates, k) ==> isState(m, k))

verify (m *mach.Machine) KnownStates() (r)
  modular
  modifies m.knownStates
  requires wellFormed(m) && known(m)
  ensures known(m)
  ensures only declared states are known: forall(i, 0, len(r), isState(m, r[i]))

verify (m *mach.Machine) Validate() (err)
  nopanic
  requires known(m)
  ensures no transition or watcher is empty: err == nil ==> (wellFormed(m) && forall(i, 0, len(m.WatcherDefs), m.WatcherDefs[i] != nil))
  ensures a machine has a name and a version: err == nil ==> (m.MachineName != "" && m.MachineVersion != "")
  ensures a machine has an initial state transitions and watchers: err == nil ==> (m.InitialState != "" && len(m.Transitions) > 0 && len(m.WatcherDefs) > 0)
  ensures watchers use declared states: err == nil ==> forall(i, 0, len(m.WatcherDefs), forall(j, 0, len(m.WatcherDefs[i].StateMatch), isState(m, m.WatcherDefs[i].StateMatch[j])))
  ensures watchers use declared transitions: err == nil ==> forall(i, 0, len(m.WatcherDefs), (m.WatcherDefs[i].FailTransition != "" ==> isEvent(m, m.WatcherDefs[i].FailTransition)) && (m.WatcherDefs[i].SuccessTransition != "" ==> isEvent(m, m.WatcherDefs[i].SuccessTransition)))
  cover ok: err == nil && len(m.WatcherDefs) > 1

verify (m *mach.Machine) Setup() (err)
  opaque (*mach.Machine).Validate
  ghost valid bool
  ghost built ref
  ghost same bool
  oncall (*mach.Machine).Validate(x) (e): set valid = e == nil && x == m
  oncall fsmp.NewFSM(init, events, cb): assert machines start in their initial state: init == m.InitialState
  oncall fsmp.NewFSM(init, events, cb): assert every declared transition and nothing else: len(events) == len(m.Transitions) && forall(i, 0, len(events), events[i].Name == m.Transitions[i].Name && events[i].Dst == m.Transitions[i].Destination && len(events[i].Src) == len(m.Transitions[i].From) && forall(j, 0, len(events[i].Src), events[i].Src[j] == m.Transitions[i].From[j]))
  oncall fsmp.NewFSM(init, events, cb) (f): set built = f
  ensures only valid machines are set up: err == nil ==> (valid && m.fsm == built)

extern (mach.NotificationService).Debugf(i, w, f, a) frame
  ensures true
extern (mach.NotificationService).Infof(i, w, f, a) frame
  ensures true
extern (mach.NotificationService).Warnf(i, w, f, a) frame
  ensures true
extern (mach.NotificationService).Errorf(i, w, f, a) frame
  ensures true
extern (*fsmp.FSM).Can(e) (ok) frame
  ensures true
extern (*fsmp.FSM).Current() (s) frame
  ensures true
extern (*fsmp.FSM).Event(ctx, e, args) (err) frame
  ensures true
extern (bo.Policy).TrySleep(ctx, n) (err) frame
  ensures true
extern (bo.Policy).Duration(n) (d) frame
  ensures true
extern time.AfterFunc(d, f) (t) frame
  ensures true

verify (m *mach.Machine) Transition(t, args) (err)
  modular
  modifies m.backoffTimer, m.transitionCounter
  requires m != nil && m.fsm != nil
  ghost can bool
  oncall (*fsmp.FSM).Can(f, e) (ok): set can = ok && f == m.fsm && e == t
  oncall (*fsmp.FSM).Event(f, ctx, e, a): assert only transitions possible in the current state are fired: can && f == m.fsm && e == t && t != ""

verify (m *mach.Machine) Can(t) (ok)
  ghost can bool
  oncall (*fsmp.FSM).Can(f, e) (ok): set can = ok && f == m.fsm && e == t
  ensures possible transitions are those of the machine: ok == can

verify (m *mach.Machine) State() (s)
  ghost cur string
  oncall (*fsmp.FSM).Current(f) (c): assert the machine is asked: f == m.fsm
  oncall (*fsmp.FSM).Current(f) (c): set cur = c
  ensures the state is that of the machine: s == cur

verify (m *mach.Machine) ExternalEventNotify(event)
  requires wellFormed(m) && event != nil && m.fsm != nil
  oncall (*mach.Machine).Transition(x, t, _): assert only subscribed transitions are fired: x == m && exists(i, 0, len(m.Transitions), m.Transitions[i].Name == t && exists(j, 0, len(m.Transitions[i].Subscriptions), m.Transitions[i].Subscriptions[j].MachineName == event.Machine && m.Transitions[i].Subscriptions[j].Event == event.Transition))

verify mach.FromYAML(file, manager) (m, err)
  opaque (*mach.Machine).Validate (*mach.Machine).SetDirectory (*mach.Machine).buildFSM
  ghost valid ref
  ghost built ref
  oncall (*mach.Machine).Validate(x) (e): set valid = ite(e == nil, x, valid)
  oncall (*mach.Machine).buildFSM(x) (e): set built = ite(e == nil, x, built)
  ensures only valid machines are loaded: err == nil ==> (m != nil && valid == m && built == m)
  ensures subscriptions name a machine and an event: err == nil ==> forall(i, 0, len(m.Transitions), forall(j, 0, len(m.Transitions[i].Subscriptions), m.Transitions[i].Subscriptions[j].MachineName != "" && m.Transitions[i].Subscriptions[j].Event != ""))

verify mach.FromPlugin(p, manager, log) (m, err)
  opaque (*mach.Machine).Validate (*mach.Machine).SetDirectory (*mach.Machine).buildFSM
  ghost valid ref
  ghost built ref
  oncall (*mach.Machine).Validate(x) (e): set valid = ite(e == nil, x, valid)
  oncall (*mach.Machine).buildFSM(x) (e): set built = ite(e == nil, x, built)
  ensures only valid machines are loaded: err == nil ==> (m != nil && valid == m && built == m)

verify mach.FromDir(dir, manager) (m, err)
  opaque mach.FromYAML
  ghost loaded ref
  oncall mach.FromYAML(f, x) (l, e): set loaded = ite(e == nil, l, 0)
  ensures only valid machines are loaded: err == nil ==> loaded == m
