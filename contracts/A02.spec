property A02
alias nagios = github.com/choria-io/go-choria/aagent/watchers/nagioswatcher
alias execw = github.com/choria-io/go-choria/aagent/watchers/execwatcher
alias metricw = github.com/choria-io/go-choria/aagent/watchers/metricwatcher
alias archivew = github.com/choria-io/go-choria/aagent/watchers/archivewatcher
alias filew = github.com/choria-io/go-choria/aagent/watchers/filewatcher
alias kvw = github.com/choria-io/go-choria/aagent/watchers/kvwatcher
alias schedw = github.com/choria-io/go-choria/aagent/watchers/schedulewatcher
alias exprw = github.com/choria-io/go-choria/aagent/watchers/expressionwatcher
alias nats = github.com/nats-io/nats.go
alias ccmmodel = github.com/choria-io/ccm/model
alias pluginsw = github.com/choria-io/go-choria/aagent/watchers/pluginswatcher
alias machinesw = github.com/choria-io/go-choria/aagent/watchers/machineswatcher
alias httpsw = github.com/choria-io/go-choria/aagent/watchers/httpswitchwatcher
alias ccmw = github.com/choria-io/go-choria/aagent/watchers/ccmmanifestwatcher

# neither this nor any other machine changes state while the decision is being made
pure (model.Machine).State (model.Machine).LookupExternalMachineState

def declared(w, s) = exists(i, 0, len(w.activeStates), w.activeStates[i] == s)
def satisfied(w, q) = q.MachineName != "" && q.MachineState != "" && r1(w.machine.LookupExternalMachineState(q.MachineName)) == nil && r0(w.machine.LookupExternalMachineState(q.MachineName)) == q.MachineState
def localOK(w) = len(w.activeStates) == 0 || declared(w, w.machine.State())
def foreignOK(w) = forall(j, 0, len(w.requiredStates), satisfied(w, w.requiredStates[j]))

verify (w *watcher.Watcher).ShouldWatch() (ok)
  modular
  requires w != nil
  ensures active only in declared states: ok ==> localOK(w)
  ensures active only when every required machine is in its state: ok ==> foreignOK(w)
  ensures active whenever all conditions hold: (w.machine != nil && localOK(w) && foreignOK(w)) ==> ok
  ensures never without a machine: w.machine == nil ==> !ok
  modifies nothing
  cover active in a declared state: ok && len(w.activeStates) > 1 && len(w.requiredStates) > 1
  cover inactive: !ok && w.machine != nil

# what a watcher does to the node and the machine: run programs, change files, fetch, transition and store data
group effects
  ghost active bool
  oncall (*watcher.Watcher).ShouldWatch(_) (ok): set active = ok
  oncall (*os/exec.Cmd).*(_): maybe assert programs run only while active: active
  oncall (model.Machine).Transition(_): maybe assert transitions fire only while active: active
  oncall (model.Machine).DataPut(_): maybe assert data is stored only while active: active
  oncall (model.Machine).DataDelete(_): maybe assert data is removed only while active: active
  oncall os.Rename(_): maybe assert files are replaced only while active: active
  oncall os.WriteFile(_): maybe assert files are written only while active: active
  oncall os.MkdirAll(_): maybe assert directories are made only while active: active
  oncall os.RemoveAll(_): maybe assert files are removed only while active: active
  oncall os.Create(_): maybe assert files are created only while active: active
  oncall os.OpenFile(_): maybe assert files are opened only while active: active
  oncall (*net/http.Client).Do(_): maybe assert downloads happen only while active: active
  oncall (nats.KeyValue).Get(_): maybe assert keys are fetched only while active: active
  oncall (*nats.Conn).PublishMsg(_): maybe assert messages are published only while active: active

verify (w *execw.Watcher).performWatch(ctx, force)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (*os/exec.Cmd).CombinedOutput(_): assert the command runs only while active: active

verify (w *archivew.Watcher).performWatch(ctx, force)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall os.Rename(_): assert the archive is deployed only while active: active

verify (w *metricw.Watcher).performWatch(ctx)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (*os/exec.Cmd).CombinedOutput(_): assert the metric command runs only while active: active

verify (w *filew.Watcher).performWatch(ctx)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (model.Machine).Transition(_): assert file changes are acted on only while active: active

verify (w *schedw.Watcher).watch() (err)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (model.Machine).Transition(_): assert schedules are acted on only while active: active

verify (w *exprw.Watcher).performWatch()
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (model.Machine).Transition(_): assert expressions are acted on only while active: active

verify (w *pluginsw.Watcher).performWatch(ctx, force)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall os.WriteFile(_): assert plugins are deployed only while active: active

verify (w *machinesw.Watcher).performWatch(ctx, force)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall os.WriteFile(_): assert machines are deployed only while active: active

verify (w *kvw.Watcher).poll() (s, err)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (nats.KeyValue).Get(_): assert the key is polled only while active: active

verify (w *nagios.Watcher).watch(ctx) (s, err)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (*nagios.Watcher).ShouldWatch(_) (ok): set active = ok
  oncall (*os/exec.Cmd).*(_): maybe assert checks run only while active: active

verify (w *nagios.Watcher).ShouldWatch() (ok)
  requires w != nil && w.Watcher != nil
  ghost active bool
  oncall (*watcher.Watcher).ShouldWatch(_) (a): set active = a
  ensures checks need an active state unless forced: ok ==> (active || old(w.force))

verify (w *ccmw.Watcher).performWatch(ctx, force)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (ccmmodel.Apply).Execute(_): assert manifests are applied only while active: active

verify (w *httpsw.Watcher).handleStateChange(s) (err)
  requires w != nil && w.Watcher != nil && w.properties != nil
  use effects
  oncall (model.Machine).Transition(_): assert button presses are acted on only while active: active
