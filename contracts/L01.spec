property L01
alias p1 = github.com/choria-io/go-choria/aagent
sweep p1
alias p2 = github.com/choria-io/go-choria/aagent/http
sweep p2
alias p3 = github.com/choria-io/go-choria/aagent/machine
sweep p3
alias p4 = github.com/choria-io/go-choria/aagent/watchers
sweep p4
alias p5 = github.com/choria-io/go-choria/aagent/watchers/archivewatcher
sweep p5
alias p6 = github.com/choria-io/go-choria/aagent/watchers/ccmmanifestwatcher
sweep p6
alias p7 = github.com/choria-io/go-choria/aagent/watchers/execwatcher
sweep p7
alias p8 = github.com/choria-io/go-choria/aagent/watchers/expressionwatcher
sweep p8
alias p9 = github.com/choria-io/go-choria/aagent/watchers/filewatcher
sweep p9
alias p10 = github.com/choria-io/go-choria/aagent/watchers/gossipwatcher
sweep p10
alias p11 = github.com/choria-io/go-choria/aagent/watchers/httpswitchwatcher
sweep p11
alias p12 = github.com/choria-io/go-choria/aagent/watchers/kvwatcher
sweep p12
alias p13 = github.com/choria-io/go-choria/aagent/watchers/machineswatcher
sweep p13
alias p14 = github.com/choria-io/go-choria/aagent/watchers/metricwatcher
sweep p14
alias p15 = github.com/choria-io/go-choria/aagent/watchers/nagioswatcher
sweep p15
alias p16 = github.com/choria-io/go-choria/aagent/watchers/pluginswatcher
sweep p16
alias p17 = github.com/choria-io/go-choria/aagent/watchers/schedulewatcher
sweep p17
alias p18 = github.com/choria-io/go-choria/aagent/watchers/timerwatcher
sweep p18
alias p19 = github.com/choria-io/go-choria/aagent/watchers/watcher
sweep p19
alias p20 = github.com/choria-io/go-choria/broker/federation
sweep p20
alias p21 = github.com/choria-io/go-choria/broker/network
sweep p21
alias p22 = github.com/choria-io/go-choria/build
sweep p22
alias p23 = github.com/choria-io/go-choria/choria
sweep p23
alias p24 = github.com/choria-io/go-choria/config
sweep p24
alias p25 = github.com/choria-io/go-choria/lifecycle/tally
sweep p25
alias p26 = github.com/choria-io/go-choria/message
sweep p26
alias p27 = github.com/choria-io/go-choria/protocol
sweep p27
alias p28 = github.com/choria-io/go-choria/protocol/v1
sweep p28
alias p29 = github.com/choria-io/go-choria/protocol/v2
sweep p29
alias p30 = github.com/choria-io/go-choria/providers/agent/mcorpc/aggregate
sweep p30
alias p31 = github.com/choria-io/go-choria/providers/agent/mcorpc/audit
sweep p31
alias p32 = github.com/choria-io/go-choria/providers/agent/mcorpc/client
sweep p32
alias p33 = github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent
sweep p33
alias p34 = github.com/choria-io/go-choria/providers/agent/mcorpc/external
sweep p34
alias p35 = github.com/choria-io/go-choria/providers/agent/mcorpc/golang/provision
sweep p35
alias p36 = github.com/choria-io/go-choria/providers/appbuilder/rpc
sweep p36
alias p37 = github.com/choria-io/go-choria/providers/data
sweep p37
alias p38 = github.com/choria-io/go-choria/providers/discovery/broadcast
sweep p38
alias p39 = github.com/choria-io/go-choria/providers/election/streams
sweep p39
alias p40 = github.com/choria-io/go-choria/providers/governor/streams
sweep p40
alias p41 = github.com/choria-io/go-choria/providers/provtarget
sweep p41
alias p42 = github.com/choria-io/go-choria/puppet
sweep p42
alias p43 = github.com/choria-io/go-choria/scout/stream
sweep p43
alias p44 = github.com/choria-io/go-choria/scout/updatenotifier
sweep p44
alias p45 = github.com/choria-io/go-choria/server
sweep p45
alias p46 = github.com/choria-io/go-choria/server/agents
sweep p46
alias p47 = github.com/choria-io/go-choria/srvcache
sweep p47
alias p48 = github.com/choria-io/go-choria/statistics
sweep p48
alias p49 = github.com/choria-io/go-choria/submission
sweep p49
