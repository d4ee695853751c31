package main

import "vsim/harness/kit"

var suite = &kit.Suite{Name: "core", Scenarios: map[string]*kit.Scenario{}, Props: map[string]*kit.PropSpec{},
	Real: []string{"health (stream, jobs, errors, aggregator, polling sink and its HTTP handler, StatsD sink, writer sinks, Merge/Clone)", "health/stack", "health/sinks/bugsnag", "health/sinks/librato", "health/runtime_metrics"},
	Stub: []string{"goroutine scheduler, channels, select, sync, map iteration order", "clock, timers and tickers", "UDP network and StatsD daemon", "HTTP transport and servers, Bugsnag and Librato services", "runtime memory/GC statistics, /proc/self/fd, hostname and pid"},
}

func main() { suite.Main() }
