// Command rpc holds the drivers of the request, stream, lifecycle and middleware
// properties. Scenario names start with the property they decide.
package main

import (
	"strings"

	"github.com/livekit/psrpc/internal/zzverif/mc"
	"github.com/livekit/psrpc/internal/zzverif/sim"
)

var (
	scenarios []mc.Scenario
	seqs      []mc.Seq
)

func add(s ...mc.Scenario) { scenarios = append(scenarios, s...) }
func addSeq(s ...mc.Seq)   { seqs = append(seqs, s...) }

// env enumerates every combination of the environment choices.
var env = []mc.Pass{mc.E}

func main() {
	mc.Main(append(scenarios, overNetwork()...), seqs)
}

// backends are the buses that the scenarios are repeated over: the real Redis and
// NATS clients of scripted servers, with a process for each server and client, and
// with one process for all of them.
var backends = []string{"nats", "redis", "nats+", "redis+"}

// overNetwork is every scenario over every other bus.
func overNetwork() (l []mc.Scenario) {
	for _, b := range backends {
		for _, s := range scenarios {
			id, name, _ := strings.Cut(s.Name, "/")
			if s.Race || localOnly[id] || localOnly[s.Name] || id == "P22" && !strings.HasSuffix(b, "+") {
				continue // P22 counts goroutines, those of processes too
			}
			c := s
			c.Name = id + "@" + b + "/" + name
			c.Body = on(b, s.Body)
			if strings.HasPrefix(b, "redis") {
				c.AllowAlive = -1 // its readers stay
			}
			c.Passes, c.Deep = nil, nil
			for i, p := range s.Passes {
				switch {
				case p.Class == mc.Env:
					if deepOnly[s.Name] {
						c.Deep = append(c.Deep, p)
					} else {
						c.Passes = append(c.Passes, p)
					}
				case i == 0 || s.Passes[0].Class == mc.Env && i == 1:
					c.Passes = append(c.Passes, mc.P1s)
					c.Deep = append(c.Deep, mc.P1, mc.P2s)
				}
			}
			l = append(l, c)
		}
	}
	return
}

// localOnly are properties and scenarios without a world, or about the local bus.
var localOnly = map[string]bool{"P13": true, "P16": true, "P18": true, "P23": true,
	// NATS drops what does not fit in a buffer
	"P03/stream-4s-smallbuf": true, "P04/small-buffers": true, "P05/small-buffers": true, "P08/small-buffers": true}

// deepOnly are repeated by the thorough tier only.
var deepOnly = map[string]bool{"P07/sequences-3": true, "P24/sequences-4": true, "P24/sequences-5": true}

// on runs a scenario over another bus.
func on(backend string, body func(x *mc.X)) func(x *mc.X) {
	return func(x *mc.X) {
		sim.Backend = backend
		defer func() { sim.Backend = "" }()
		body(x)
	}
}
