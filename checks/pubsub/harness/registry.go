//go:build relaygen && relayreg

package main

import (
	"fmt"

	"joyverif/mc"
	"joyverif/vs"
)

type vhHold struct {
	th         int
	key        string
	b, got     int // add called and returned
	rel, freed int // remove called and returned
	s          *stream
}

// registry: n sessions, each adding and removing rounds times.
func vhRegistry(name string, n, rounds, keys, bound, level int) mc.Exploration {
	rule := fmt.Sprintf("%d sessions, %d rounds of add and remove each over %d paths, all assignments and all interleavings within the preemption bound", n, rounds, keys)
	return mc.Exploration{Name: name, Rule: rule, Bound: bound, Run: func(c *mc.Ctx) {
		names := []string{"/a", "/b", "/a/b"}
		plan := make([][]string, n)
		top := 1
		for i := range plan {
			for r := 0; r < rounds; r++ {
				k := c.Choose(top)
				if k == top-1 && top < keys {
					top++
				}
				plan[i] = append(plan[i], names[k])
			}
		}
		logs := make([][]vhHold, n)
		vs.Run(c, level, func(s *vs.Sched) {
			reg := newStreams()
			for i := range plan {
				i := i
				s.Go(fmt.Sprintf("session%d", i), func() {
					for _, k := range plan[i] {
						h := vhHold{th: i, key: k, b: vs.Tick()}
						st, remove := reg.add(k)
						h.s, h.got = st, vs.Tick()
						vs.Gate(vs.LEnv, 10000+i)
						h.rel = vs.Tick()
						remove()
						h.freed = vs.Tick()
						logs[i] = append(logs[i], h)
					}
				})
			}
			s.Explore()
			s.Join()
			for _, t := range s.Threads() {
				if t.Panic != "" {
					c.FailK("panic", "%s panicked: %s", t.Name, t.Panic)
				}
				if !t.Done {
					c.Fail("%s is stuck in the registry", t.Name)
				}
			}
			var all []vhHold
			for _, l := range logs {
				all = append(all, l...)
			}
			out := ""
			for i, x := range all {
				out += x.key
				for j, y := range all {
					if i == j {
						continue
					}
					if x.s == y.s {
						out += fmt.Sprint("=", j)
					}
					overlap := x.got < y.rel && y.got < x.rel
					switch {
					case x.key != y.key && x.s == y.s:
						c.Fail("sessions on %s and %s share a stream", x.key, y.key)
					case x.key == y.key && overlap && x.s != y.s:
						c.Fail("two sessions active on %s at the same time have different streams (%v and %v)", x.key, x, y)
					}
				}
				// fresh: nobody can have held the stream when x was added
				for j, y := range all {
					if i == j || y.key != x.key || y.s != x.s || y.freed > x.b {
						continue
					}
					held := false
					for k, z := range all {
						if k != i && k != j && z.key == x.key && z.b < x.got && z.freed > y.rel {
							held = true
						}
					}
					if !held {
						c.Fail("a session on %s gets the stream of sessions that all ended before", x.key)
					}
				}
			}
			c.Outcome(out)
			c.Validated(1)
		}, nil)
	}}
}

// names: distinct paths are distinct streams, however alike.
func vhNames() mc.Exploration {
	l := []string{"", "/", "//", "/a", "a", "/a/", "//a", "/A", "/b", "/ab", "/a/b", "/a/b/", "/a/b/c", "/b/a", "/a1", "/a10", "/a-1", "/a_1", "/a.flv", "/a b", "/a%20b", "/a+b", "/live/cam", "/live/cam1", "/live/cam01", "/live/Cam", "/live1/cam", "/é", "/e", "/a?x", "/a#x", "/a\x00"}
	return mc.Exploration{Name: "names", Rule: fmt.Sprintf("all ordered pairs of %d paths", len(l)), Run: func(c *mc.Ctx) {
		a, b := l[c.Choose(len(l))], l[c.Choose(len(l))]
		reg := newStreams()
		x, rx := reg.add(a)
		y, ry := reg.add(b)
		if (x == y) != (a == b) {
			c.Fail("sessions on %q and %q: same stream %v", a, b, x == y)
		}
		rx()
		if z, rz := reg.add(b); z != y {
			c.Fail("after the session on %q ended, one on %q no longer shares the stream of the active one", a, b)
		} else {
			rz()
		}
		ry()
		if z, rz := reg.add(b); z == y || z == x {
			c.Fail("a session on %q gets an old stream", b)
		} else {
			rz()
		}
		c.Step(4)
		c.Outcome(a, b)
		c.Validated(1)
	}}
}

func init() {
	vhInner["S04"] = func(tier string) []mc.Exploration {
		if tier == "thorough" {
			return []mc.Exploration{
				vhNames(),
				vhRegistry("registry", 3, 1, 3, 6, vs.LAll),
				vhRegistry("registry, two rounds", 2, 2, 2, 5, vs.LAll),
				vhRegistry("registry, four sessions", 4, 1, 2, 3, vs.LSync),
				vhRegistry("registry, three sessions, two rounds", 3, 2, 2, 3, vs.LSync),
			}
		}
		return []mc.Exploration{
			vhNames(),
			vhRegistry("registry", 3, 1, 2, 2, vs.LAll),
			vhRegistry("registry, two rounds", 2, 2, 2, 4, vs.LSync),
			vhRegistry("registry, three sessions, two rounds", 3, 2, 2, 2, vs.LSync),
		}
	}
}
