package main

import (
	"reflect"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/av/pktop"

	"joyverif/mc"
	"joyverif/vs"
)

var u01start = []time.Duration{0, 40 * time.Millisecond, time.Hour, -time.Second}
var u01delta = []time.Duration{40 * time.Millisecond, 0, -20 * time.Millisecond, 70 * time.Millisecond, time.Hour, -2 * time.Hour, time.Nanosecond}
var u01wait = []time.Duration{0, 30 * time.Millisecond, 55 * time.Millisecond, 2 * time.Hour}

func u01Run(c *mc.Ctx, n int, starts, deltas, waits []time.Duration) {
	ts := make([]time.Duration, n)
	wait := make([]time.Duration, n)
	join := make([]bool, n) // handed over together with the one before
	idle := waits[c.Choose(2)*(len(waits)-1)]
	for i := range ts {
		if i == 0 {
			ts[0] = starts[c.Choose(len(starts))]
			continue
		}
		ts[i] = ts[i-1] + deltas[c.Choose(len(deltas))]
		k := c.Choose(len(waits) + 1)
		if k == len(waits) {
			join[i] = true
		} else {
			wait[i] = waits[k]
		}
	}
	c.Logf("limiter made %v before the first packet; times %v, source delays %v, joined %v", idle, ts, wait, join)
	if r := vs.Bubble(func() {
		l := pktop.NewNativeRateLimiter()
		time.Sleep(idle)
		var first, hiW time.Time
		var hi time.Duration
		begin := time.Now()
		for i := 0; i < n; {
			j := i + 1
			for j < n && join[j] {
				j++
			}
			time.Sleep(wait[i])
			arrived := time.Now()
			var in []av.Packet
			for k := i; k < j; k++ {
				in = append(in, mkPkt(k, ts[k]))
			}
			want := append([]av.Packet(nil), in...)
			got := l.Do(in)
			if !reflect.DeepEqual(got, want) {
				c.FailK("changed", "packets %d..%d came out as %v, want %v", i, j-1, got, want)
			}
			now := time.Now()
			if i == 0 {
				first, hi, hiW = arrived, ts[0], arrived
			}
			// the latest moment the limiter may hold the batch to, and the
			// earliest it may let it go
			late := arrived
			early := first
			for k := i; k < j; k++ {
				if e := first.Add(ts[k] - ts[0]); e.After(early) {
					early = e
				}
				if ts[k] > hi {
					if d := hiW.Add(ts[k] - hi); d.After(late) {
						late = d
					}
					hi, hiW = ts[k], late
				}
			}
			if now.Before(early) {
				c.FailK("early", "packets %d..%d left %v after the first, their time is %v", i, j-1, now.Sub(first), early.Sub(first))
			}
			if now.After(late) {
				c.FailK("late", "packets %d..%d were held until %v, due at %v", i, j-1, now.Sub(begin), late.Sub(begin))
			}
			if hiW.After(now) {
				hiW = now
			}
			c.Step(1)
			c.State(j, now.Sub(begin), now.Sub(hiW), ts[j-1]-hi)
			i = j
		}
	}); r != nil {
		panic(r)
	}
	c.Outcome("paced")
}

func mkPkt(i int, t time.Duration) av.Packet {
	p := av.Packet{Type: av.H264, Time: t, CTime: time.Duration(i) * time.Millisecond, Data: []byte{byte(i), 1}}
	if i%2 == 1 {
		p.Type = av.AAC
	}
	p.IsKeyFrame = i%3 == 0
	return p
}

func u01(tier string) []mc.Exploration {
	n, starts, deltas, waits := 4, u01start, u01delta, u01wait
	if tier == "thorough" {
		n = 5
	}
	ex := []mc.Exploration{{Name: "sequences", Rule: "packet times and source delays, each packet alone or joined to the one before",
		Run: func(c *mc.Ctx) {
			u01Run(c, 1+c.Choose(n), starts, deltas, waits)
		}}}
	long := 8
	if tier == "thorough" {
		long = 11
	}
	ex = append(ex, mc.Exploration{Name: "long", Rule: "longer sequences over a forward and a backward step, in time or late",
		Run: func(c *mc.Ctx) {
			u01Run(c, long, u01start[:1], []time.Duration{40 * time.Millisecond, -20 * time.Millisecond}, []time.Duration{0, 55 * time.Millisecond})
		}})
	return ex
}
