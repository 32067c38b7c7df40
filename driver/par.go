package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
	"time"

	"github.com/greymass/go-eosio/pkg/abi"
)

// Several goroutines run their calls at the same time, each with its own
// streams, encoders, decoders and hash objects, sharing the session's ABI
// definition, variables, decoded objects and (in free mode) input buffers.
//
// mode "free": as fast as they can, in a binary with the race detector;
// mode "sched": one at a time, changing over at calls, reads and writes as
// the schedule says.
func (s *session) par(ev raw) Obs {
	var p struct {
		Mode string  `json:"mode"`
		Gs   [][]raw `json:"gs"`
		Sch  []int   `json:"sch"`
	}
	b, _ := json.Marshal(ev)
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Fprintln(os.Stderr, "driver: bad event:", err)
		os.Exit(2)
	}
	n := len(p.Gs)
	args := make([][]Args, n)
	kids := make([]*session, n)
	obs := make([][]Obs, n)
	pool := map[string][]byte{}
	sc := newSched(n, p.Sch)
	for g := range p.Gs {
		k := &session{rd: &Rd{en: "eof"}, encs: map[string]*abi.Encoder{}, decs: map[string]*abi.Decoder{}, vars: map[int]reflect.Value{}}
		k.w.buf = append([]byte{}, s.w.buf...)
		k.x.abi, k.x.objs = s.x.abi, map[int]interface{}{}
		for i, v := range s.vars {
			k.vars[i] = v
		}
		for i, v := range s.x.objs {
			k.x.objs[i] = v
		}
		if p.Mode == "sched" {
			g := g
			k.gate = func() { sc.step(g) }
			k.w.gate, k.rd.gate = k.gate, k.gate
		} else {
			k.pool = pool
		}
		kids[g] = k
		for _, e := range p.Gs[g] {
			a := parseArgs(e)
			args[g] = append(args[g], a)
			for _, x := range [][]int{a.D, a.S} {
				if p.Mode != "sched" && pool[string(toBytes(x))] == nil {
					pool[string(toBytes(x))] = withTail(toBytes(x))
				}
			}
			if a.T.T != "" {
				a.T.build()
			}
		}
		obs[g] = make([]Obs, 0, len(args[g]))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for _, a := range args[g] {
				if p.Mode == "sched" {
					sc.step(g)
				}
				o := kids[g].run(a)
				obs[g] = append(obs[g], o)
				if o["out"] != "ok" && o["out"] != "err" {
					break
				}
			}
			if p.Mode == "sched" {
				sc.finish(g)
			}
		}(g)
	}
	close(start)
	if p.Mode == "sched" {
		sc.run()
	}
	wg.Wait()
	gs := [][]raw{}
	for g := range p.Gs {
		l := []raw{}
		for i, o := range obs[g] {
			b, err := json.Marshal(o)
			if err != nil {
				fmt.Fprintln(os.Stderr, "driver: cannot log:", err)
				os.Exit(2)
			}
			e := p.Gs[g][i]
			e["o"] = b
			l = append(l, e)
		}
		gs = append(gs, l)
	}
	return Obs{"out": "ok", "gs": gs, "free": sc.free}
}

// one goroutine at a time
type sched struct {
	sch    []int
	resume []chan struct{}
	at     chan int // a goroutine stopped at a step (g) or finished (-1-g)
	free   bool
	open   chan struct{}
}

func newSched(n int, sch []int) *sched {
	s := &sched{sch: sch, at: make(chan int, n), open: make(chan struct{})}
	for i := 0; i < n; i++ {
		s.resume = append(s.resume, make(chan struct{}))
	}
	return s
}

func (s *sched) step(g int) {
	select {
	case <-s.open:
		return
	case s.at <- g:
	}
	select {
	case <-s.open:
	case <-s.resume[g]:
	}
}

func (s *sched) finish(g int) {
	select {
	case <-s.open:
	case s.at <- -1 - g:
	}
}

func (s *sched) run() {
	n := len(s.resume)
	ready := make([]bool, n)
	done := make([]bool, n)
	wait := func() bool { // until somebody stops or finishes
		select {
		case x := <-s.at:
			if x < 0 {
				done[-1-x] = true
			} else {
				ready[x] = true
			}
			return true
		case <-time.After(5 * time.Second): // blocked on another one: give up control
			s.free = true
			close(s.open)
			return false
		}
	}
	for i := 0; i < n; i++ {
		if !wait() {
			return
		}
	}
	pos := 0
	for {
		g := -1
		for pos < len(s.sch) && g < 0 {
			if c := s.sch[pos] - 1; c >= 0 && c < n && ready[c] {
				g = c
			}
			pos++
		}
		for k := 0; k < n && g < 0; k++ {
			if c := (pos + k) % n; ready[c] {
				g = c
			}
		}
		if g < 0 {
			return
		}
		if pos >= len(s.sch) {
			pos++
		}
		ready[g] = false
		s.resume[g] <- struct{}{}
		if !wait() {
			return
		}
	}
}
