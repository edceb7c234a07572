// Package vsched is a controlled scheduler for code running inside a testing/synctest
// bubble. At every scheduling point (Y) a goroutine either keeps the turn or parks; the
// bubble's main goroutine hands the turn out (Run) whenever everything is blocked.
package vsched

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
)

type parked struct {
	g  int // logical goroutine number
	ch chan struct{}
}

// Sched is the scheduler of one bubble.
type Sched struct {
	mu      sync.Mutex
	rng     *rand.Rand
	preempt float64 // probability to lose the turn at a scheduling point
	pct     bool    // priority based (PCT) instead of uniform choice
	freeze  float64 // probability to stop at a scheduling point until nothing else can run
	frozen  map[int]bool
	prio    map[int]float64
	depth   map[int]bool // PCT change points by step
	holder  int
	ids     map[uint64]int
	parked  []parked
	Steps   int
	quiet   int   // scheduling points to come without a switch, then one happens
	quiets  []int // the next ones
	skip    int   // it just lost the turn
	Panics  []string
	dead    bool
}

var cur atomic.Pointer[Sched]

// New installs a scheduler. preempt is the preemption probability; if pct > 0,
// priority scheduling with that many priority change points is used instead.
func New(seed uint64, preempt float64, pct int) *Sched {
	s := &Sched{rng: rand.New(rand.NewPCG(seed, 77)), preempt: preempt, ids: map[uint64]int{}, prio: map[int]float64{}, frozen: map[int]bool{}}
	if preempt < 0 { // sometimes one stops for long, the rest goes on
		s.preempt, s.freeze = 0.02, -preempt
	}
	if pct > 0 {
		s.pct = true
		s.depth = map[int]bool{}
		for i := 0; i < pct; i++ {
			s.depth[s.rng.IntN(600)] = true
		}
	}
	cur.Store(s)
	return s
}

// Stop uninstalls the scheduler; parked goroutines stay parked.
func (s *Sched) Stop() {
	s.mu.Lock()
	s.dead = true
	s.mu.Unlock()
	cur.CompareAndSwap(s, nil)
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	x := b[10:n] // "goroutine "
	i := bytes.IndexByte(x, ' ')
	v, _ := strconv.ParseUint(string(x[:i]), 10, 64)
	return v
}

// GID returns the id of the calling goroutine.
func GID() uint64 { return goid() }

var mainID atomic.Uint64

// SetMain marks the calling goroutine as the one that calls Run; it never parks.
func SetMain() { mainID.Store(goid()) }

// Race is called when something racy begins: the turn changes hands a few times at
// random distances of up to n scheduling points, and not in between (n < 0: sometimes).
func Race(n int) {
	if s := cur.Load(); s != nil {
		s.mu.Lock()
		if n < 0 {
			n = -n
			if s.quiet > 0 || s.rng.IntN(3) > 0 {
				s.mu.Unlock()
				return
			}
		}
		s.quiet = 1 + s.rng.IntN(n)
		s.quiets = []int{1 + s.rng.IntN(n), 1 + s.rng.IntN(n)}
		s.mu.Unlock()
	}
}

// Y is a scheduling point.
func Y() {
	s := cur.Load()
	if s == nil {
		return
	}
	g := goid()
	if g == mainID.Load() {
		return
	}
	s.mu.Lock()
	if s.dead {
		s.mu.Unlock()
		return
	}
	id, ok := s.ids[g]
	if !ok {
		id = len(s.ids) + 1
		s.ids[g] = id
		s.prio[id] = s.rng.Float64()
	}
	if s.holder == id {
		s.Steps++
		if s.quiet > 0 {
			s.quiet--
			if s.quiet > 0 {
				s.mu.Unlock()
				return
			}
			s.skip = id
			if len(s.quiets) > 0 {
				s.quiet, s.quiets = s.quiets[0], s.quiets[1:]
			}
		} else if s.pct {
			if !s.depth[s.Steps] {
				s.mu.Unlock()
				return
			}
			s.prio[id] = -s.rng.Float64() // demote
		} else if s.freeze > 0 && len(s.frozen) < 3 && s.rng.Float64() < s.freeze {
			s.frozen[id] = true
		} else if s.preempt == 0 || s.rng.Float64() >= s.preempt {
			s.mu.Unlock()
			return
		}
		s.holder = 0
	}
	ch := make(chan struct{})
	s.parked = append(s.parked, parked{id, ch})
	s.mu.Unlock()
	<-ch
}

// Next gives the turn to one parked goroutine; it reports false if none is parked.
// The caller must make sure (synctest.Wait) that everything else is blocked.
func (s *Sched) Next() bool {
	s.mu.Lock()
	if len(s.parked) == 0 {
		s.mu.Unlock()
		return false
	}
	sort.Slice(s.parked, func(i, j int) bool { return s.parked[i].g < s.parked[j].g })
	i := 0
	switch {
	case s.pct:
		for j := range s.parked {
			if s.prio[s.parked[j].g] > s.prio[s.parked[i].g] {
				i = j
			}
		}
	case s.preempt > 0:
		i = s.rng.IntN(len(s.parked))
		if s.frozen[s.parked[i].g] {
			var free []int
			for j, p := range s.parked {
				if !s.frozen[p.g] {
					free = append(free, j)
				}
			}
			if len(free) > 0 {
				i = free[s.rng.IntN(len(free))]
			} else {
				delete(s.frozen, s.parked[i].g)
			}
		}
	}
	if s.skip != 0 {
		if s.parked[i].g == s.skip && len(s.parked) > 1 {
			i = (i + 1 + s.rng.IntN(len(s.parked)-1)) % len(s.parked)
		}
		s.skip = 0
	}
	p := s.parked[i]
	s.parked = append(s.parked[:i], s.parked[i+1:]...)
	s.holder = p.g
	s.mu.Unlock()
	close(p.ch)
	return true
}

// Recover is deferred in every goroutine of the code under test: a panic is recorded
// instead of killing the driver.
func Recover() {
	if r := recover(); r != nil {
		s := cur.Load()
		msg := fmt.Sprintf("%v\n%s", r, debug.Stack())
		if s == nil {
			panic(r)
		}
		s.mu.Lock()
		s.Panics = append(s.Panics, msg)
		s.mu.Unlock()
	}
}
