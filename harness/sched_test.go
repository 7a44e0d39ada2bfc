package zzverif

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-oidfed/lib/zzsched"
)

// Sched is a controlled scheduler: of the goroutines that have reached a
// scheduling point it lets exactly one go on, and waits until all are at a
// scheduling point or blocked again. Every choice is explored (delay bounded:
// the default is to go on with the same goroutine, else with the oldest one).
type Sched struct {
	c       *C
	mu      sync.Mutex
	waiting []*waiter
	ids     map[int64]int
	last    int
	ctl     int64
	off     bool
	points  func(label string) bool
	Points  int
	Switch  int
}

type waiter struct {
	gid   int64
	id    int
	label string
	ch    chan struct{}
}

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) < 2 {
		return -1
	}
	i, _ := strconv.ParseInt(f[1], 10, 64)
	return i
}

func (s *Sched) yield(label string) {
	if s.points != nil && !s.points(label) {
		return
	}
	g := goid()
	s.mu.Lock()
	if s.off || g == s.ctl {
		s.mu.Unlock()
		return
	}
	w := &waiter{gid: g, id: -1, label: label, ch: make(chan struct{})}
	s.waiting = append(s.waiting, w)
	s.mu.Unlock()
	<-w.ch
}

// newSched installs a scheduler; release has to be called at the end.
func newSched(c *C, points func(string) bool) *Sched {
	s := &Sched{c: c, ids: map[int64]int{}, ctl: goid(), last: -1, points: points}
	zzsched.SetHook(s.yield)
	return s
}

// release lets everything run freely again.
func (s *Sched) release() {
	zzsched.SetHook(nil)
	s.mu.Lock()
	s.off = true
	ws := s.waiting
	s.waiting = nil
	s.mu.Unlock()
	for _, w := range ws {
		close(w.ch)
	}
	synctest.Wait()
}

// run starts the tasks and schedules everything until they are done and, after
// that, nothing is left to schedule. It gives what does not get done.
func (s *Sched) run(tasks ...func()) (blocked string) {
	done := make([]bool, len(tasks))
	var dmu sync.Mutex
	for i, t := range tasks {
		go func() {
			s.yield(fmt.Sprint("!start ", i))
			t()
			dmu.Lock()
			done[i] = true
			dmu.Unlock()
		}()
	}
	idle := 0
	for {
		synctest.Wait()
		s.mu.Lock()
		// name the goroutines in an order that does not depend on chance
		sort.SliceStable(s.waiting, func(i, j int) bool { return s.waiting[i].label < s.waiting[j].label })
		for _, w := range s.waiting {
			if w.id < 0 {
				id, ok := s.ids[w.gid]
				if !ok {
					id = len(s.ids)
					s.ids[w.gid] = id
				}
				w.id = id
			}
		}
		sort.SliceStable(
			s.waiting, func(i, j int) bool {
				a, b := s.waiting[i], s.waiting[j]
				if (a.id == s.last) != (b.id == s.last) {
					return a.id == s.last
				}
				return a.id < b.id
			},
		)
		n := len(s.waiting)
		s.mu.Unlock()
		if n == 0 {
			dmu.Lock()
			var open []string
			for i, d := range done {
				if !d {
					open = append(open, fmt.Sprint("task ", i))
				}
			}
			dmu.Unlock()
			idle++
			if len(open) == 0 && idle > 3 {
				return ""
			}
			if idle > 5000 {
				return strings.Join(open, ", ")
			}
			if idle > 3 {
				time.Sleep(100 * time.Millisecond)
			} else {
				time.Sleep(time.Millisecond)
			}
			continue
		}
		idle = 0
		k := 0
		if n > 1 {
			k = s.c.Sched(n)
		}
		s.mu.Lock()
		w := s.waiting[k]
		s.waiting = append(s.waiting[:k:k], s.waiting[k+1:]...)
		s.mu.Unlock()
		if n > 1 && k > 0 {
			s.c.labels[len(s.c.labels)-1] = fmt.Sprintf("[%d]%d@%s", len(s.c.choices)-1, w.id, w.label)
		}
		s.Points++
		s.c.x.Trans++
		if w.id != s.last {
			s.Switch++
		}
		s.last = w.id
		close(w.ch)
	}
}

// conc selects the scheduling points of the files with concurrency.
func conc(label string) bool { return strings.HasPrefix(label, "!") }
