package concurrency

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type item struct{ seq int64 }

func (i *item) SequenceNumber() int64 { return i.seq }

func rounds() (*rand.Rand, int) {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 300
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 5000
	}
	return rand.New(rand.NewSource(s)), n
}

const patience = 20 * time.Second

// Objects arrive in an order given by a list of seq numbers, from one goroutine.
func TestVerifSequencerOrder(t *testing.T) {
	r, n := rounds()
	for k := 0; k < n; k++ {
		cnt := r.Intn(60)
		first := int64(r.Intn(5)) * int64(r.Intn(1000000007))
		bloat := 1 + r.Intn(cnt+3)
		its := make([]*item, cnt)
		for i := range its {
			its[i] = &item{first + int64(i)}
		}
		order := r.Perm(cnt)
		if r.Intn(3) == 0 { // nearly sorted
			for i := range order {
				order[i] = i
			}
			for x := 0; x < cnt/4; x++ {
				i := r.Intn(cnt)
				j := min(cnt-1, i+r.Intn(6))
				order[i], order[j] = order[j], order[i]
			}
		}
		out := make(chan *item, r.Intn(3))
		sc := NewSequencerContainer[*item](first, bloat, out)
		go func() {
			for _, i := range order {
				sc.InChan <- its[i]
			}
			close(sc.InChan)
		}()
		desc := fmt.Sprintf("first=%d bloatedCount=%d arrival order=%v", first, bloat, order)
		for i := 0; i < cnt; i++ {
			select {
			case x, ok := <-out:
				if !ok {
					t.Fatalf("REPLAY %s: output closed after %d objects", desc, i)
				}
				if x != its[i] {
					t.Fatalf("REPLAY %s: object %d out has sequence number %d", desc, i, x.seq)
				}
			case <-time.After(patience):
				t.Fatalf("REPLAY %s: object %d never comes out", desc, i)
			}
		}
		select {
		case x, ok := <-out:
			if ok {
				t.Fatalf("REPLAY %s: more came out than went in: %v", desc, x)
			}
		case <-time.After(patience):
			t.Fatalf("REPLAY %s: output is not closed", desc)
		}
	}
	fmt.Println("REPLAY-EVALS", n)
}

// The valve: open exactly while fewer than bloatedCount objects wait, and never stuck.
func TestVerifSequencerValve(t *testing.T) {
	r, n := rounds()
	n /= 6
	for k := 0; k < n; k++ {
		cnt := 2 + r.Intn(40)
		bloat := 1 + r.Intn(8)
		out := make(chan *item)
		sc := NewSequencerContainer[*item](0, bloat, out)
		order := r.Perm(cnt)
		// model
		waiting := map[int64]bool{}
		next := int64(0)
		desc := fmt.Sprintf("bloatedCount=%d arrival order=%v", bloat, order)
		got := 0
		recv := func() {
			select {
			case x := <-out:
				if x.seq != int64(got) {
					t.Fatalf("REPLAY %s: object %d out has number %d", desc, got, x.seq)
				}
				got++
			case <-time.After(patience):
				t.Fatalf("REPLAY %s: object %d never comes out", desc, got)
			}
		}
		for p, i := range order {
			sc.InChan <- &item{int64(i)}
			waiting[int64(i)] = true
			for waiting[next] {
				delete(waiting, next)
				next++
				recv()
			}
			// the worker is back at its input, or about to be: the valve settles
			shut := len(waiting) >= bloat
			settled := false
			for w := 0; w < 200 && !settled; w++ {
				passed := make(chan bool, 1)
				go func() { sc.WaitForNotBloated(); passed <- true }()
				if shut {
					select {
					case <-passed:
						time.Sleep(100 * time.Microsecond)
					case <-time.After(300 * time.Microsecond):
						settled = true
					}
				} else {
					select {
					case <-passed:
					case <-time.After(patience):
						t.Fatalf("REPLAY %s: WaitForNotBloated is stuck with %d waiting after %d arrivals", desc, len(waiting), p+1)
					}
					settled = true
				}
			}
			if !settled {
				t.Fatalf("REPLAY %s: WaitForNotBloated returns with %d waiting after %d arrivals", desc, len(waiting), p+1)
			}
		}
		close(sc.InChan)
		select {
		case _, ok := <-out:
			if ok {
				t.Fatalf("REPLAY %s: extra object", desc)
			}
		case <-time.After(patience):
			t.Fatalf("REPLAY %s: output not closed", desc)
		}
	}
	fmt.Println("REPLAY-EVALS", n)
}

type job struct {
	processed, set, done atomic.Int32
	fail                 error
	err                  error
	bad                  atomic.Value
	wg                   *sync.WaitGroup
}

func (j *job) Process() error {
	if j.processed.Add(1) != 1 || j.set.Load() != 0 || j.done.Load() != 0 {
		j.bad.Store("Process")
	}
	return j.fail
}
func (j *job) SetError(e error) {
	if j.set.Add(1) != 1 || j.processed.Load() != 1 || j.done.Load() != 0 {
		j.bad.Store("SetError")
	}
	j.err = e
}
func (j *job) Done() {
	if j.done.Add(1) != 1 || j.set.Load() != 1 {
		j.bad.Store("Done")
	}
	j.wg.Done()
}
func (j *job) GetError() error { return j.err }

func TestVerifWorkerPool(t *testing.T) {
	r, n := rounds()
	n /= 3
	for k := 0; k < n; k++ {
		th := 1 + r.Intn(8)
		cnt := r.Intn(100)
		wp := NewWorkerPool(th)
		var wg sync.WaitGroup
		jobs := make([]*job, cnt)
		wg.Add(cnt)
		fin := make(chan bool)
		for i := range jobs {
			jobs[i] = &job{wg: &wg}
			if r.Intn(3) == 0 {
				jobs[i].fail = errors.New("failed")
			}
		}
		go func() {
			for _, j := range jobs {
				wp.InChan <- j
			}
			wg.Wait()
			close(fin)
		}()
		select {
		case <-fin:
		case <-time.After(patience):
			t.Fatalf("REPLAY %d workers, %d tasks: not all are done", th, cnt)
		}
		close(wp.InChan)
		for i, j := range jobs {
			if j.bad.Load() != nil || j.err != j.fail || j.done.Load() != 1 {
				t.Fatalf("REPLAY %d workers, task %d of %d: misplaced call %v, error %v instead of %v", th, i, cnt, j.bad.Load(), j.err, j.fail)
			}
		}
	}
	fmt.Println("REPLAY-EVALS", n)
}

// All three together: tasks of uneven length through a pool, then put back in order, with the valve upstream.
type piped struct {
	item
	work time.Duration
	to   chan *item
	err  error
}

func (p *piped) Process() error   { time.Sleep(p.work); return nil }
func (p *piped) SetError(e error) { p.err = e }
func (p *piped) Done()            { p.to <- &p.item }
func (p *piped) GetError() error  { return p.err }

func TestVerifPipeline(t *testing.T) {
	r, n := rounds()
	n /= 10
	for k := 0; k < n; k++ {
		th, cnt, bloat := 1+r.Intn(8), r.Intn(150), 1+r.Intn(6)
		out := make(chan *item)
		sc := NewSequencerContainer[*item](7, bloat, out)
		wp := NewWorkerPool(th)
		works := make([]time.Duration, cnt)
		for i := range works {
			works[i] = time.Duration(r.Intn(3)*r.Intn(100)) * time.Microsecond
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < cnt; i++ {
				sc.WaitForNotBloated()
				wp.InChan <- &piped{item: item{7 + int64(i)}, work: works[i], to: sc.InChan}
			}
		}()
		for i := 0; i < cnt; i++ {
			select {
			case x := <-out:
				if x.seq != 7+int64(i) {
					t.Fatalf("REPLAY pipeline of %d threads, bloatedCount %d: object %d has number %d", th, bloat, i, x.seq)
				}
			case <-time.After(patience):
				t.Fatalf("REPLAY pipeline of %d threads, bloatedCount %d: stuck at object %d of %d", th, bloat, i, cnt)
			}
		}
		wg.Wait()
		close(wp.InChan)
		close(sc.InChan)
		if _, ok := <-out; ok {
			t.Fatalf("REPLAY pipeline: extra object")
		}
	}
	fmt.Println("REPLAY-EVALS", n)
}
