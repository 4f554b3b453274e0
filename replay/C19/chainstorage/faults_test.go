package chainstorage

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/wordfile"
)

// A storage that fails one of its writes, and whose files take their time.
type faultyStore struct {
	mu     sync.Mutex
	rng    *rand.Rand
	writes int
	fail   int // the write that fails (counted from 0), or -1
	failed string
}

type faultyFile struct {
	wordfile.ReadWriteAtWordCounter
	s    *faultyStore
	name string
	slow bool
}

func (f *faultyFile) WriteWordAt(v, i int64) error {
	if f.slow {
		time.Sleep(200 * time.Microsecond)
	}
	f.s.mu.Lock()
	n := f.s.writes
	f.s.writes++
	if n == f.s.fail {
		f.s.failed = fmt.Sprintf("writing %d at %d in %s", v, i, f.name)
		f.s.mu.Unlock()
		return errors.New("injected fault")
	}
	f.s.mu.Unlock()
	return f.ReadWriteAtWordCounter.WriteWordAt(v, i)
}

// every word file of the chain, whatever it is called, goes through the store
func (s *faultyStore) install(ac *concreteAppendableChain) {
	want := reflect.TypeOf((*wordfile.ReadWriteAtWordCounter)(nil)).Elem()
	v := reflect.ValueOf(ac).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem()
		name := v.Type().Field(i).Name
		switch {
		case f.Type() == want && !f.IsNil():
			f.Set(reflect.ValueOf(&faultyFile{f.Interface().(wordfile.ReadWriteAtWordCounter), s, name, s.rng.Intn(3) == 0}))
		case f.Type() == reflect.MapOf(reflect.TypeOf(""), want):
			for _, k := range f.MapKeys() {
				w := f.MapIndex(k).Interface().(wordfile.ReadWriteAtWordCounter)
				f.SetMapIndex(k, reflect.ValueOf(&faultyFile{w, s, name + " " + k.String(), s.rng.Intn(3) == 0}))
			}
		}
	}
}

// Whichever write fails while a block is appended, appending it is an error; and whichever files are slow, a
// block that is appended is complete.
func TestVerifAppendFaults(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed() + 2))
	evals := 0
	for round := 0; round < verifRounds(60); round++ {
		func() {
			defer verifQuiet(t)()
			useChi := rng.Intn(2) == 0
			m := verifModel(rng, 2+rng.Intn(3), false)
			m.flavor = func() int { return 2 }
			m.source = func() int { return rng.Intn(3) }
			c, err := verifChain(t, rng, m, false, useChi, true)
			fail := func(f string, x ...any) { t.Fatalf("REPLAY slow and faulty files, chain of %s => %s", c.hist, fmt.Sprintf(f, x...)) }
			if err != nil {
				fail("creating: %v", err)
			}
			a, err := c.creator.Open()
			if err != nil {
				fail("opening: %v", err)
			}
			ac := a.(*concreteAppendableChain)
			s := &faultyStore{rng: rng, fail: -1}
			s.install(ac)
			perBlock := 0
			for b := range m.blocks {
				before := s.writes
				if b == len(m.blocks)-1 { // a guess at how many writes this block takes
					s.fail = s.writes + rng.Intn(perBlock+1)
				}
				err := c.append(ac, b)
				s.mu.Lock()
				failed := s.failed
				s.mu.Unlock()
				evals++
				if failed != "" && err == nil {
					fail("appending block %d is not an error although %s failed", b, failed)
				}
				if failed == "" && err != nil {
					fail("appending block %d: %v", b, err)
				}
				if failed != "" {
					return
				}
				if n := s.writes - before; n > perBlock {
					perBlock = n
				}
				s.mu.Lock()
				s.fail = -1
				s.mu.Unlock()
				if d := c.checkFiles(ac.GetAsConcreteReadableChain(), b+1, rng); d != "" {
					fail("after block %d, %s", b, d)
				}
			}
			ac.Close()
		}()
	}
	t.Logf("REPLAY-EVALS %d", evals)
}
