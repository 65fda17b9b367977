package ring_test

// Replay and bounded-check harness for the receive buffer: one writer and one
// reader under random schedules, chunkings and sizes, through the exported API.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/savaki/kafka/ring"
)

const hang = 20 * time.Second

type run struct {
	seed     int64
	size     int
	total    int
	closeAt  int // the writer closes after this many bytes; -1: never
	maxChunk int
}

func (r run) String() string {
	return fmt.Sprintf("seed=%d size=%d total=%d closeAt=%d maxChunk=%d", r.seed, r.size, r.total, r.closeAt, r.maxChunk)
}

func byteAt(seed int64, i int) byte { return byte((uint64(i)*2654435761 + uint64(seed)*40503) >> 7) }

// one runs a writer and a reader; it returns a description of what went wrong
// with the data, and with the progress.
func one(r run) (data, progress string) {
	b := ring.New(r.size)
	defer b.Close()
	var got, done int32
	var mu sync.Mutex
	note := func(p *string, f string, a ...interface{}) {
		mu.Lock()
		if *p == "" {
			*p = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	var dp, pp string
	fin := make(chan struct{}, 2)
	go func() { // writer
		defer func() {
			if e := recover(); e != nil {
				note(&dp, "writer panics: %v", e)
				b.Close()
			}
			atomic.AddInt32(&done, 1)
			fin <- struct{}{}
		}()
		rnd := rand.New(rand.NewSource(r.seed))
		for i := 0; i < r.total; {
			n := rnd.Intn(r.maxChunk + 1)
			if n > r.total-i {
				n = r.total - i
			}
			p := make([]byte, n+rnd.Intn(3))
			for k := range p {
				p[k] = byteAt(r.seed, i+k)
			}
			if !b.WriteN(p, n) {
				note(&dp, "write of %d bytes at position %d fails though the buffer is open", n, i)
				note(&pp, "write of %d bytes at position %d fails though the buffer is open", n, i)
				return
			}
			for k := range p {
				if p[k] != byteAt(r.seed, i+k) {
					note(&dp, "write at position %d changes the caller's bytes", i)
				}
			}
			i += n
		}
		if r.closeAt >= 0 {
			b.Close()
		}
	}()
	go func() { // reader
		defer func() {
			if e := recover(); e != nil {
				note(&dp, "reader panics: %v", e)
				b.Close()
			}
			atomic.AddInt32(&done, 1)
			fin <- struct{}{}
		}()
		rnd := rand.New(rand.NewSource(r.seed + 1))
		for i := 0; i < r.total; {
			n := rnd.Intn(r.maxChunk + 1)
			if n > r.total-i {
				n = r.total - i
			}
			p := make([]byte, n+rnd.Intn(3))
			for k := range p {
				p[k] = 0xa5
			}
			if !b.ReadN(p, n) {
				note(&pp, "read of %d bytes at position %d of %d fails though they were written before the close", n, i, r.total)
				if r.closeAt < 0 {
					note(&dp, "read of %d bytes at position %d fails though the buffer is open", n, i)
				}
				return
			}
			for k := 0; k < n; k++ {
				if p[k] != byteAt(r.seed, i+k) {
					note(&dp, "byte %d read is %#x, written was %#x", i+k, p[k], byteAt(r.seed, i+k))
					b.Close()
					return
				}
			}
			for k := n; k < len(p); k++ {
				if p[k] != 0xa5 {
					note(&dp, "read of %d bytes at position %d writes beyond them", n, i)
				}
			}
			i += n
			atomic.StoreInt32(&got, int32(i))
		}
		if r.closeAt >= 0 {
			p := make([]byte, 1)
			if b.ReadN(p, 1) {
				note(&dp, "a byte is read after all %d bytes that were written", r.total)
				note(&pp, "read succeeds on a closed, drained buffer")
			}
		}
	}()
	last, lastAt := int32(-1), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for n := 0; n < 2; {
		select {
		case <-fin:
			n++
			if n == 1 {
				mu.Lock()
				bad := dp != "" || pp != ""
				mu.Unlock()
				if bad {
					b.Close()
				}
			}
			lastAt = time.Now()
		case <-tick.C:
			if g := atomic.LoadInt32(&got); g != last {
				last, lastAt = g, time.Now()
			}
			if time.Since(lastAt) > hang {
				note(&pp, "no progress for %v after %d of %d bytes", hang, last, r.total)
				b.Close()
				mu.Lock()
				defer mu.Unlock()
				return dp, pp
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	return dp, pp
}

// closing: a side that waits is released by close, and reports failure.
func closing(seed int64) string {
	rnd := rand.New(rand.NewSource(seed))
	size := 2 + rnd.Intn(8)
	b := ring.New(size)
	write := rnd.Intn(2) == 0
	res := make(chan bool, 1)
	have := rnd.Intn(size)
	if have > 0 && !b.WriteN(make([]byte, have), have) {
		return fmt.Sprintf("size=%d: write of %d bytes into an empty buffer fails", size, have)
	}
	n := have + 1 + rnd.Intn(3)
	if write {
		n = size - have + rnd.Intn(3)
	}
	early := rnd.Intn(3) == 0
	if early {
		b.Close()
	}
	go func() {
		if write {
			res <- b.WriteN(make([]byte, n), n)
		} else {
			res <- b.ReadN(make([]byte, n), n)
		}
	}()
	if !early {
		if rnd.Intn(2) == 0 {
			time.Sleep(time.Duration(rnd.Intn(200)) * time.Microsecond)
		}
		b.Close()
	}
	select {
	case ok := <-res:
		if ok {
			return fmt.Sprintf("size=%d held=%d write=%v n=%d closed before=%v: success is reported though the buffer was closed", size, have, write, n, early)
		}
	case <-time.After(hang):
		return fmt.Sprintf("size=%d held=%d write=%v n=%d closed before=%v: still blocked %v after close", size, have, write, n, early, hang)
	}
	return ""
}

// steps runs one write and one read at a time, side by side, of sizes such
// that both must succeed without any further operation.
func steps(seed int64) string {
	rnd := rand.New(rand.NewSource(seed))
	size := 2 + rnd.Intn(6)
	b := ring.New(size)
	defer b.Close()
	have, at, count := 0, 0, 60
	wn, rn := make(chan int), make(chan int)
	wok, rok := make(chan string, 1), make(chan string, 1)
	defer close(wn)
	defer close(rn)
	go func() {
		at := 0
		for n := range wn {
			p := make([]byte, n)
			for k := range p {
				p[k] = byteAt(seed, at+k)
			}
			at += n
			if !b.WriteN(p, n) {
				wok <- "write fails though the buffer is open"
				return
			}
			wok <- ""
		}
	}()
	go func() {
		at := 0
		for n := range rn {
			p := make([]byte, n)
			if !b.ReadN(p, n) {
				rok <- "read fails though the buffer is open"
				return
			}
			s := ""
			for k := range p {
				if p[k] != byteAt(seed, at+k) {
					s = "wrong data is read"
				}
			}
			at += n
			rok <- s
		}
	}()
	tm := time.NewTimer(hang)
	defer tm.Stop()
	for i := 0; i < count; i++ {
		free := size - 1 - have
		// w <= free + r and r <= have + w
		w := rnd.Intn(2 * size)
		r := w - free
		if r < 0 {
			r = 0
		}
		if m := have + w - r; m > 0 && rnd.Intn(3) == 0 {
			r += rnd.Intn(m + 1)
		}
		what := fmt.Sprintf("seed=%d size=%d step=%d position=%d held=%d write=%d read=%d", seed, size, i, at, have, w, r)
		if rnd.Intn(2) == 0 {
			wn <- w
			rn <- r
		} else {
			rn <- r
			wn <- w
		}
		if !tm.Stop() {
			select {
			case <-tm.C:
			default:
			}
		}
		tm.Reset(hang)
		for k := 0; k < 2; k++ {
			s := ""
			select {
			case s = <-wok:
			case s = <-rok:
			case <-tm.C:
				return what + ": the operations fit but are still blocked after " + hang.String()
			}
			if s != "" {
				return what + ": " + s
			}
		}
		have += w - r
		at += w
	}
	return ""
}

func budget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 10
	}
	return time.Duration(n) * time.Second
}

func explore(t *testing.T, wantData, wantProgress bool) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end := time.Now().Add(budget())
	var cases, failures int32
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed*1000 + int64(w)))
			fail := func(s string) {
				if atomic.AddInt32(&failures, 1) <= 5 {
					fmt.Println("FAILING-INPUT", s)
				}
			}
			for time.Now().Before(end) && atomic.LoadInt32(&failures) == 0 {
				r := run{seed: rnd.Int63(), size: 2 + rnd.Intn(6), total: 1 + rnd.Intn(40), closeAt: -1, maxChunk: 1 + rnd.Intn(9)}
				switch rnd.Intn(8) {
				case 0:
					r.size, r.total, r.maxChunk = 2+rnd.Intn(1000), 3000, 1+rnd.Intn(1500)
				case 1:
					r.total = 400
				}
				if rnd.Intn(2) == 0 {
					r.closeAt = r.total
				}
				d, p := one(r)
				atomic.AddInt32(&cases, 1)
				if wantData && d != "" {
					fail(r.String() + ": " + d)
				}
				if wantProgress && p != "" {
					fail(r.String() + ": " + p)
				}
				if rnd.Intn(2) == 0 {
					if s := steps(rnd.Int63()); s != "" && (wantProgress || !strings.Contains(s, "still blocked")) {
						fail(s)
					}
					atomic.AddInt32(&cases, 1)
				}
				if wantProgress && rnd.Intn(3) == 0 {
					if s := closing(rnd.Int63()); s != "" {
						fail(s)
					}
					atomic.AddInt32(&cases, 1)
				}
			}
		}()
	}
	wg.Wait()
	fmt.Println("VERIF-CASES", cases)
	if failures > 0 {
		t.Fail()
	}
}

func TestVerifC15(t *testing.T) { explore(t, true, false) }
func TestVerifC16(t *testing.T) { explore(t, false, true) }
