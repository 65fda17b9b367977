package kafka_test

// Replay and bounded-check harness for brokers, connections and the client:
// the real code, through its exported API, against a fake broker on the
// loopback network.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	kafka "github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

const zhang = 20 * time.Second

var zmu sync.Mutex

func zbad(t *testing.T, format string, args ...interface{}) {
	zmu.Lock()
	defer zmu.Unlock()
	zfails++
	if zfails > 6 {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("\nFAILING-INPUT %s\n", s)
	t.Fail()
}
func zfailed() bool {
	zmu.Lock()
	defer zmu.Unlock()
	return zfails > 0
}
func zcount(n int) {
	atomic.AddInt64(&zcases, int64(n))
}

// zloop runs f from several goroutines until the budget is used up.
func zloop(t *testing.T, workers, max int, f func(r *rand.Rand, seed int64)) {
	end := time.Now().Add(zbudget)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			base := rand.New(rand.NewSource(zseed*7919 + int64(w)))
			for i := 0; i < max && time.Now().Before(end) && !zfailed(); i++ {
				seed := base.Int63()
				func() {
					defer func() {
						if e := recover(); e != nil {
							buf := make([]byte, 4096)
							zbad(t, "panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
						}
					}()
					f(rand.New(rand.NewSource(seed)), seed)
				}()
				zcount(1)
			}
		}()
	}
	wg.Wait()
}

// zwithin runs f and reports whether it returned in time.
func zwithin(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(zhang):
		return false
	}
}

// ---- the APIs

type zapi struct {
	name      string
	key       int
	req, resp string
	min, max  int
}

func zapis() []zapi {
	f, err := os.Open(os.Getenv("VERIF_APIS"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []zapi
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := strings.Fields(sc.Text())
		if len(p) == 0 || p[0] != "api" {
			continue
		}
		a := zapi{name: p[1], req: p[3], resp: p[4]}
		a.key, _ = strconv.Atoi(p[2])
		a.min, _ = strconv.Atoi(p[5])
		a.max, _ = strconv.Atoi(p[6])
		out = append(out, a)
	}
	return out
}

// ---- the fake broker

type zframe struct {
	raw      []byte // without the size
	key, ver int
	id       int32
	client   string
	body     []byte
	bad      string
}

func zparse(raw []byte) *zframe {
	f := &zframe{raw: raw}
	if len(raw) < 10 {
		f.bad = "frame shorter than a request header"
		return f
	}
	f.key = int(int16(binary.BigEndian.Uint16(raw)))
	f.ver = int(int16(binary.BigEndian.Uint16(raw[2:])))
	f.id = int32(binary.BigEndian.Uint32(raw[4:]))
	n := int(int16(binary.BigEndian.Uint16(raw[8:])))
	if n < 0 {
		n = 0
	}
	if len(raw) < 10+n {
		f.bad = "frame shorter than its client id"
		return f
	}
	f.client = string(raw[10 : 10+n])
	f.body = raw[10+n:]
	return f
}

func zread(c io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return nil, err
	}
	n := int32(binary.BigEndian.Uint32(h[:]))
	if n < 0 || n > 64<<20 {
		return nil, fmt.Errorf("size %d", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		return nil, fmt.Errorf("frame announces %d bytes: %w", n, err)
	}
	return b, nil
}

func zreply(id int32, body []byte) []byte {
	b := zbe(4, int64(len(body)+4))
	b = append(b, zbe(4, int64(id))...)
	return append(b, body...)
}

type zrange struct{ key, min, max int }

// zversions is the answer to the version handshake. An entry with the key
// zcodeKey, at the front, stands for the error code of the answer.
func zversions(rs []zrange) []byte {
	b := zbe(2, 0)
	if len(rs) > 0 && rs[0].key == zcodeKey {
		b = zbe(2, int64(rs[0].min))
		rs = rs[1:]
	}
	b = append(b, zbe(4, int64(len(rs)))...)
	for _, r := range rs {
		b = append(b, zbe(2, int64(r.key))...)
		b = append(b, zbe(2, int64(r.min))...)
		b = append(b, zbe(2, int64(r.max))...)
	}
	return b
}

const zcodeKey = -30000

type zserver struct {
	l      net.Listener
	mu     sync.Mutex
	conns  []net.Conn
	opened int32
	live   int32
	// serve handles one connection
	serve func(c net.Conn)
}

func zlisten(t testing.TB, serve func(c net.Conn)) *zserver {
	return zlistenAt("127.0.0.1", serve)
}

// zlistenAt listens on the host; on the IPv4 loopback address where that is not possible.
func zlistenAt(host string, serve func(c net.Conn)) *zserver {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		l, err = net.Listen("tcp", "127.0.0.1:0")
	}
	if err != nil {
		panic(err)
	}
	return zserveOn(l, serve)
}
func zserveOn(l net.Listener, serve func(c net.Conn)) *zserver {
	s := &zserver{l: l, serve: serve}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			atomic.AddInt32(&s.opened, 1)
			atomic.AddInt32(&s.live, 1)
			go func() {
				defer atomic.AddInt32(&s.live, -1)
				s.serve(c)
				c.Close()
			}()
		}
	}()
	return s
}
func (s *zserver) addr() string { return s.l.Addr().String() }
func (s *zserver) port() int    { return s.l.Addr().(*net.TCPAddr).Port }
func (s *zserver) host() string { return s.l.Addr().(*net.TCPAddr).IP.String() }
func (s *zserver) stop() {
	s.l.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
}

// zbroker answers the version handshake and hands the other frames to f, which
// returns the response body (nil: no answer).
func zbroker(ranges func() []zrange, f func(fr *zframe) []byte) func(c net.Conn) {
	return func(c net.Conn) {
		first := true
		for {
			b, err := zread(c)
			if err != nil {
				return
			}
			fr := zparse(b)
			if first && fr.key == 18 {
				first = false
				c.Write(zreply(fr.id, zversions(ranges())))
				continue
			}
			first = false
			if out := f(fr); out != nil {
				c.Write(zreply(fr.id, out))
			}
		}
	}
}

func zall(apis []zapi) []zrange {
	var out []zrange
	for _, a := range apis {
		out = append(out, zrange{a.key, a.min, a.max})
	}
	return out
}

// ---- C10, C11: one call, one frame, one response

func zcalls(t *testing.T, prop string) {
	sch := zload(t)
	apis := zapis()
	want := map[string]bool{}
	for k := range zwant {
		want[k] = true
	}
	var turn int64
	zloop(t, 6, 2500, func(r *rand.Rand, seed int64) {
		ver := map[int]int{}
		var rs []zrange
		for _, a := range apis {
			v := a.min + r.Intn(a.max-a.min+1)
			ver[a.key] = v
			rs = append(rs, zrange{a.key, v, v})
		}
		r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		var mu sync.Mutex
		var frames []*zframe
		var answer []byte
		srv := zlisten(t, zbroker(func() []zrange { return rs }, func(fr *zframe) []byte {
			mu.Lock()
			defer mu.Unlock()
			frames = append(frames, fr)
			return answer
		}))
		defer srv.stop()
		b, err := kafka.NewBroker(srv.addr())
		if err != nil {
			zbad(t, "versions %v: NewBroker: %v", rs, err)
			return
		}
		defer b.Close()
		for k := 0; k < 6; k++ {
			a := apis[int(atomic.AddInt64(&turn, 1))%len(apis)]
			m := reflect.ValueOf(b).MethodByName(a.name)
			if !m.IsValid() || m.Type().NumIn() != 1 || m.Type().NumOut() != 2 {
				continue
			}
			v := ver[a.key]
			req := reflect.New(m.Type().In(0)).Elem()
			zfill(r, req, 0)
			resp := reflect.New(m.Type().Out(0)).Elem()
			zfill(r, resp, 0)
			enc := sch.enc(a.resp, resp, v)
			cut := 0
			if prop == "C11" && len(enc) > 0 && r.Intn(4) == 0 {
				cut = 1 + r.Intn(len(enc))
			}
			mu.Lock()
			frames = nil
			answer = append([]byte{}, enc[:len(enc)-cut]...)
			mu.Unlock()
			var out []reflect.Value
			if !zwithin(func() { out = m.Call([]reflect.Value{req}) }) {
				zbad(t, "%s v%d: the call does not return; request %+v", a.name, v, req.Interface())
				return
			}
			mu.Lock()
			fs := frames
			mu.Unlock()
			zcount(1)
			if prop == "C10" {
				if len(fs) != 1 {
					zbad(t, "%s v%d: %d frames; request %+v", a.name, v, len(fs), req.Interface())
					return
				}
				fr := fs[0]
				if fr.bad != "" || fr.key != a.key || fr.ver != v || fr.client != "github.com/savaki/kafka" {
					zbad(t, "%s v%d: frame with header key=%d version=%d client id=%q %s", a.name, v, fr.key, fr.ver, fr.client, fr.bad)
					return
				}
				if w := sch.enc(a.req, req, v); !bytes.Equal(w, fr.body) {
					zbad(t, "%s v%d: request %+v sent as %x, want %x", a.name, v, req.Interface(), fr.body, w)
					return
				}
				continue
			}
			e, _ := out[1].Interface().(error)
			if cut > 0 {
				if e == nil {
					zbad(t, "%s v%d: no error though the last %d bytes of the response are missing: %x", a.name, v, cut, enc)
				}
				continue
			}
			if e != nil {
				zbad(t, "%s v%d: response %+v (%x): %v", a.name, v, resp.Interface(), enc, e)
				continue
			}
			if got := sch.enc(a.resp, out[0], v); !bytes.Equal(got, enc) {
				zbad(t, "%s v%d: response %+v returned as %+v", a.name, v, resp.Interface(), out[0].Interface())
			}
		}
		if prop == "C11" && r.Intn(4) == 0 {
			// the exchange fails
			a := apis[r.Intn(len(apis))]
			m := reflect.ValueOf(b).MethodByName(a.name)
			if m.IsValid() && m.Type().NumIn() == 1 {
				mu.Lock()
				answer = nil
				mu.Unlock()
				time.AfterFunc(time.Millisecond, srv.stop)
				var out []reflect.Value
				if !zwithin(func() { out = m.Call([]reflect.Value{reflect.New(m.Type().In(0)).Elem()}) }) {
					zbad(t, "%s: the call does not return after the connection ended", a.name)
					return
				}
				if e, _ := out[1].Interface().(error); e == nil {
					zbad(t, "%s: no error though the connection ended without a response", a.name)
				}
			}
		}
	})
}

func TestVerifC10(t *testing.T) { zcalls(t, "C10") }
func TestVerifC11(t *testing.T) { zcalls(t, "C11") }

// ---- C12

func TestVerifC12(t *testing.T) {
	apis := zapis()
	zloop(t, 6, 2500, func(r *rand.Rand, seed int64) {
		var rs []zrange
		want := map[int]int{}
		fail := ""
		one := r.Intn(2) == 0
		oddOne := r.Intn(len(apis))
		for i, a := range apis {
			if r.Intn(5) == 0 {
				continue
			}
			lo := a.min + r.Intn(a.max-a.min+1)
			if r.Intn(3) == 0 {
				lo = 0
			}
			hi := lo + r.Intn(a.max-lo+4)
			if !one || i == oddOne {
				if r.Intn(12) == 0 || one && i == oddOne {
					lo = a.max + 1 + r.Intn(2)
					hi = lo + r.Intn(3)
					if a.min > 0 && r.Intn(2) == 0 {
						lo, hi = 0, a.min-1
					}
					switch r.Intn(8) {
					case 0:
						hi = 32767
					case 1:
						lo, hi = -32768, -1-r.Intn(2)
					case 2:
						lo, hi = 32767, 32767
					}
				}
			}
			if r.Intn(20) == 0 {
				lo = -r.Intn(3)
			}
			switch r.Intn(30) {
			case 0:
				hi = 32767
			case 1:
				lo = -32768
			}
			l, h := lo, hi
			if a.min > l {
				l = a.min
			}
			if a.max < h {
				h = a.max
			}
			if l > h {
				fail = fmt.Sprintf("%s: broker %d..%d, library %d..%d", a.name, lo, hi, a.min, a.max)
			} else {
				want[a.key] = h
			}
			rs = append(rs, zrange{a.key, lo, hi})
		}
		for i := r.Intn(4); i > 0; i-- {
			rs = append(rs, zrange{[]int{-1, 99, 1000, 32767, -32768}[r.Intn(5)], r.Intn(3), r.Intn(9)})
		}
		r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		vers := make(chan [2]int, 200)
		srv := zlisten(t, zbroker(func() []zrange { return rs }, func(fr *zframe) []byte {
			vers <- [2]int{fr.key, fr.ver}
			return []byte{}
		}))
		defer srv.stop()
		var b *kafka.Broker
		var err error
		if !zwithin(func() { b, err = kafka.NewBroker(srv.addr()) }) {
			zbad(t, "NewBroker does not return")
			return
		}
		if fail != "" {
			if err == nil {
				zbad(t, "no error though the ranges do not meet: %s; all: %v", fail, rs)
				b.Close()
			}
			return
		}
		if err != nil {
			zbad(t, "NewBroker fails though all ranges meet: %v; %v", err, rs)
			return
		}
		defer b.Close()
		for _, a := range apis {
			w, ok := want[a.key]
			m := reflect.ValueOf(b).MethodByName(a.name)
			if !ok || !m.IsValid() || m.Type().NumIn() != 1 {
				continue
			}
			if !zwithin(func() { m.Call([]reflect.Value{reflect.New(m.Type().In(0)).Elem()}) }) {
				zbad(t, "%s does not return", a.name)
				return
			}
			zcount(1)
			select {
			case kv := <-vers:
				if kv[1] != w {
					zbad(t, "%s is sent at version %d, want %d; ranges %v", a.name, kv[1], w, rs)
					return
				}
			case <-time.After(zhang):
				zbad(t, "%s sends nothing", a.name)
				return
			}
		}
	})
}

// ---- the connection: frames of the form id, length of the rest, rest

func zpattern(tag uint64, n int) []byte {
	b := make([]byte, 8+n)
	binary.BigEndian.PutUint64(b, tag)
	x := tag*2862933555777941757 + 3037000493
	for i := 8; i < len(b); i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x)
	}
	return b
}
func zmatches(b []byte) (uint64, bool) {
	if len(b) < 8 {
		return 0, false
	}
	tag := binary.BigEndian.Uint64(b)
	return tag, bytes.Equal(b, zpattern(tag, len(b)-8))
}

type zresult struct {
	tag  uint64
	data []byte
	err  error
}

var errMine = errors.New("decode result")

// zdo makes one call: the request is a pattern of n bytes.
func zdo(c *kafka.Conn, tag uint64, n int, ids func(int32)) (got []byte, calls int, ret error, errv error) {
	mine := fmt.Errorf("result of %d: %w", tag, errMine)
	// now and then a frame that has left the client before encode returns
	early := tag%7 == 3
	if early {
		n = 9000 + n%9000
	}
	var seen int32
	var data []byte
	var mu sync.Mutex
	err := c.Do(func(e *message.Encoder, id int32) {
		if ids != nil {
			ids(id)
		}
		p := zpattern(tag, n)
		e.PutInt32(int32(4 + 4 + len(p)))
		e.PutInt32(id)
		if early {
			e.PutBytes(p)
			time.Sleep(300 * time.Microsecond)
			return
		}
		// in pieces, so that the frame is not one write
		e.PutInt32(int32(len(p)))
		for len(p) > 0 {
			k := 1 + len(p)/3
			if k > len(p) {
				k = len(p)
			}
			for _, x := range p[:k] {
				e.PutInt8(int8(x))
			}
			p = p[k:]
			runtime.Gosched()
		}
	}, func(d *message.Decoder) error {
		atomic.AddInt32(&seen, 1)
		v, err := d.Bytes()
		if err != nil {
			return err
		}
		mu.Lock()
		data = v
		mu.Unlock()
		if tag%3 == 0 {
			return mine
		}
		return nil
	})
	mu.Lock()
	defer mu.Unlock()
	var exp error
	if tag%3 == 0 {
		exp = mine
	}
	return data, int(atomic.LoadInt32(&seen)), err, exp
}

type zreq struct {
	id  int32
	tag uint64
	bad string
}

func zreqOf(b []byte) zreq {
	if len(b) < 16 {
		return zreq{bad: fmt.Sprintf("frame of %d bytes", len(b))}
	}
	q := zreq{id: int32(binary.BigEndian.Uint32(b))}
	if int(binary.BigEndian.Uint32(b[4:])) != len(b)-8 {
		q.bad = "length of the frame and of its content differ"
		return q
	}
	tag, ok := zmatches(b[8:])
	if !ok {
		q.bad = fmt.Sprintf("frame of %d bytes whose content is not that of one call", len(b))
	}
	q.tag = tag
	return q
}

func zbytes(b []byte) []byte { return append(zbe(4, int64(len(b))), b...) }

// zwrite sends b in random pieces.
func zwrite(r *rand.Rand, c net.Conn, b []byte) error {
	if r.Intn(3) > 0 {
		_, err := c.Write(b)
		return err
	}
	for len(b) > 0 {
		n := 1 + r.Intn(len(b))
		if n > 7 && r.Intn(2) == 0 {
			n = 1 + r.Intn(7)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
		}
	}
	return nil
}

var zoptn int32

// zopts: options that change nothing, none of them at first.
func zopts() []kafka.Option {
	var out []kafka.Option
	n := int(atomic.AddInt32(&zoptn, 1)-1) / 4 % 7
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			out = append(out, kafka.WithDialer(&net.Dialer{Timeout: 10 * time.Second}))
		} else {
			out = append(out, kafka.WithTLS(nil))
		}
	}
	return out
}

func ztraffic(t *testing.T, prop string) {
	zloop(t, 4, 2500, func(r *rand.Rand, seed int64) {
		rs := rand.New(rand.NewSource(seed + 1))
		nCalls := 1 + r.Intn(12)
		rounds := 1 + r.Intn(4)
		var answered sync.Map // tag -> count
		var arrived, begun int32
		srv := zlisten(t, func(c net.Conn) {
			var pend []zreq
			total := 0
			in := make(chan []byte, 100)
			go func() {
				defer close(in)
				for {
					b, err := zread(c)
					if err != nil {
						return
					}
					atomic.AddInt32(&arrived, 1)
					in <- b
				}
			}()
			answer := func(i int) {
				q := pend[i]
				pend = append(pend[:i], pend[i+1:]...)
				n := rs.Intn(60)
				if rs.Intn(10) == 0 {
					n = rs.Intn(20000)
				}
				out := zreply(q.id, zbytes(zpattern(q.tag, n)))
				switch rs.Intn(12) {
				case 0: // an id nobody waits for
					out = append(zreply(q.id+1000000, zbytes(zpattern(1<<60, 5))), out...)
				case 1: // the same id again
					out = append(out, zreply(q.id, zbytes(zpattern(1<<61, 9)))...)
				case 2: // an empty frame: no id at all
					out = append(zbe(4, int64(rs.Intn(4))), out...)
					out = append(make([]byte, 0), append(append([]byte{}, out[:4]...), append(make([]byte, int(out[3])), out[4:]...)...)...)
				}
				answered.Store(q.tag, n)
				zwrite(rs, c, out)
			}
			for {
				if len(pend) > 0 && (len(pend) > 6 || rs.Intn(3) == 0) {
					answer(rs.Intn(len(pend)))
					continue
				}
				select {
				case b, ok := <-in:
					if !ok {
						return
					}
					total++
					q := zreqOf(b)
					if q.bad != "" {
						zbad(t, "seed %d: %d concurrent calls: broker receives %s", seed, nCalls, q.bad)
						return
					}
					for _, o := range pend {
						if o.id == q.id {
							zbad(t, "seed %d: two pending calls share correlation id %d", seed, q.id)
							return
						}
					}
					pend = append(pend, q)
				case <-time.After(2 * time.Millisecond):
					if len(pend) > 0 {
						answer(rs.Intn(len(pend)))
					}
				}
			}
		})
		defer srv.stop()
		c, err := kafka.Connect(srv.addr(), zopts()...)
		if err != nil {
			zbad(t, "Connect: %v", err)
			return
		}
		type kept struct {
			data, copy []byte
		}
		var kmu sync.Mutex
		var keep []kept
		var wg sync.WaitGroup
		for g := 0; g < nCalls; g++ {
			g := g
			wg.Add(1)
			gr := rand.New(rand.NewSource(seed + int64(g)*17))
			go func() {
				defer wg.Done()
				for k := 0; k < rounds && !zfailed(); k++ {
					tag := uint64(g*1000+k) + 1
					n := gr.Intn(40)
					if gr.Intn(3) == 0 {
						n = 2000 + gr.Intn(9000)
					}
					data, calls, ret, exp := zdo(c, tag, n, func(int32) { atomic.AddInt32(&begun, 1) })
					zcount(1)
					if prop == "C17" {
						kmu.Lock()
						keep = append(keep, kept{data, append([]byte{}, data...)})
						kmu.Unlock()
						if data != nil && cap(data) != len(data) {
							zbad(t, "decoded bytes have spare capacity: len %d cap %d", len(data), cap(data))
						}
						continue
					}
					if prop == "C13" {
						if calls != 1 {
							zbad(t, "seed %d: call %d: its response was decoded %d times", seed, tag, calls)
							return
						}
						if got, ok := zmatches(data); !ok || got != tag {
							zbad(t, "seed %d: call %d of %d concurrent ones gets the response of %d", seed, tag, nCalls, got)
							return
						}
						if ret != exp {
							zbad(t, "seed %d: call %d returns %v, its decode function returned %v", seed, tag, ret, exp)
							return
						}
					}
				}
			}()
		}
		if !zwithin(wg.Wait) {
			if prop == "C13" {
				zbad(t, "seed %d: %d concurrent calls: some do not return though all were answered", seed, nCalls)
			}
			if a, b := atomic.LoadInt32(&arrived), atomic.LoadInt32(&begun); prop == "C14" && a < b {
				zbad(t, "seed %d: %d concurrent calls: %d frames were written, %d reach the broker", seed, nCalls, b, a)
			}
			return
		}
		if prop == "C17" {
			for _, k := range keep {
				if !bytes.Equal(k.data, k.copy) {
					zbad(t, "seed %d: data returned by a call was changed by later responses: %x became %x", seed, k.copy, k.data)
					return
				}
			}
			// appending to a returned slice must not reach the next one
			for i, k := range keep {
				_ = append(k.data, 0xEE, 0xEE, 0xEE, 0xEE)
				for j, o := range keep {
					if i != j && !bytes.Equal(o.data, o.copy) {
						zbad(t, "seed %d: appending to a returned slice changes another one", seed)
						return
					}
				}
			}
		}
		if !zwithin(func() { c.Close() }) {
			return
		}
		if n := zpending(c); n > 0 && (prop == "C13" || prop == "C14") {
			zbad(t, "seed %d: %d entries are left behind after all calls returned", seed, n)
		}
	})
}

// zpending counts the pending entries, if they are kept in a map.
func zpending(c *kafka.Conn) int {
	v := reflect.ValueOf(c).Elem().FieldByName("requests")
	if v.IsValid() && v.Kind() == reflect.Map {
		return v.Len()
	}
	return -1
}

func TestVerifC13(t *testing.T) { ztraffic(t, "C13") }
func TestVerifC17(t *testing.T) {
	zpair(t)
	ztraffic(t, "C17")
}

// zpair: two byte fields of one response.
func zpair(t *testing.T) {
	r := rand.New(rand.NewSource(zseed))
	for i := 0; i < 2000 && !zfailed(); i++ {
		a, b := zpattern(1, r.Intn(20)), zpattern(2, r.Intn(20))
		buf := append(zbytes(a), zbytes(b)...)
		d := message.NewDecoder(buf, len(buf))
		x, err1 := d.Bytes()
		y, err2 := d.Bytes()
		if err1 != nil || err2 != nil {
			return
		}
		zcount(1)
		_ = append(x, 1, 2, 3, 4, 5, 6, 7, 8)
		if !bytes.Equal(y, b) {
			zbad(t, "appending to the first byte field of a response changes the second: %x became %x", b, y)
		}
	}
}

func TestVerifC14(t *testing.T) {
	ztraffic(t, "C14")
	if zfailed() {
		return
	}
	for i := 0; i < 3 && !zfailed(); i++ {
		zcut(t, i)
	}
	// a call that fails to write returns an error and leaves nothing behind
	for i := 0; i < 40 && !zfailed(); i++ {
		srv := zlisten(t, func(c net.Conn) {
			if i%2 == 0 {
				c.(*net.TCPConn).SetLinger(0)
			}
		})
		c, err := kafka.Connect(srv.addr(), zopts()...)
		if err != nil {
			srv.stop()
			continue
		}
		time.Sleep(time.Millisecond)
		for k := 0; k < 4; k++ {
			var ret error
			if !zwithin(func() { _, _, ret, _ = zdo(c, uint64(k), 10000, nil) }) {
				break
			}
			zcount(1)
			if ret == nil {
				zbad(t, "a call on a connection the broker has reset returns no error")
			}
		}
		if zwithin(func() { c.Close() }) {
			if n := zpending(c); n > 0 {
				zbad(t, "%d entries are left behind by calls that could not write their frames", n)
			}
		}
		srv.stop()
	}
}

// zcut: the broker resets the connection in the middle of a large request.
func zcut(t *testing.T, i int) {
	srv := zlisten(t, func(c net.Conn) {
		io.CopyN(io.Discard, c, int64(1+i*3000000))
		c.(*net.TCPConn).SetLinger(0)
	})
	defer srv.stop()
	c, err := kafka.Connect(srv.addr(), zopts()...)
	if err != nil {
		return
	}
	zcount(1)
	var ret error
	if !zwithin(func() {
		ret = c.Do(func(e *message.Encoder, id int32) {
			e.PutBytes(make([]byte, 64<<20))
		}, func(d *message.Decoder) error { return nil })
	}) {
		zbad(t, "a call does not return whose connection the broker resets in the middle of the request")
		return
	}
	var oe *net.OpError
	if !errors.As(ret, &oe) || oe.Op != "write" {
		zbad(t, "the broker resets the connection in the middle of a request of 64MB: the call returns %v, not the error of its write", ret)
	}
	zwithin(func() { c.Close() })
}

// zworkers counts the goroutines of the package that are running a worker.
func zworkers() int {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "created by github.com/savaki/kafka.Connect") {
			n++
		}
	}
	return n
}

// zlate makes a call whose response arrives although its request cannot be
// written to the end: the call, later ones and Close must still return.
func zlate(t *testing.T, r *rand.Rand, seed int64) {
	next := make(chan struct{})
	srv := zlisten(t, func(c net.Conn) {
		p := make([]byte, 8)
		if _, err := io.ReadFull(c, p); err != nil {
			return
		}
		c.Write([]byte{0, 0, 0, 4, p[4], p[5], p[6], p[7]})
		select {
		case <-next:
		case <-time.After(zhang):
		}
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	})
	defer srv.stop()
	c, err := kafka.Connect(srv.addr(), zopts()...)
	if err != nil {
		return
	}
	decoded := make(chan struct{})
	var once sync.Once
	var ret error
	what := "a call whose response arrives while its request is still being written, the connection then being reset"
	pause := time.Duration(r.Intn(3000)) * time.Microsecond
	if !zwithin(func() {
		ret = c.Do(func(e *message.Encoder, id int32) {
			e.PutInt32(4)
			e.PutInt32(id)
			e.Flush()
			select {
			case <-decoded:
			case <-time.After(time.Second):
			}
			time.Sleep(pause)
			close(next)
			for i := 0; i < 200 && e.Flush() == nil; i++ {
				e.PutBytes(make([]byte, 100000))
				time.Sleep(time.Millisecond)
			}
		}, func(d *message.Decoder) error { once.Do(func() { close(decoded) }); return nil })
	}) {
		zbad(t, "seed %d: %s: the call does not return", seed, what)
		return
	}
	// the response may count or the failed write: either outcome is allowed
	_ = ret
	if !zwithin(func() { zdo(c, 1, 20, nil) }) {
		zbad(t, "seed %d: %s: a later call does not return", seed, what)
		return
	}
	if !zwithin(func() { c.Close() }) {
		zbad(t, "seed %d: %s: Close does not return", seed, what)
	}
}

// zgone: the peer sends a malformed size, or ends its side of the stream, keeps
// the connection open otherwise and reads no further while a large request is
// being written. The call returns, and both workers end without Close.
func zgone(t *testing.T, mode int) {
	what := []string{"a malformed size arrives", "the broker ends its side of the stream", "the broker ends its side in the middle of a response", "a malformed size and megabytes after it arrive"}[mode]
	end := make(chan struct{})
	defer close(end)
	var sent int32
	srv := zlisten(t, func(c net.Conn) {
		switch mode {
		case 0:
			c.Write([]byte{0xff, 0xff, 0xff, 0xf0})
		case 3:
			b, err := zread(c)
			if err != nil || len(b) < 4 {
				return
			}
			c.Write(append([]byte{0, 0, 0, 4}, b[:4]...))
			c.Write([]byte{0xff, 0xff, 0xff, 0xf0})
			for b := make([]byte, 1<<20); ; {
				if _, err := c.Write(b); err != nil {
					break
				}
				atomic.AddInt32(&sent, 1)
			}
		case 2:
			c.Write([]byte{0, 0, 0, 9, 1})
			fallthrough
		default:
			c.(*net.TCPConn).CloseWrite()
		}
		<-end
	})
	defer srv.stop()
	c, err := kafka.Connect(srv.addr())
	if err != nil {
		return
	}
	zcount(1)
	if mode == 3 {
		// the first response takes its time, what follows fills the buffers
		if !zwithin(func() {
			c.Do(func(e *message.Encoder, id int32) {
				e.PutInt32(4)
				e.PutInt32(id)
			}, func(d *message.Decoder) error {
				for i, last, same := 0, int32(-1), 0; i < 60 && same < 4; i++ {
					time.Sleep(100 * time.Millisecond)
					if n := atomic.LoadInt32(&sent); n != last {
						last, same = n, 0
					} else {
						same++
					}
				}
				return nil
			})
		}) {
			zbad(t, "%s after a response: the call does not return", what)
			return
		}
	}
	for i := 0; i < 2; i++ {
		if !zwithin(func() {
			err = c.Do(func(e *message.Encoder, id int32) {
				e.PutBytes(make([]byte, 64<<20))
			}, func(d *message.Decoder) error { return nil })
		}) {
			zbad(t, "%s while a request of 64MB is written that the broker does not read: the call does not return", what)
			return
		}
		if err == nil {
			zbad(t, "%s while a request of 64MB is written: the call returns no error", what)
		}
	}
	var left string
	for i := 0; i < 100; i++ {
		left = ""
		b := make([]byte, 1<<20)
		for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
			if strings.Contains(g, "\ncreated by github.com/savaki/kafka.") {
				left = g
			}
		}
		if left == "" {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if left != "" {
		zbad(t, "%s: a background worker does not stop: %.300q", what, left)
	}
	if !zwithin(func() { c.Close() }) {
		zbad(t, "%s: Close does not return", what)
	}
}

func TestVerifC18(t *testing.T) {
	for mode := 0; mode < 4; mode++ {
		zgone(t, mode)
	}
	zloop(t, 4, 2500, func(r *rand.Rand, seed int64) {
		if r.Intn(20) == 0 {
			zlate(t, r, seed)
			return
		}
		rs := rand.New(rand.NewSource(seed + 1))
		nCalls := 1 + r.Intn(6)
		mode := r.Intn(7)
		full := r.Intn(nCalls + 1) // answered completely before the end
		if mode < 3 && full == nCalls {
			full--
		}
		var answered sync.Map
		closeNow := make(chan struct{})
		srv := zlisten(t, func(c net.Conn) {
			var out []byte
			n := 0
			got := make(map[uint64]bool)
			for n < nCalls {
				b, err := zread(c)
				if err != nil {
					return
				}
				q := zreqOf(b)
				n++
				if n <= full {
					out = append(out, zreply(q.id, zbytes(zpattern(q.tag, rs.Intn(3000))))...)
					answered.Store(q.tag, true)
					got[q.tag] = true
				} else if n == full+1 {
					rest := zreply(q.id, zbytes(zpattern(q.tag, 50)))
					switch mode {
					case 0: // cut in the middle of a response
						out = append(out, rest[:rs.Intn(len(rest))]...)
					case 1: // a malformed size
						out = append(out, zbe(4, -1-int64(rs.Intn(1000)))...)
					case 2: // half a size
						out = append(out, rest[:rs.Intn(4)]...)
					}
				}
			}
			zwrite(rs, c, out)
			switch mode {
			case 1, 5, 6: // the broker keeps the connection open
				close(closeNow)
				io.Copy(io.Discard, c)
			case 3:
				c.(*net.TCPConn).CloseWrite()
				io.Copy(io.Discard, c)
			case 4:
				// reset; what was sent may be lost
				time.Sleep(5 * time.Millisecond)
				c.(*net.TCPConn).SetLinger(0)
			}
		})
		defer srv.stop()
		c, err := kafka.Connect(srv.addr(), zopts()...)
		if err != nil {
			return
		}
		var wg sync.WaitGroup
		for g := 0; g < nCalls; g++ {
			tag := uint64(g + 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				data, calls, ret, exp := zdo(c, tag, 20, nil)
				_, full := answered.Load(tag)
				zcount(1)
				if calls > 0 {
					if got, ok := zmatches(data); !ok || got != tag {
						zbad(t, "seed %d mode %d: call %d gets the response of %d", seed, mode, tag, got)
					} else if ret != exp {
						zbad(t, "seed %d mode %d: call %d returns %v, its decode function returned %v", seed, mode, tag, ret, exp)
					}
				} else if ret == nil {
					zbad(t, "seed %d mode %d: call %d returns no error though it has no response", seed, mode, tag)
				} else if full && mode < 4 {
					// with mode 5 and 6 the connection is closed from this side, with mode 4 reset
					zbad(t, "seed %d mode %d: call %d returns %v though its response was sent completely before the connection ended", seed, mode, tag, ret)
				}
			}()
		}
		var extra sync.WaitGroup
		if mode == 5 || mode == 6 {
			select {
			case <-closeNow:
			case <-time.After(zhang):
			}
			if mode == 5 {
				time.Sleep(time.Duration(rs.Intn(500)) * time.Microsecond)
			}
			extra.Add(1)
			go func() {
				defer extra.Done()
				c.Close()
			}()
		}
		if !zwithin(wg.Wait) {
			zbad(t, "seed %d mode %d: %d calls, %d answered: a pending call does not return after the connection ended", seed, mode, nCalls, full)
			return
		}
		if !zwithin(extra.Wait) {
			zbad(t, "seed %d mode %d: Close does not return", seed, mode)
			return
		}
		for k := 0; k < 2; k++ {
			var ret error
			if !zwithin(func() { _, _, ret, _ = zdo(c, 1, 20, nil) }) {
				zbad(t, "seed %d mode %d: a call made after the connection ended does not return", seed, mode)
				return
			}
			if ret == nil {
				zbad(t, "seed %d mode %d: a call made after the connection ended returns no error", seed, mode)
			}
		}
		if !zwithin(func() { c.Close() }) {
			zbad(t, "seed %d mode %d: Close does not return", seed, mode)
			return
		}
	})
	if zfailed() {
		return
	}
	dead := time.Now().Add(zhang)
	for zworkers() > 0 {
		if time.Now().After(dead) {
			zbad(t, "%d background workers still run though all connections are closed", zworkers())
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	// a connection that ends by itself stops its workers without Close
	srv := zlisten(t, func(c net.Conn) {})
	c, err := kafka.Connect(srv.addr(), zopts()...)
	if err == nil {
		dead := time.Now().Add(zhang)
		for zworkers() > 0 {
			if time.Now().After(dead) {
				zbad(t, "background workers still run %v after the broker ended the connection", zhang)
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		zwithin(func() { c.Close() })
	}
	srv.stop()
}

// ---- the client

type znode struct {
	srv *zserver
	id  int32
}

type zcluster struct {
	nodes []*znode
	mu    sync.Mutex
	meta  func(fr *zframe) []byte
	coord func(fr *zframe) []byte
	vers  func(node int) []zrange
	seen  []string
	logs  map[int][]string
}

// zstart starts a cluster; with six, every other node has an IPv6 address.
func zstart(t *testing.T, n int, six bool) *zcluster {
	apis := zapis()
	c := &zcluster{logs: map[int][]string{}}
	c.vers = func(int) []zrange { return zpin(apis) }
	for i := 0; i < n; i++ {
		i := i
		host := "127.0.0.1"
		if six && i%2 == 1 {
			host = "::1"
		}
		c.nodes = append(c.nodes, &znode{id: int32(i), srv: zlistenAt(host, zbroker(func() []zrange {
			c.mu.Lock()
			defer c.mu.Unlock()
			return c.vers(i)
		}, func(fr *zframe) []byte {
			c.mu.Lock()
			defer c.mu.Unlock()
			switch fr.key {
			case 3:
				c.logs[i] = append(c.logs[i], "metadata")
				return c.meta(fr)
			case 10:
				c.logs[i] = append(c.logs[i], "coordinator")
				return c.coord(fr)
			}
			c.logs[i] = append(c.logs[i], "other")
			return []byte{}
		}))})
	}
	return c
}
func (c *zcluster) stop() {
	for _, n := range c.nodes {
		n.srv.stop()
	}
}

// zpin: all APIs at fixed versions.
func zpin(apis []zapi) []zrange {
	var out []zrange
	for _, a := range apis {
		out = append(out, zrange{a.key, a.min, a.max})
	}
	return out
}

// zfree returns an address nobody listens on: the port is bound until done.
func zfree() (addr string, done func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func (n *znode) open() int32 { return atomic.LoadInt32(&n.srv.live) }

func zclient(t *testing.T, prop string) {
	sch := zload(t)
	zloop(t, 4, 2500, func(r *rand.Rand, seed int64) {
		nn := 3 + r.Intn(3)
		cl := zstart(t, nn, r.Intn(3) == 0)
		defer cl.stop()
		nb := 1 + r.Intn(2) // bootstrap nodes
		// the metadata lists the other nodes under ids of their own
		ids := r.Perm(20)
		var meta message.MetadataResponse
		meta.ControllerId = int32(ids[r.Intn(nn)])
		for i := range cl.nodes {
			cl.nodes[i].id = int32(ids[i])
		}
		perm := r.Perm(nn)
		missing := -1
		if r.Intn(5) == 0 {
			missing = r.Intn(nn)
		}
		for _, i := range perm {
			if i == missing {
				continue
			}
			rv := reflect.ValueOf(&meta).Elem().FieldByName("Brokers")
			el := reflect.New(rv.Type().Elem()).Elem()
			el.FieldByName("NodeId").SetInt(int64(cl.nodes[i].id))
			el.FieldByName("Host").SetString(cl.nodes[i].srv.host())
			el.FieldByName("Port").SetInt(int64(cl.nodes[i].srv.port()))
			rv.Set(reflect.Append(rv, el))
		}
		names := []string{"alpha", "beta", "gamma", "", "alph", "alphabet"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		type tp struct {
			topic string
			part  int32
		}
		leader := map[tp]int32{}
		for _, nm := range names[:2+r.Intn(4)] {
			tv := reflect.ValueOf(&meta).Elem().FieldByName("Topics")
			el := reflect.New(tv.Type().Elem()).Elem()
			el.FieldByName("Name").SetString(nm)
			el.FieldByName("ErrorCode").SetInt([]int64{0, 0, 0, 5, 17}[r.Intn(5)])
			pv := el.FieldByName("Partitions")
			for _, pi := range r.Perm(5)[:r.Intn(5)] {
				pe := reflect.New(pv.Type().Elem()).Elem()
				pe.FieldByName("PartitionIndex").SetInt(int64(pi))
				ld := int32(ids[r.Intn(nn)])
				if r.Intn(8) == 0 {
					ld = -1 // no leader
				}
				pe.FieldByName("LeaderId").SetInt(int64(ld))
				pe.FieldByName("ErrorCode").SetInt([]int64{0, 0, 9, 5, 6, -1}[r.Intn(6)])
				for _, f := range []string{"ReplicaNodes", "IsrNodes"} {
					var l []int32
					for _, k := range r.Perm(nn)[:r.Intn(nn+1)] {
						l = append(l, int32(ids[k]))
					}
					pe.FieldByName(f).Set(reflect.ValueOf(l))
				}
				leader[tp{nm, int32(pi)}] = ld
				pv.Set(reflect.Append(pv, pe))
			}
			tv.Set(reflect.Append(tv, el))
		}
		metaFails, coordFails := r.Intn(8) == 0, r.Intn(5)
		coordNode := r.Intn(nn)
		group := []string{"g1", "", "group two"}[r.Intn(3)]
		asked := ""
		cl.mu.Lock()
		cl.meta = func(fr *zframe) []byte {
			b := sch.enc("MetadataResponse", reflect.ValueOf(meta), fr.ver)
			if metaFails {
				return b[:len(b)/2]
			}
			return b
		}
		cl.coord = func(fr *zframe) []byte {
			if len(fr.body) >= 2 {
				n := int(int16(binary.BigEndian.Uint16(fr.body)))
				if n >= 0 && len(fr.body) >= 2+n {
					asked = string(fr.body[2 : 2+n])
					if rest := fr.body[2+n:]; len(rest) > 0 && rest[0] != 0 {
						asked = fmt.Sprintf("%q with key type %d", asked, rest[0])
					}
				}
			}
			var resp message.FindCoordinatorResponse
			resp.NodeId = 77
			resp.Host = cl.nodes[coordNode].srv.host()
			resp.Port = int32(cl.nodes[coordNode].srv.port())
			if coordFails == 0 {
				resp.ErrorCode = []int16{15, -1, 1}[r.Intn(3)]
			}
			b := sch.enc("FindCoordinatorResponse", reflect.ValueOf(resp), fr.ver)
			if coordFails == 1 {
				return b[:len(b)-1]
			}
			return b
		}
		badNode := -1
		if prop == "C21" && r.Intn(4) == 0 {
			badNode = nb + r.Intn(nn-nb)
			badCode := []int{0, 35, 41}[r.Intn(3)]
			apis := zapis()
			cl.vers = func(i int) []zrange {
				if i == badNode {
					if badCode != 0 {
						return []zrange{{zcodeKey, badCode, 0}, {0, 1000, 1001}}
					}
					return []zrange{{0, 1000, 1001}}
				}
				return zpin(apis)
			}
		}
		cl.mu.Unlock()
		var boot []string
		down := r.Intn(3)
		if r.Intn(6) == 0 {
			down = r.Intn(10) // many servers that are down
		}
		for i := down; i > 0; i-- {
			a, done := zfree()
			defer done()
			boot = append(boot, a)
		}
		firstBoot := r.Intn(nb)
		boot = append(boot, cl.nodes[firstBoot].srv.addr())
		for i := 0; i < nb; i++ {
			boot = append(boot, cl.nodes[i].srv.addr())
		}
		if r.Intn(12) == 0 {
			boot = boot[:0]
		} else if r.Intn(5) == 0 {
			boot = boot[:down+1] // only one works, the last one or one among others
			if down > 2 && r.Intn(2) == 0 {
				j := r.Intn(down)
				boot[j], boot[down] = boot[down], boot[j]
			}
		}
		client := kafka.NewClient(boot)
		op := r.Intn(4)
		topic := names[r.Intn(len(names))]
		part := int32(r.Intn(5))
		var b *kafka.Broker
		var err error
		what := ""
		wantNode, wantErr := -1, len(boot) == 0
		byID := func(id int32) int {
			for i, n := range cl.nodes {
				if n.id == id && i != missing {
					return i
				}
			}
			return -1
		}
		ok := zwithin(func() {
			ctx := context.Background()
			switch op {
			case 0:
				what = "DialController"
				wantNode = byID(meta.ControllerId)
				wantErr = wantErr || metaFails
				b, err = client.DialController(ctx)
			case 1:
				what = fmt.Sprintf("DialLeader(%q, %d)", topic, part)
				if ld, ok := leader[tp{topic, part}]; ok {
					wantNode = byID(ld)
				}
				wantErr = wantErr || metaFails
				b, err = client.DialLeader(ctx, topic, part)
			case 2:
				what = fmt.Sprintf("DialGroupCoordinator(%q)", group)
				wantNode = coordNode
				wantErr = wantErr || coordFails < 2
				b, err = client.DialGroupCoordinator(ctx, group)
			case 3:
				what = "Metadata"
				var got message.MetadataResponse
				got, err = client.Metadata(ctx, "x", "y")
				wantErr = wantErr || metaFails
				if prop == "C20" && err == nil && !wantErr && len(got.Brokers) != len(meta.Brokers) {
					zbad(t, "seed %d: Metadata returns %+v, the cluster said %+v", seed, got, meta)
				}
			}
		})
		if !ok {
			zbad(t, "seed %d: %s does not return", seed, what)
			return
		}
		if op != 3 && (wantNode < 0 || wantNode == badNode) {
			wantErr = true
		}
		desc := func() string {
			return fmt.Sprintf("seed %d: %s, metadata %+v, bootstrap %d entries", seed, what, meta, len(boot))
		}
		if prop == "C20" {
			if op != 3 && err == nil && b == nil {
				zbad(t, "%s: returns neither a broker nor an error", desc())
			}
			if wantErr && err == nil {
				zbad(t, "%s: succeeds", desc())
			}
			if !wantErr && err != nil {
				zbad(t, "%s: fails: %v", desc(), err)
			}
			if err == nil && b != nil && !wantErr {
				// the connection answers from the node that was meant
				cl.mu.Lock()
				cl.logs = map[int][]string{}
				cl.mu.Unlock()
				zwithin(func() { b.Heartbeat(message.HeartbeatRequest{}) })
				cl.mu.Lock()
				for i := range cl.nodes {
					if len(cl.logs[i]) > 0 && i != wantNode {
						zbad(t, "%s: connects to node %d (port %d), want node %d (port %d)", desc(), cl.nodes[i].id, cl.nodes[i].srv.port(), cl.nodes[wantNode].id, cl.nodes[wantNode].srv.port())
					}
				}
				if len(cl.logs[wantNode]) == 0 {
					zbad(t, "%s: is not connected to node %d", desc(), cl.nodes[wantNode].id)
				}
				cl.mu.Unlock()
			}
			if op == 2 && len(boot) > 0 {
				cl.mu.Lock()
				if asked != group {
					zbad(t, "%s: asks for the coordinator of %q", desc(), asked)
				}
				cl.mu.Unlock()
			}
			if wantErr {
				time.Sleep(time.Millisecond)
				for i := nb; i < nn; i++ {
					if i != badNode && atomic.LoadInt32(&cl.nodes[i].srv.opened) > 0 {
						zbad(t, "%s: fails but dials node %d", desc(), cl.nodes[i].id)
					}
				}
			}
			for i := 0; i < nb; i++ {
				if len(boot) > 0 && i != firstBoot && i != wantNode && atomic.LoadInt32(&cl.nodes[i].srv.opened) > 0 {
					zbad(t, "%s: a bootstrap server is tried out of order", desc())
				}
			}
			if b != nil {
				zwithin(func() { b.Close() })
			}
			return
		}
		// C21
		want := int32(0)
		if b != nil && err == nil {
			want = 1
		}
		open := func() int32 {
			n := int32(0)
			for _, nd := range cl.nodes {
				n += nd.open()
			}
			return n
		}
		dead := time.Now().Add(5 * time.Second)
		for open() != want && time.Now().Before(dead) {
			time.Sleep(time.Millisecond)
		}
		if n := open(); n != want {
			zbad(t, "%s (bad node %d, metadata cut %v, coordinator %d): returned error %v; %d connections are open 5 s after the call, want %d", desc(), badNode, metaFails, coordFails, err, n, want)
		}
		if want == 1 {
			var e error
			if !zwithin(func() { _, e = b.Heartbeat(message.HeartbeatRequest{}) }) {
				zbad(t, "%s: the returned connection does not work", desc())
			}
			_ = e
			zwithin(func() { b.Close() })
			dead := time.Now().Add(5 * time.Second)
			for open() != 0 && time.Now().Before(dead) {
				time.Sleep(time.Millisecond)
			}
			if open() != 0 {
				zbad(t, "%s: closing the broker leaves its connection open", desc())
			}
		}
	})
}

func TestVerifC20(t *testing.T) { zclient(t, "C20") }
func TestVerifC21(t *testing.T) { zclient(t, "C21") }

// ---- C22: options

func zcert(name string) (tls.Certificate, *x509.CertPool) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	leaf, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(leaf)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pool
}

func TestVerifC22(t *testing.T) {
	apis := zapis()
	sch := zload(t)
	certA, poolA := zcert("a.example")
	_, poolB := zcert("b.example")
	zloop(t, 4, 2500, func(r *rand.Rand, seed int64) {
		var sni atomic.Value
		sni.Store("")
		clients := make(chan string, 100)
		var port int
		serve := zbroker(func() []zrange { return zpin(apis) }, func(fr *zframe) []byte {
			clients <- fr.client
			switch fr.key {
			case 3:
				var meta message.MetadataResponse
				rv := reflect.ValueOf(&meta).Elem().FieldByName("Brokers")
				el := reflect.New(rv.Type().Elem()).Elem()
				el.FieldByName("Host").SetString("127.0.0.1")
				el.FieldByName("Port").SetInt(int64(port))
				rv.Set(reflect.Append(rv, el))
				return sch.enc("MetadataResponse", reflect.ValueOf(meta), fr.ver)
			case 10:
				var resp message.FindCoordinatorResponse
				resp.Host, resp.Port = "127.0.0.1", int32(port)
				return sch.enc("FindCoordinatorResponse", reflect.ValueOf(resp), fr.ver)
			}
			return []byte{}
		})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		port = l.Addr().(*net.TCPAddr).Port
		useTLS := r.Intn(2) == 0
		var sl net.Listener = l
		if useTLS {
			sl = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{certA}, GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
				sni.Store(h.ServerName)
				return nil, nil
			}})
		}
		srv := zserveOn(sl, serve)
		defer srv.stop()
		// options: a random list; the last of each kind counts
		var opts []kafka.Option
		var used [4]int32
		var addrs sync.Map
		mk := func(i int) *net.Dialer {
			return &net.Dialer{Control: func(network, address string, c syscall.RawConn) error {
				atomic.AddInt32(&used[i], 1)
				addrs.Store(address, network)
				return nil
			}}
		}
		lastD, lastT := -1, 0 // 0: none
		good := &tls.Config{RootCAs: poolA, ServerName: "a.example"}
		wrong := &tls.Config{RootCAs: poolB, ServerName: "a.example"}
		for i := r.Intn(6); i > 0; i-- {
			switch r.Intn(5) {
			case 0, 1:
				lastD = r.Intn(4)
				opts = append(opts, kafka.WithDialer(mk(lastD)))
			case 2:
				lastD = -1
				opts = append(opts, kafka.WithDialer(nil))
			case 3:
				lastT = 1 + r.Intn(2)
				if lastT == 1 {
					opts = append(opts, kafka.WithTLS(good))
				} else {
					opts = append(opts, kafka.WithTLS(wrong))
				}
			case 4:
				lastT = 0
				opts = append(opts, kafka.WithTLS(nil))
			}
		}
		if useTLS != (lastT != 0) {
			// make the two ends agree most of the time
			if useTLS {
				lastT = 1
				opts = append(opts, kafka.WithTLS(good))
			} else {
				lastT = 0
				opts = append(opts, kafka.WithTLS(nil))
			}
		}
		wantOK := !useTLS || lastT == 1
		dials := int32(1)
		var b *kafka.Broker
		how := r.Intn(4)
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		ok := zwithin(func() {
			switch how {
			case 0:
				b, err = kafka.NewBroker(addr, opts...)
			case 1:
				var c *kafka.Conn
				c, err = kafka.Connect(addr, opts...)
				if err == nil {
					c.Close()
				}
			case 2:
				dials = 2
				b, err = kafka.NewClient([]string{addr}, opts...).DialController(context.Background())
			case 3:
				dials = 2
				b, err = kafka.NewClient([]string{addr}, opts...).DialGroupCoordinator(context.Background(), "g")
			}
		})
		desc := func() string {
			return fmt.Sprintf("seed %d: how=%d server tls=%v last dialer=%d last tls option=%d (%d options)", seed, how, useTLS, lastD, lastT, len(opts))
		}
		if !ok {
			zbad(t, "%s: does not return", desc())
			return
		}
		if (err == nil) != wantOK {
			zbad(t, "%s: error %v", desc(), err)
			return
		}
		if b != nil && err == nil {
			zwithin(func() { b.Heartbeat(message.HeartbeatRequest{}) })
			select {
			case id := <-clients:
				if id != "github.com/savaki/kafka" {
					zbad(t, "%s: requests carry client id %q", desc(), id)
				}
			case <-time.After(zhang):
			}
			zwithin(func() { b.Close() })
		}
		for i := range used {
			n := atomic.LoadInt32(&used[i])
			if i == lastD {
				if wantOK && n != dials || !wantOK && n < 1 {
					zbad(t, "%s: the configured dialer made %d connections, want %d", desc(), n, dials)
				}
			} else if n != 0 {
				zbad(t, "%s: dialer %d was used", desc(), i)
			}
		}
		addrs.Range(func(k, v interface{}) bool {
			if k != addr || v != "tcp4" {
				zbad(t, "%s: dialled %v %v, want %s", desc(), v, k, addr)
			}
			return true
		})
		if useTLS && wantOK && sni.Load() != "a.example" {
			zbad(t, "%s: the TLS server name is %q", desc(), sni.Load())
		}
	})
}
