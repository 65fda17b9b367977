package message_test

// Shared by the harnesses: values, and the protocol encoding written from the
// protocol rules and contracts/messages.schema.

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type zfield struct {
	name, kind string
	lo, hi     int
}

type zschema struct {
	order  []string
	fields map[string][]zfield
}

func zload(t testing.TB) *zschema {
	f, err := os.Open(os.Getenv("VERIF_SCHEMA"))
	if err != nil {
		t.Skip("no schema")
	}
	defer f.Close()
	s := &zschema{fields: map[string][]zfield{}}
	cur := ""
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) == 0 || strings.HasPrefix(w[0], "//") || strings.HasPrefix(w[0], "#") {
			continue
		}
		if w[0] == "message" {
			cur = w[1]
			s.order = append(s.order, cur)
			continue
		}
		fd := zfield{name: w[0], kind: w[1], lo: -32768, hi: 32767}
		if w[2] != "all" {
			p := strings.SplitN(w[2], "..", 2)
			if p[0] != "" {
				fd.lo, _ = strconv.Atoi(p[0])
			}
			if p[1] != "" {
				fd.hi, _ = strconv.Atoi(p[1])
			}
		}
		s.fields[cur] = append(s.fields[cur], fd)
	}
	return s
}

var zseed = func() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}()

var zbudget = func() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		n = 10
	}
	return time.Duration(n) * time.Second
}()

var zwant = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("VERIF_TYPES"), ",") {
		if s != "" {
			m[s] = true
		}
	}
	return m
}()

var zcases int64
var zfails int

// znow is what is being done, for reports of calls that do not return.
var znow atomic.Value

// zwatch reports a call into the library that computes for ever or uses up the memory: no test case
// has ended for half a minute, and a goroutine runs in the code under test each time one looks.
func zwatch() {
	dir, err := os.Getwd()
	if err != nil {
		return
	}
	busy := func() string {
		buf := make([]byte, 1<<20)
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			head := strings.SplitN(g, "\n", 2)[0]
			if !strings.Contains(head, "[run") {
				continue
			}
			for _, l := range strings.Split(g, "\n") {
				if strings.HasPrefix(l, "\t"+dir) && !strings.Contains(l, "_test.go:") {
					return strings.TrimPrefix(strings.Fields(l)[0], dir+"/")
				}
			}
		}
		return ""
	}
	report := func(what, at string) {
		now, _ := znow.Load().(func() string)
		s := ""
		if now != nil {
			s = ": " + now()
		}
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		fmt.Printf("\nFAILING-INPUT %s (at %s)%s\n", what, at, s)
		os.Exit(1)
	}
	last, still, seen := int64(-1), time.Now(), 0
	for i := 0; ; i++ {
		time.Sleep(100 * time.Millisecond)
		if i%5 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 8<<30 {
				if at := busy(); at != "" {
					report("a call uses more than 8 GB", at)
				}
			}
		}
		if n := atomic.LoadInt64(&zcases); n != last {
			last, still, seen = n, time.Now(), 0
			continue
		}
		if time.Since(still) > 30*time.Second && i%10 == 0 {
			at := busy()
			if at == "" {
				seen = 0
			} else if seen++; seen >= 4 {
				report("a call does not return", at)
			}
		}
	}
}

func TestMain(m *testing.M) {
	go zwatch()
	c := m.Run()
	fmt.Printf("VERIF-CASES %d\n", zcases)
	os.Exit(c)
}

func zfail(t *testing.T, format string, args ...interface{}) {
	zfails++
	s := fmt.Sprintf(format, args...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("FAILING-INPUT %s\n", s)
	t.Fail()
	if zfails > 10 {
		t.FailNow()
	}
}

// ---- values -------------------------------------------------------------

func zstr(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0, 1, 2:
		return ""
	case 3:
		return strings.Repeat("x", []int{63, 64, 127, 128, 255, 256, 300}[r.Intn(7)])
	case 4:
		if r.Intn(20) == 0 {
			return strings.Repeat("y", 32767-r.Intn(2))
		}
		fallthrough
	default:
		b := make([]byte, r.Intn(9))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	}
}

func zint(r *rand.Rand, bits uint) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return -1 << (bits - 1)
	case 4:
		return 1<<(bits-1) - 1
	case 5:
		return (int64(1) << (uint(r.Intn(int(bits - 1))))) - int64(r.Intn(3))
	default:
		v := int64(r.Uint64())
		return v << (64 - bits) >> (64 - bits)
	}
}

func zfill(r *rand.Rand, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(zint(r, uint(v.Type().Bits())))
	case reflect.String:
		v.SetString(zstr(r))
	case reflect.Ptr:
		if r.Intn(3) == 0 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			p := reflect.New(v.Type().Elem())
			zfill(r, p.Elem(), depth)
			v.Set(p)
		}
	case reflect.Slice:
		n := []int{-1, 0, 1, 1, 2, 2, 3, 5}[r.Intn(8)]
		if depth > 2 && n > 2 {
			n = 1
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if n < 0 {
				v.Set(reflect.Zero(v.Type()))
				return
			}
			v.SetBytes([]byte(zstr(r)))
			return
		}
		if n < 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			zfill(r, s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				zfill(r, v.Field(i), depth)
			}
		}
	}
}

// ---- protocol encoding, written from the protocol rules -------------------

func zbe(n int, v int64) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func zvarint(v int64) []byte {
	u := uint64(v)<<1 ^ uint64(v>>63)
	var b []byte
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func zencPrim(kind string, v reflect.Value) []byte {
	switch kind {
	case "i8":
		return zbe(1, v.Int())
	case "i16":
		return zbe(2, v.Int())
	case "i32":
		return zbe(4, v.Int())
	case "i64":
		return zbe(8, v.Int())
	case "bool":
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case "str":
		return append(zbe(2, int64(v.Len())), v.String()...)
	case "bytes":
		return append(zbe(4, int64(v.Len())), v.Bytes()...)
	case "i32arr", "i64arr", "strarr":
		if v.IsNil() {
			return zbe(4, -1)
		}
		b := zbe(4, int64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			b = append(b, zencPrim(kind[:3], v.Index(i))...)
		}
		return b
	}
	panic("kind " + kind)
}

func (s *zschema) enc(T string, v reflect.Value, version int) []byte {
	var b []byte
	for _, f := range s.fields[T] {
		if version < f.lo || version > f.hi {
			continue
		}
		fv := v.FieldByName(f.name)
		if strings.HasPrefix(f.kind, "[]") {
			b = append(b, zbe(4, int64(fv.Len()))...)
			for i := 0; i < fv.Len(); i++ {
				b = append(b, s.enc(f.kind[2:], fv.Index(i), version)...)
			}
		} else {
			b = append(b, zencPrim(f.kind, fv)...)
		}
	}
	return b
}
