package message_test

// Replay and bounded-check harness for the message package. It drives the
// real code through its exported API only, against an encoder written here
// from the protocol rules and the message definitions in
// contracts/messages.schema. It never decides a property on its own: govc
// runs it to look for a concrete failing input when an obligation fails, and
// as a labelled bounded check where a function is out of the verifier's reach.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
)

type zmsg interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
	Decode(d *message.Decoder, version int16) error
}

func zenc(m zmsg, version int16) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	var buf bytes.Buffer
	znow.Store(func() string { return fmt.Sprintf("encoding %T %+v at version %d", m, m, version) })
	e := message.NewEncoder(&buf)
	m.Encode(e, version)
	err = e.Flush()
	return buf.Bytes(), err
}

func zdec(m zmsg, raw []byte, length int, version int16) (rest int, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	znow.Store(func() string {
		return fmt.Sprintf("%T version %d: decoding %s, declared length %d", m, version, hex.EncodeToString(raw), length)
	})
	d := message.NewDecoder(raw, length)
	err = m.Decode(d, version)
	return zrest(d, length), err, ""
}

// zrest counts the bytes that can still be read.
func zrest(d *message.Decoder, max int) int {
	n := 0
	for n <= max+1 {
		if _, err := d.Int8(); err != nil {
			break
		}
		n++
	}
	return n
}

func zshow(m zmsg) string { return fmt.Sprintf("%+v", reflect.ValueOf(m).Elem().Interface()) }

// zversions: versions at and around every boundary of the definition.
func (s *zschema) versions(T string, r *rand.Rand) []int16 {
	set := map[int]bool{0: true, 1: true, -32768: true, 32767: true, -1: true}
	var walk func(T string, d int)
	walk = func(T string, d int) {
		if d > 5 {
			return
		}
		for _, f := range s.fields[T] {
			for _, v := range []int{f.lo - 1, f.lo, f.hi, f.hi + 1} {
				if v >= -32768 && v <= 32767 {
					set[v] = true
				}
			}
			if strings.HasPrefix(f.kind, "[]") {
				walk(f.kind[2:], d+1)
			}
		}
	}
	walk(T, 0)
	for v := 0; v <= 12; v++ {
		set[v] = true
	}
	set[r.Intn(65536)-32768] = true
	var out []int16
	for v := range set {
		out = append(out, int16(v))
	}
	for i := range out {
		j := r.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func zeach(t *testing.T, f func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16)) {
	s := zload(t)
	r := rand.New(rand.NewSource(zseed))
	stop := time.Now().Add(zbudget)
	for round := 0; round < 400; round++ {
		for _, T := range s.order {
			if len(zwant) > 0 && !zwant[T] {
				continue
			}
			if ztypes[T] == nil {
				continue
			}
			for _, v := range s.versions(T, r) {
				if time.Now().After(stop) {
					return
				}
				atomic.AddInt64(&zcases, 1)
				f(t, s, r, T, v)
			}
		}
	}
}

func TestVerifC01(t *testing.T) {
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 0)
		b, err := zenc(m, version)
		if err != nil {
			return
		}
		if n := m.Size(version); int(n) != len(b) {
			zfail(t, "%s version %d: Size reports %d, Encode emits %d bytes; value %s", T, version, n, len(b), zshow(m))
		}
	})
}

func TestVerifC03(t *testing.T) {
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 0)
		want := s.enc(T, reflect.ValueOf(m).Elem(), int(version))
		b, err := zenc(m, version)
		if err != nil {
			zfail(t, "%s version %d: Encode fails with %v; value %s", T, version, err, zshow(m))
			return
		}
		if !bytes.Equal(b, want) {
			zfail(t, "%s version %d: encodes %s, the protocol definition gives %s; value %s", T, version, hex.EncodeToString(b), hex.EncodeToString(want), zshow(m))
			return
		}
		if n := m.Size(version); int(n) != len(want) {
			zfail(t, "%s version %d: Size reports %d, the definition gives %d bytes; value %s", T, version, n, len(want), zshow(m))
		}
		m2 := ztypes[T]()
		rest, err, pan := zdec(m2, append(append([]byte{}, want...), 9, 9, 9), len(want)+3, version)
		if pan != "" || err != nil || rest != 3 {
			zfail(t, "%s version %d: decoding %s gives err=%v panic=%q, %d of 3 following bytes left", T, version, hex.EncodeToString(want), err, pan, rest)
			return
		}
		if b2 := s.enc(T, reflect.ValueOf(m2).Elem(), int(version)); !bytes.Equal(b2, want) {
			zfail(t, "%s version %d: decoding %s yields %s", T, version, hex.EncodeToString(want), zshow(m2))
		}
	})
}

func zsame(a, b reflect.Value) bool {
	if a.Kind() == reflect.Slice {
		if a.Len() != b.Len() {
			return false
		}
		k := a.Type().Elem().Kind()
		if k != reflect.Struct && k != reflect.Uint8 && a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !zsame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	if a.Kind() == reflect.Struct {
		return true // nested parts: compared through their encoding
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// zchange makes v a different value.
func zchange(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(v.Int() ^ 1)
	case reflect.String:
		if v.Len() > 0 {
			v.SetString(v.String()[1:])
		} else {
			v.SetString("x")
		}
	case reflect.Slice:
		v.Set(reflect.Append(v.Slice3(0, v.Len(), v.Len()), reflect.Zero(v.Type().Elem())))
	}
}

func TestVerifC02(t *testing.T) {
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 0)
		b, err := zenc(m, version)
		if err != nil {
			return
		}
		m2, was := ztypes[T](), ztypes[T]()
		sd := r.Int63()
		zfill(rand.New(rand.NewSource(sd)), reflect.ValueOf(m2).Elem(), 0)
		zfill(rand.New(rand.NewSource(sd)), reflect.ValueOf(was).Elem(), 0)
		tail := make([]byte, r.Intn(5))
		r.Read(tail)
		raw := append(append([]byte{}, b...), tail...)
		rest, err, pan := zdec(m2, raw, len(raw), version)
		if pan != "" || err != nil || rest != len(tail) {
			zfail(t, "%s version %d: decoding its own encoding %s gives err=%v panic=%q, %d of %d following bytes left; value %s", T, version, hex.EncodeToString(b), err, pan, rest, len(tail), zshow(m))
			return
		}
		b2, _ := zenc(m2, version)
		if !bytes.Equal(b, b2) {
			zfail(t, "%s version %d: encode, decode, encode gives %s then %s; value %s became %s", T, version, hex.EncodeToString(b), hex.EncodeToString(b2), zshow(m), zshow(m2))
			return
		}
		v, v2, w := reflect.ValueOf(m).Elem(), reflect.ValueOf(m2).Elem(), reflect.ValueOf(was).Elem()
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			if !v2.Field(i).CanInterface() {
				continue
			}
			// a field is carried if the encoding depends on it
			carried := false
			probe := ztypes[T]()
			reflect.ValueOf(probe).Elem().Set(v)
			zchange(reflect.ValueOf(probe).Elem().Field(i))
			pb, _ := zenc(probe, version)
			carried = !bytes.Equal(pb, b)
			if carried && !zsame(v.Field(i), v2.Field(i)) {
				zfail(t, "%s version %d: field %s was %v, decodes to %v", T, version, name, v.Field(i).Interface(), v2.Field(i).Interface())
			}
			if !carried && v.Field(i).Kind() != reflect.Struct && !reflect.DeepEqual(w.Field(i).Interface(), v2.Field(i).Interface()) {
				zfail(t, "%s version %d: field %s is not carried but decoding changed it from %v to %v", T, version, name, w.Field(i).Interface(), v2.Field(i).Interface())
			}
		}
	})
}

func TestVerifC08(t *testing.T) {
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 1)
		b, err := zenc(m, version)
		if err != nil || len(b) > 4000 {
			return
		}
		for cut := 0; cut < len(b); cut++ {
			if cut > 400 && cut%97 != 0 {
				continue
			}
			m2 := ztypes[T]()
			_, err, pan := zdec(m2, b, cut, version)
			if pan == "" && (err == nil || !message.IsInsufficientDataError(err)) {
				zfail(t, "%s version %d: encoding %s cut to %d bytes decodes with err=%v", T, version, hex.EncodeToString(b), cut, err)
				return
			}
		}
	})
	zprims(t, "C08")
}

// zroom finds a collection with far more room than the input has bytes; what
// growing by append leaves over is allowed.
func zroom(v reflect.Value, length int) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return zroom(v.Elem(), length)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if x := zroom(v.Field(i), length); x != "" {
				return x
			}
		}
	case reflect.Slice:
		if v.Cap() > length && v.Cap() > 2*v.Len()+8 {
			return fmt.Sprintf("allocates room for %d elements where %d are decoded", v.Cap(), v.Len())
		}
		if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				if x := zroom(v.Index(i), length); x != "" {
					return x
				}
			}
		}
	}
	return ""
}

func TestVerifC07(t *testing.T) {
	half := zbudget / 2
	zbudget = half
	zprims(t, "C07")
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 1)
		b, err := zenc(m, version)
		if err != nil || r.Intn(4) == 0 {
			b = make([]byte, r.Intn(60))
			r.Read(b)
		}
		b = append([]byte{}, b...)
		big := false
		for k := r.Intn(4); k > 0 && len(b) > 0; k-- {
			i := r.Intn(len(b))
			switch r.Intn(5) {
			case 0:
				b[i] = byte(r.Intn(256))
			case 1:
				copy(b[i:], []byte{0x7f, 0xff, 0xff, 0xff})
				big = true
			case 2:
				copy(b[i:], []byte{0x00, 0x7f, 0xff, 0xff})
				big = true
			case 3:
				copy(b[i:], []byte{0xff, 0xff, 0xff, byte(r.Intn(256))})
			case 4:
				b = b[:i]
			}
		}
		// every 4-byte window as a huge count, once in a while
		if r.Intn(8) == 0 && len(b) >= 4 {
			i := r.Intn(len(b) - 3)
			copy(b[i:], []byte{0x00, 0x3f, 0xff, 0xff})
			big = true
		}
		length := len(b)
		if r.Intn(3) == 0 && length > 0 {
			length = r.Intn(length + 1)
		}
		var ms0, ms1 runtime.MemStats
		if big {
			runtime.ReadMemStats(&ms0)
		}
		m2 := ztypes[T]()
		rest, err, pan := zdec(m2, b, length, version)
		if big {
			runtime.ReadMemStats(&ms1)
			if d := ms1.TotalAlloc - ms0.TotalAlloc; d > 1<<20+uint64(len(b))*2048 {
				zfail(t, "%s version %d: decoding %d bytes %s allocates %d bytes", T, version, length, hex.EncodeToString(b[:length]), d)
			}
		}
		if x := zroom(reflect.ValueOf(m2), length); x != "" {
			zfail(t, "%s version %d: decoding %s (declared length %d) %s", T, version, hex.EncodeToString(b), length, x)
		}
		if pan != "" {
			zfail(t, "%s version %d: decoding %s (declared length %d) panics: %s", T, version, hex.EncodeToString(b), length, pan)
			return
		}
		if rest > length {
			zfail(t, "%s version %d: decoding %s (declared length %d) leaves %d bytes to read", T, version, hex.EncodeToString(b), length, rest)
		}
		// nothing beyond the declared length is read
		b3 := append(append([]byte{}, b[:length]...), make([]byte, 40)...)
		r.Read(b3[length:])
		m3 := ztypes[T]()
		rest3, err3, pan3 := zdec(m3, b3, length, version)
		if pan3 != "" || rest3 != rest || (err3 == nil) != (err == nil) || !reflect.DeepEqual(m2, m3) {
			zfail(t, "%s version %d: decoding %s depends on bytes beyond the declared length", T, version, hex.EncodeToString(b[:length]))
		}
		d := zbackwards(m2, b, length, version)
		if d != "" {
			zfail(t, "%s version %d: %s", T, version, d)
		}
	})
}

// zbackwards: decoding after discarding k bytes must not give them back.
func zbackwards(m zmsg, b []byte, length int, version int16) (out string) {
	defer func() { recover() }()
	raw := append([]byte{1, 2, 3, 4, 5}, b[:length]...)
	d := message.NewDecoder(raw, len(raw))
	if d.Discard(5) != nil {
		return ""
	}
	m.Decode(d, version)
	if n := zrest(d, len(raw)); n > length {
		return fmt.Sprintf("decoding %s after 5 bytes moves the position backwards", hex.EncodeToString(b[:length]))
	}
	return ""
}

// zw fails at the n-th write and counts what happens afterwards.
type zw struct {
	n       int
	failed  bool
	after   int
	all     []byte
	partial bool
	flushed int
	own     interface{}
}

var zerr = errors.New("first failure")
var zerr2 = errors.New("later failure")
var zflusherr = errors.New("flush failure")

func (w *zw) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, zerr2
	}
	if w.n == 0 {
		w.failed = true
		if w.partial && len(p) > 0 {
			return len(p) - 1, zerr
		}
		return 0, zerr
	}
	w.n--
	w.all = append(w.all, p...)
	return len(p), nil
}

type zwf struct {
	zw
	res error
}

func (w *zwf) Flush() error { w.flushed++; return w.res }

// zsw also has WriteString
type zsw struct{ zw }

func (w *zsw) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func zsticky(put func(e *message.Encoder)) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	for n := 0; n < 40; n++ {
		for mode := 0; mode < 4; mode++ {
			var e *message.Encoder
			var w *zw
			switch mode {
			case 0:
				w = &zw{n: n}
				e = message.NewEncoder(w)
			case 1:
				f := &zwf{zw: zw{n: n, partial: true}, res: zflusherr}
				w = &f.zw
				w.own = f
				e = message.NewEncoder(f)
			case 2:
				f := &zsw{zw: zw{n: n}}
				w = &f.zw
				e = message.NewEncoder(f)
			case 3:
				f := &zwf{zw: zw{n: n}}
				w = &f.zw
				e = message.NewEncoder(f)
			}
			put(e)
			put(e)
			err := e.Flush()
			if w.failed {
				if w.after > 0 {
					return fmt.Sprintf("write %d fails: %d writes follow the failed one", n, w.after)
				}
				if err != zerr {
					return fmt.Sprintf("write %d fails: Flush returns %v instead of the first error", n, err)
				}
			} else {
				var want error
				if mode == 1 {
					want = zflusherr
				}
				if err != want {
					return fmt.Sprintf("no write fails: Flush returns %v instead of %v", err, want)
				}
				if mode == 1 && w.flushed != 1 {
					return fmt.Sprintf("no write fails: stream flushed %d times", w.flushed)
				}
			}
			again := err
			if f, ok := w.own.(*zwf); ok && !w.failed && n%2 == 1 {
				// the stream's own flush may well succeed the next time
				f.res = nil
				again = nil
			}
			if err2 := e.Flush(); err2 != again {
				return fmt.Sprintf("second Flush returns %v, want %v (the first returned %v)", err2, again, err)
			}
			if w.failed {
				continue
			}
			put(e)
			if err2 := e.Flush(); !w.failed && err2 != again || w.failed && err2 != zerr {
				return fmt.Sprintf("third Flush, after more has been put, returns %v", err2)
			}
		}
	}
	return ""
}

func TestVerifC09(t *testing.T) {
	zprims(t, "C09")
	zeach(t, func(t *testing.T, s *zschema, r *rand.Rand, T string, version int16) {
		m := ztypes[T]()
		zfill(r, reflect.ValueOf(m).Elem(), 1)
		if d := zsticky(func(e *message.Encoder) { m.Encode(e, version) }); d != "" {
			zfail(t, "%s version %d: %s; value %s", T, version, d, zshow(m))
		}
	})
}

func TestVerifC04(t *testing.T) { zprims(t, "C04") }
func TestVerifC05(t *testing.T) { zprims(t, "C05") }
func TestVerifC06(t *testing.T) { zprims(t, "C06") }

// ---- primitives ----------------------------------------------------------

type zprim struct {
	name string
	gen  func(r *rand.Rand) interface{}
	put  func(e *message.Encoder, v interface{})
	enc  func(v interface{}) []byte
	get  func(d *message.Decoder) (interface{}, error)
	size func(v interface{}) int32
	same func(a, b interface{}) bool
}

func zslice(r *rand.Rand, n func() int) int {
	switch r.Intn(8) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return 40 + r.Intn(200)
	default:
		return r.Intn(5)
	}
}

func zlongstr(r *rand.Rand) string {
	s := zstr(r)
	if r.Intn(40) == 0 {
		s = strings.Repeat("z", 70000+r.Intn(10))
	}
	return s
}

func zfixed(n int) func(v interface{}) []byte {
	return func(v interface{}) []byte { return zbe(n, reflect.ValueOf(v).Int()) }
}

func zconst(n int32) func(interface{}) int32 { return func(interface{}) int32 { return n } }

func zprimList() []zprim {
	bl := func(kind string) func(v interface{}) []byte {
		return func(v interface{}) []byte { return zencPrim(kind, reflect.ValueOf(v)) }
	}
	eqb := func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) }
	return []zprim{
		{"Int8", func(r *rand.Rand) interface{} { return int8(zint(r, 8)) }, func(e *message.Encoder, v interface{}) { e.PutInt8(v.(int8)) }, zfixed(1),
			func(d *message.Decoder) (interface{}, error) { return d.Int8() }, zconst(sizeof.Int8), nil},
		{"Int16", func(r *rand.Rand) interface{} { return int16(zint(r, 16)) }, func(e *message.Encoder, v interface{}) { e.PutInt16(v.(int16)) }, zfixed(2),
			func(d *message.Decoder) (interface{}, error) { return d.Int16() }, zconst(sizeof.Int16), nil},
		{"Int32", func(r *rand.Rand) interface{} { return int32(zint(r, 32)) }, func(e *message.Encoder, v interface{}) { e.PutInt32(v.(int32)) }, zfixed(4),
			func(d *message.Decoder) (interface{}, error) { return d.Int32() }, zconst(sizeof.Int32), nil},
		{"Int64", func(r *rand.Rand) interface{} { return zint(r, 64) }, func(e *message.Encoder, v interface{}) { e.PutInt64(v.(int64)) }, zfixed(8),
			func(d *message.Decoder) (interface{}, error) { return d.Int64() }, zconst(sizeof.Int64), nil},
		{"Bool", func(r *rand.Rand) interface{} { return r.Intn(2) == 0 }, func(e *message.Encoder, v interface{}) { e.PutBool(v.(bool)) }, bl("bool"),
			func(d *message.Decoder) (interface{}, error) { return d.Bool() }, zconst(sizeof.Bool), nil},
		{"ArrayLength", func(r *rand.Rand) interface{} { return []int{-1, 0}[r.Intn(2)] }, func(e *message.Encoder, v interface{}) { e.PutArrayLength(v.(int)) }, zfixed(4),
			func(d *message.Decoder) (interface{}, error) { return d.ArrayLength() }, zconst(sizeof.ArrayLength), nil},
		{"String", func(r *rand.Rand) interface{} { return zstr(r) }, func(e *message.Encoder, v interface{}) { e.PutString(v.(string)) }, bl("str"),
			func(d *message.Decoder) (interface{}, error) { return d.String() }, func(v interface{}) int32 { return sizeof.String(v.(string)) }, nil},
		{"NullableString", func(r *rand.Rand) interface{} {
			if r.Intn(3) == 0 {
				return (*string)(nil)
			}
			s := zstr(r)
			return &s
		}, func(e *message.Encoder, v interface{}) { e.PutNullableString(v.(*string)) }, func(v interface{}) []byte {
			if p := v.(*string); p != nil {
				return zencPrim("str", reflect.ValueOf(*p))
			}
			return []byte{255, 255}
		}, func(d *message.Decoder) (interface{}, error) { return d.NullableString() }, nil, nil},
		{"Bytes", func(r *rand.Rand) interface{} {
			if r.Intn(6) == 0 {
				return []byte(nil)
			}
			return []byte(zlongstr(r))
		}, func(e *message.Encoder, v interface{}) { e.PutBytes(v.([]byte)) }, bl("bytes"),
			func(d *message.Decoder) (interface{}, error) { return d.Bytes() }, func(v interface{}) int32 { return sizeof.Bytes(v.([]byte)) }, eqb},
		{"Int32Array", func(r *rand.Rand) interface{} {
			n := zslice(r, nil)
			if n < 0 {
				return []int32(nil)
			}
			a := make([]int32, n)
			for i := range a {
				a[i] = int32(zint(r, 32))
			}
			return a
		}, func(e *message.Encoder, v interface{}) { e.PutInt32Array(v.([]int32)) }, bl("i32arr"),
			func(d *message.Decoder) (interface{}, error) { return d.Int32Array() }, func(v interface{}) int32 { return sizeof.Int32Array(v.([]int32)) }, nil},
		{"Int64Array", func(r *rand.Rand) interface{} {
			n := zslice(r, nil)
			if n < 0 {
				return []int64(nil)
			}
			a := make([]int64, n)
			for i := range a {
				a[i] = zint(r, 64)
			}
			return a
		}, func(e *message.Encoder, v interface{}) { e.PutInt64Array(v.([]int64)) }, bl("i64arr"),
			func(d *message.Decoder) (interface{}, error) { return d.Int64Array() }, func(v interface{}) int32 { return sizeof.Int64Array(v.([]int64)) }, nil},
		{"StringArray", func(r *rand.Rand) interface{} {
			n := zslice(r, nil)
			if n < 0 {
				return []string(nil)
			}
			a := make([]string, n)
			for i := range a {
				a[i] = zstr(r)
			}
			return a
		}, func(e *message.Encoder, v interface{}) { e.PutStringArray(v.([]string)) }, bl("strarr"),
			func(d *message.Decoder) (interface{}, error) { return d.StringArray() }, func(v interface{}) int32 { return sizeof.StringArray(v.([]string)) }, nil},
		{"VarInt", func(r *rand.Rand) interface{} { return zint(r, 64) }, func(e *message.Encoder, v interface{}) { e.PutVarInt(v.(int64)) },
			func(v interface{}) []byte { return zvarint(v.(int64)) },
			func(d *message.Decoder) (interface{}, error) { return d.VarInt() }, func(v interface{}) int32 { return sizeof.VarInt(v.(int64)) }, nil},
		{"VarString", func(r *rand.Rand) interface{} { return zlongstr(r) }, func(e *message.Encoder, v interface{}) { e.PutVarString(v.(string)) },
			func(v interface{}) []byte { return append(zvarint(int64(len(v.(string)))), v.(string)...) },
			func(d *message.Decoder) (interface{}, error) { return d.VarString() }, func(v interface{}) int32 { return sizeof.VarString(v.(string)) }, nil},
		{"VarBytes", func(r *rand.Rand) interface{} { return []byte(zlongstr(r)) }, func(e *message.Encoder, v interface{}) { e.PutVarBytes(v.([]byte)) },
			func(v interface{}) []byte { return append(zvarint(int64(len(v.([]byte)))), v.([]byte)...) },
			func(d *message.Decoder) (interface{}, error) { return d.VarBytes() }, func(v interface{}) int32 { return sizeof.VarBytes(v.([]byte)) }, eqb},
		{"RecordHeader", func(r *rand.Rand) interface{} { return [2]string{zstr(r), zlongstr(r)} }, func(e *message.Encoder, v interface{}) {
			h := v.([2]string)
			e.PutRecordHeader(h[0], h[1])
		}, func(v interface{}) []byte {
			h := v.([2]string)
			b := append(zvarint(int64(len(h[0]))), h[0]...)
			return append(append(b, zvarint(int64(len(h[1])))...), h[1]...)
		}, func(d *message.Decoder) (interface{}, error) {
			a, err := d.VarString()
			if err != nil {
				return nil, err
			}
			b, err := d.VarString()
			return [2]string{a, b}, err
		}, nil, nil},
	}
}

func zprims(t *testing.T, prop string) {
	r := rand.New(rand.NewSource(zseed + 77))
	stop := time.Now().Add(zbudget)
	ps := zprimList()
	for round := 0; round < 30000 && time.Now().Before(stop); round++ {
		for _, p := range ps {
			atomic.AddInt64(&zcases, 1)
			zprim1(t, prop, p, r)
		}
		if prop == "C07" && round%10 == 0 {
			zsequence(t, ps, r)
		}
	}
}

func zpv(v interface{}) string {
	if s, ok := v.(*string); ok && s != nil {
		return fmt.Sprintf("&%q", *s)
	}
	return fmt.Sprintf("%#v", v)
}

func zprim1(t *testing.T, prop string, p zprim, r *rand.Rand) {
	v := p.gen(r)
	znow.Store(func() string { return fmt.Sprintf("%s of %s", p.name, zpv(v)) })
	defer func() {
		if x := recover(); x != nil {
			zfail(t, "%s of %s panics: %v", p.name, zpv(v), x)
		}
	}()
	want := p.enc(v)
	pre := make([]byte, r.Intn(4))
	put := func() []byte {
		var buf bytes.Buffer
		e := message.NewEncoder(&buf)
		for range pre {
			e.PutInt8(7)
		}
		p.put(e, v)
		if err := e.Flush(); err != nil {
			zfail(t, "Put%s(%s): %v", p.name, zpv(v), err)
		}
		return buf.Bytes()[len(pre):]
	}
	switch prop {
	case "C04":
		if got := put(); !bytes.Equal(got, want) {
			zfail(t, "Put%s(%s) writes %s, the protocol prescribes %s", p.name, zpv(v), hex.EncodeToString(got), hex.EncodeToString(want))
		}
	case "C06":
		if p.size != nil {
			if got := put(); int(p.size(v)) != len(got) {
				zfail(t, "sizeof.%s(%s) = %d, the encoder writes %d bytes", p.name, zpv(v), p.size(v), len(got))
			}
		}
	case "C05":
		b := put()
		tail := make([]byte, r.Intn(4))
		r.Read(tail)
		raw := append(append(append([]byte{}, pre...), b...), tail...)
		d := message.NewDecoder(raw, len(raw))
		d.Discard(len(pre))
		got, err := p.get(d)
		same := reflect.DeepEqual(got, v)
		if p.same != nil && err == nil {
			same = p.same(got, v)
		}
		if err != nil || !same {
			zfail(t, "%s: wrote %s as %s, reading it back gives %s, %v", p.name, zpv(v), hex.EncodeToString(b), zpv(got), err)
			return
		}
		if n := zrest(d, len(raw)); n != len(tail) {
			zfail(t, "%s: after reading back %s, %d of %d following bytes are left", p.name, zpv(v), n, len(tail))
		}
	case "C08":
		if len(want) > 3000 {
			return
		}
		for cut := 0; cut < len(want); cut++ {
			raw := append(append([]byte{}, pre...), want...)
			d := message.NewDecoder(raw, len(pre)+cut)
			d.Discard(len(pre))
			if got, err := p.get(d); err == nil || !message.IsInsufficientDataError(err) {
				zfail(t, "%s: encoding %s cut to %d bytes reads as %s, %v", p.name, hex.EncodeToString(want), cut, zpv(got), err)
				return
			}
		}
	case "C09":
		if len(want) > 3000 || r.Intn(10) != 0 {
			return
		}
		if d := zsticky(func(e *message.Encoder) { p.put(e, v) }); d != "" {
			zfail(t, "Put%s(%s): %s", p.name, zpv(v), d)
		}
	case "C07":
		b := append(append([]byte{}, want...), 1, 2, 3)
		switch r.Intn(6) {
		case 0:
			r.Read(b)
		case 1:
			b = b[:r.Intn(len(b)+1)]
		case 2:
			for i := range b {
				b[i] |= 0x80
			}
		case 3:
			if len(b) >= 4 {
				copy(b, []byte{0, byte(r.Intn(2)) * 0x3f, 0xff, 0xff})
			}
		case 4: // extreme lengths
			k := int64(r.Intn(40))
			var v int64
			switch r.Intn(6) {
			case 0:
				v = math.MaxInt64 - k
			case 1:
				v = math.MinInt64 + k
			case 2:
				v = math.MaxInt64/2 - k
			case 3:
				v = 1<<31 - k
			case 4:
				v = 1<<32 - k
			case 5:
				v = -k
			}
			b = binary.AppendVarint(make([]byte, r.Intn(4)), v)
			b = append(b, make([]byte, 30)...)
		case 5:
			c := [][]byte{{0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0x3f, 0xff, 0xff, 0xff}, {0x40, 0, 0, 0}, {0x20, 0, 0, 0}, {0x1f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xfe}}[r.Intn(7)]
			if r.Intn(2) == 0 {
				c[3] -= byte(r.Intn(16))
			}
			b = append(make([]byte, r.Intn(4)), c...)
			b = append(b, make([]byte, 30)...)
		}
		z7(t, p, b, r)
	}
}

func z7(t *testing.T, p zprim, b []byte, r *rand.Rand) {
	length := len(b)
	if r.Intn(2) == 0 {
		length = r.Intn(len(b) + 1)
	}
	pre := 0
	if length > 0 {
		pre = r.Intn(length + 1)
		if pre > 3 {
			pre = 0
		}
	}
	run := func(raw []byte) (v interface{}, rest int, e error, pan string) {
		defer func() {
			if x := recover(); x != nil {
				pan = fmt.Sprint(x)
			}
		}()
		d := message.NewDecoder(raw, length)
		d.Discard(pre)
		v, e = p.get(d)
		return v, zrest(d, length), e, ""
	}
	var ms0, ms1 runtime.MemStats
	mem := r.Intn(20) == 0
	if mem {
		runtime.ReadMemStats(&ms0)
	}
	v, rest, err, pan := run(b)
	if mem {
		runtime.ReadMemStats(&ms1)
		if d := ms1.TotalAlloc - ms0.TotalAlloc; d > 1<<16+uint64(len(b))*256 {
			zfail(t, "%s on %s (declared length %d) allocates %d bytes", p.name, hex.EncodeToString(b), length, d)
		}
	}
	if pan != "" {
		zfail(t, "%s on %s (declared length %d, position %d) panics: %s", p.name, hex.EncodeToString(b), length, pre, pan)
		return
	}
	if rest > length-pre {
		zfail(t, "%s on %s (declared length %d) moves the position from %d to %d", p.name, hex.EncodeToString(b), length, pre, length-rest)
	}
	b2 := append(append([]byte{}, b[:length]...), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	r.Read(b2[length:])
	v2, rest2, err2, pan2 := run(b2)
	if pan2 != "" || rest2 != rest || (err == nil) != (err2 == nil) || err == nil && !reflect.DeepEqual(v, v2) {
		zfail(t, "%s on %s (declared length %d) depends on bytes beyond the declared length", p.name, hex.EncodeToString(b), length)
	}
	if bs, ok := v.([]byte); ok && err == nil && cap(bs) != len(bs) {
		zfail(t, "%s on %s returns a slice with spare capacity", p.name, hex.EncodeToString(b))
	}
}

// zsequence: a random sequence of reads on random bytes.
func zsequence(t *testing.T, ps []zprim, r *rand.Rand) {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	for i := range b {
		if r.Intn(3) == 0 {
			b[i] = []byte{0, 0xff, 0x80, 0x7f}[r.Intn(4)]
		}
	}
	var names []string
	defer func() {
		if x := recover(); x != nil {
			zfail(t, "reads %v on %s panic: %v", names, hex.EncodeToString(b), x)
		}
	}()
	znow.Store(func() string { return fmt.Sprintf("reads %v on %s", names, hex.EncodeToString(b)) })
	d := message.NewDecoder(b, len(b))
	for k := 0; k < 6; k++ {
		if r.Intn(4) == 0 {
			n := r.Intn(8) - 3
			names = append(names, fmt.Sprintf("Discard(%d)", n))
			d.Discard(n)
			continue
		}
		p := ps[r.Intn(len(ps))]
		names = append(names, p.name)
		p.get(d)
	}
	if n := zrest(d, len(b)); n > len(b) {
		zfail(t, "reads %v on %s leave %d bytes", names, hex.EncodeToString(b), n)
	}
}
