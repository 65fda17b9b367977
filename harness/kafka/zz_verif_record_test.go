package kafka_test

// Record batches: Encode and Size against a reader for the record batch
// format, magic 2, written from the protocol documentation.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	kafka "github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// zheader enumerates pairs in an order that changes with every call.
type zheader struct {
	pairs [][2]string
	calls *int
}

func (h zheader) Get(key string) (string, bool) {
	for _, p := range h.pairs {
		if p[0] == key {
			return p[1], true
		}
	}
	return "", false
}
func (h zheader) Range(fn func(key, value string)) {
	*h.calls++
	for i := range h.pairs {
		p := h.pairs[(i+*h.calls)%len(h.pairs)]
		fn(p[0], p[1])
	}
}

func zrstr(r *rand.Rand) string {
	n := []int{0, 1, 3, 62, 63, 64, 65, 127, 128, 200, 8191, 8192}[r.Intn(12)]
	if n > 1000 && r.Intn(8) != 0 {
		n = r.Intn(20)
	}
	b := make([]byte, n)
	r.Read(b)
	return string(b)
}
func zi64(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(300)) - 150
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, 0, -1, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32}[r.Intn(8)]
	case 2:
		return int64(r.Uint64())
	}
	s := uint(r.Intn(63))
	return int64(1)<<s + int64(r.Intn(3)) - 1
}
func ztime(r *rand.Rand) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0)
	case 2:
		return time.Unix(-int64(r.Intn(1e6)), int64(r.Intn(1e9)))
	case 3:
		return time.Unix(int64(r.Intn(1<<31)), int64(r.Intn(1e9))).In(time.FixedZone("x", 3600*r.Intn(12)))
	case 4:
		return time.Date(1+r.Intn(9998), 3, 1, 2, 3, 4, r.Intn(1e9), time.UTC)
	}
	return time.Unix(1500000000+int64(r.Intn(1e8)), int64(r.Intn(1000))*1e6+int64(r.Intn(1e6)))
}

func zpairs(h kafka.Header) (ps []string) {
	if h != nil {
		h.Range(func(k, v string) { ps = append(ps, fmt.Sprintf("%q=%q", k, v)) })
	}
	sort.Strings(ps)
	return ps
}

type zrd struct {
	b   []byte
	err string
}

func (r *zrd) take(n int64) []byte {
	if n < 0 || n > int64(len(r.b)) {
		if r.err == "" {
			r.err = fmt.Sprintf("%d bytes wanted, %d left", n, len(r.b))
		}
		return make([]byte, 8)
	}
	b := r.b[:n]
	r.b = r.b[n:]
	return b
}
func (r *zrd) fixed(n int) int64 {
	b := r.take(int64(n))
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(b[i])
	}
	return int64(v<<(64-8*uint(n))) >> (64 - 8*uint(n))
}
func (r *zrd) varint() int64 {
	v, n := binary.Varint(r.b)
	if n <= 0 {
		if r.err == "" {
			r.err = "bad varint"
		}
		return 0
	}
	r.b = r.b[n:]
	return v
}

func zbatch(r *rand.Rand) kafka.RecordBatch {
	b := kafka.RecordBatch{
		BaseOffset: zi64(r), BatchLength: int32(r.Uint32()), PartitionLeaderEpoch: int32(r.Uint32()), Magic: int8(r.Intn(256)),
		CRC: int32(r.Uint32()), Attributes: int16(r.Uint32()), LastOffsetDelta: int32(r.Uint32()), FirstTimestamp: zi64(r),
		MaxTimestamp: zi64(r), ProducerId: zi64(r), ProducerEpoch: int16(r.Uint32()), BaseSequence: int32(r.Uint32()),
	}
	n := r.Intn(4)
	if r.Intn(20) == 0 {
		n = 60 + r.Intn(10)
	}
	for i := 0; i < n; i++ {
		m := kafka.Message{Topic: "t", Partition: int32(i), Offset: zi64(r), Timestamp: ztime(r)}
		if r.Intn(4) > 0 {
			m.Key = []byte(zrstr(r))
		}
		if r.Intn(4) > 0 {
			m.Value = []byte(zrstr(r))
		}
		switch r.Intn(4) {
		case 0:
			h := kafka.MapHeader{}
			for j := r.Intn(4); j > 0; j-- {
				h[zrstr(r)] = zrstr(r)
			}
			if r.Intn(20) == 0 {
				for j := 0; j < 70; j++ {
					h[fmt.Sprint(j)] = ""
				}
			}
			m.Header = h
		case 1:
			h := zheader{calls: new(int)}
			for j := r.Intn(4); j > 0; j-- {
				h.pairs = append(h.pairs, [2]string{zrstr(r), zrstr(r)})
			}
			m.Header = h
		case 2:
			var h kafka.MapHeader
			m.Header = h
		}
		b.Records = append(b.Records, m)
	}
	return b
}

func TestVerifC19(t *testing.T) {
	zloop(t, 4, 4000, func(r *rand.Rand, seed int64) {
		b := zbatch(r)
		version := int16(r.Intn(8) - 1)
		var w bytes.Buffer
		e := message.NewEncoder(&w)
		b.Encode(e, version)
		if err := e.Flush(); err != nil && !strings.Contains(err.Error(), "flush") {
			zbad(t, "RecordBatch.Encode of %s: error %v", zshow(b), err)
			return
		}
		bad := func(format string, args ...interface{}) {
			zbad(t, "RecordBatch %s, version %d: %s (encoded: % x)", zshow(b), version, fmt.Sprintf(format, args...), w.Bytes())
		}
		if int(b.Size(version)) != w.Len() {
			bad("Size is %d, Encode wrote %d bytes", b.Size(version), w.Len())
			return
		}
		rd := &zrd{b: w.Bytes()}
		for _, f := range []struct {
			name string
			n    int
			want int64
		}{{"base offset", 8, b.BaseOffset}, {"batch length", 4, int64(b.BatchLength)}, {"partition leader epoch", 4, int64(b.PartitionLeaderEpoch)},
			{"magic", 1, 2}, {"CRC", 4, int64(b.CRC)}, {"attributes", 2, int64(b.Attributes)}, {"last offset delta", 4, int64(b.LastOffsetDelta)},
			{"first timestamp", 8, b.FirstTimestamp}, {"max timestamp", 8, b.MaxTimestamp}, {"producer id", 8, b.ProducerId},
			{"producer epoch", 2, int64(b.ProducerEpoch)}, {"base sequence", 4, int64(b.BaseSequence)}, {"record count", 4, int64(len(b.Records))}} {
			if got := rd.fixed(f.n); got != f.want || rd.err != "" {
				bad("%s is %d, want %d %s", f.name, got, f.want, rd.err)
				return
			}
		}
		for i, m := range b.Records {
			n := rd.varint()
			rec := &zrd{b: rd.take(n)}
			if rd.err != "" {
				bad("record %d: length %d: %s", i, n, rd.err)
				return
			}
			ps := zpairs(m.Header)
			at := rec.fixed(1)
			ts := rec.varint()
			od := rec.varint()
			key := append([]byte{}, rec.take(rec.varint())...)
			val := append([]byte{}, rec.take(rec.varint())...)
			hn := rec.varint()
			var got []string
			for j := int64(0); j < hn && rec.err == ""; j++ {
				k := string(rec.take(rec.varint()))
				v := string(rec.take(rec.varint()))
				got = append(got, fmt.Sprintf("%q=%q", k, v))
			}
			sort.Strings(got)
			ms := m.Timestamp.Unix()*1000 + int64(m.Timestamp.Nanosecond()/1e6)
			switch {
			case rec.err != "" || len(rec.b) != 0:
				bad("record %d does not fill its length %d: %s, %d bytes left", i, n, rec.err, len(rec.b))
			case at != 0:
				bad("record %d: attributes %d", i, at)
			case ts != ms-b.FirstTimestamp:
				bad("record %d: timestamp delta %d, want %d", i, ts, ms-b.FirstTimestamp)
			case od != m.Offset-b.BaseOffset:
				bad("record %d: offset delta %d, want %d", i, od, m.Offset-b.BaseOffset)
			case !bytes.Equal(key, m.Key) || !bytes.Equal(val, m.Value):
				bad("record %d: key % x value % x", i, key, val)
			case hn != int64(len(ps)) || strings.Join(got, ",") != strings.Join(ps, ","):
				bad("record %d: headers %v, want %v", i, got, ps)
			default:
				continue
			}
			return
		}
		if len(rd.b) != 0 {
			bad("%d bytes behind the last record", len(rd.b))
		}
	})
}

func zshow(b kafka.RecordBatch) string {
	s := fmt.Sprintf("%+v", b)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}
