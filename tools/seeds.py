(lambda FAKE: [
dict(id="s01",prop="C01",pkg="message",
 edits=[("message/messages.gen.go","""	if version >= 4 {
		sz += sizeof.ArrayLength // Aborted
		for i := len(t.Aborted) - 1""","""	if version >= 4 && len(t.Aborted) > 0 {
		sz += sizeof.ArrayLength // Aborted
		for i := len(t.Aborted) - 1""")],
 needs="fetch response partition at version 4 or later without aborted transactions",
 breaks="reported size is 4 bytes short of the encoding",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	v := FetchResponse{Topics: []FetchableTopicResponse1{{Name: "a", Partitions: []FetchablePartitionResponse1{{Records: []byte{1}}}}}}
	for ver := int16(0); ver <= 11; ver++ {
		var b bytes.Buffer
		v.Encode(NewEncoder(&b), ver)
		if int(v.Size(ver)) != b.Len() { t.Fatal(ver, v.Size(ver), b.Len()) }
	}
}"""),
dict(id="s02",prop="C02",pkg="message",
 edits=[("message/messages.gen.go","""	if version >= 1 {
		t.Timestamp, err = d.Int64()
		if err != nil {
			return err
		}
	}
	if version >= 1 {
		t.Offset, err = d.Int64()
		if err != nil {
			return err
		}
	}
	if version >= 4 {
		t.LeaderEpoch""","""	if version >= 1 {
		t.Offset, err = d.Int64()
		if err != nil {
			return err
		}
	}
	if version >= 1 {
		t.Timestamp, err = d.Int64()
		if err != nil {
			return err
		}
	}
	if version >= 4 {
		t.LeaderEpoch""")],
 needs="list offset response at version 1 or later with a timestamp different from the offset",
 breaks="timestamp and offset are swapped by the decoder",
 test="""package message
import ("bytes";"reflect";"testing")
func TestZZDemo(t *testing.T) {
	v := ListOffsetPartitionResponse2{PartitionIndex: 1, Timestamp: 5, Offset: 9}
	var b bytes.Buffer
	v.Encode(NewEncoder(&b), 2)
	var w ListOffsetPartitionResponse2
	if err := w.Decode(NewDecoder(b.Bytes(), b.Len()), 2); err != nil || !reflect.DeepEqual(v, w) { t.Fatal(err, v, w) }
}"""),
dict(id="s03",prop="C03",pkg="message",
 edits=[("message/messages.gen.go","""	if version >= 7 {
		sz += sizeof.String(t.GroupInstanceId) // GroupInstanceId
	}
	if version >= 2 && version <= 4 {""","""	if version >= 6 {
		sz += sizeof.String(t.GroupInstanceId) // GroupInstanceId
	}
	if version >= 2 && version <= 4 {"""),
 ("message/messages.gen.go","""	if version >= 7 {
		e.PutString(t.GroupInstanceId) // GroupInstanceId
	}
	if version >= 2 && version <= 4 {""","""	if version >= 6 {
		e.PutString(t.GroupInstanceId) // GroupInstanceId
	}
	if version >= 2 && version <= 4 {"""),
 ("message/messages.gen.go","""	if version >= 7 {
		t.GroupInstanceId, err = d.String()
		if err != nil {
			return err
		}
	}
	if version >= 2 && version <= 4 {""","""	if version >= 6 {
		t.GroupInstanceId, err = d.String()
		if err != nil {
			return err
		}
	}
	if version >= 2 && version <= 4 {""")],
 needs="offset commit request at exactly version 6; size, encode and decode agree with each other",
 breaks="a field of version 7 is sent at version 6",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	v := OffsetCommitRequest{GroupId: "g", MemberId: "m"}
	var b bytes.Buffer
	v.Encode(NewEncoder(&b), 6)
	want := []byte{0, 1, 'g', 0, 0, 0, 0, 0, 1, 'm', 0, 0, 0, 0}
	if !bytes.Equal(b.Bytes(), want) { t.Fatal(b.Bytes(), want) }
}"""),
dict(id="s04",prop="C04",pkg="message",
 edits=[("message/encoder.go","""	length := binary.PutVarint(e.buf[:], i)
	_, e.err = e.target.Write(e.buf[0:length])""","""	length := 1
	if i >= 0 && i < 0x80 { // single byte
		e.buf[0] = byte(i << 1)
	} else {
		length = binary.PutVarint(e.buf[:], i)
	}
	_, e.err = e.target.Write(e.buf[0:length])""")],
 needs="a variable-length integer in 64..127",
 breaks="the value is cut to one byte",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	NewEncoder(&b).PutVarInt(70)
	if !bytes.Equal(b.Bytes(), []byte{0x8c, 0x01}) { t.Fatal(b.Bytes()) }
}"""),
dict(id="s05",prop="C05",pkg="message",
 edits=[("message/decoder.go","""	if n == -1 {
		return "", nil
	}

	length := int(n)
	if err := d.remains(length); err != nil {
		return "", err
	}

	s := string(d.raw[d.offset : d.offset+length])
	d.offset += length
	return s, nil""","""	if n == -1 {
		return "", nil
	}

	length := int(n)
	if err := d.remains(length); err != nil {
		return "", err
	}

	s := string(bytes.TrimRight(d.raw[d.offset:d.offset+length], "\\x00"))
	d.offset += length
	return s, nil"""),
  ("message/decoder.go","""import (
""","""import (
	"bytes"
""")],
 needs="a string that ends in a zero byte",
 breaks="trailing zero bytes of strings are lost",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	for _, x := range []string{"", "a", "a\\x00", "\\x00\\x00"} {
		var b bytes.Buffer
		NewEncoder(&b).PutString(x)
		v, err := NewDecoder(b.Bytes(), b.Len()).String()
		if err != nil || v != x { t.Fatal(v, err) }
	}
}"""),
dict(id="s06",prop="C06",pkg="message/sizeof",
 edits=[("message/sizeof/sizeof.go","""	var buf [16]byte
	length := binary.PutVarint(buf[:], i)
	return int32(length)""","""	ux := uint64(i)<<1 ^ uint64(i>>63)
	return int32(bits.Len64(ux)/7 + 1)"""),
  ("message/sizeof/sizeof.go",'import "encoding/binary"','import "math/bits"')],
 needs="a value whose zig-zag form has a bit length that is a multiple of 7",
 breaks="the size of such integers is one byte too large",
 test="""package sizeof
import ("encoding/binary";"testing")
func TestZZDemo(t *testing.T) {
	for _, x := range []int64{0, 1, -1, 40, -60, 63, -64, 64, 5000, 8191, -8192, 1 << 40} {
		var b [16]byte
		if n := VarInt(x); int(n) != binary.PutVarint(b[:], x) { t.Fatal(x, n) }
	}
}"""),
dict(id="s07",prop="C07",pkg="message",
 edits=[("message/decoder.go","	if remain := d.length - d.offset; remain < n {","	if d.offset+n > d.length {")],
 needs="a variable-length byte array whose length is near the largest int",
 breaks="the bounds check overflows and the decoder panics",
 test="""package message
import ("bytes";"math";"testing")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	NewEncoder(&b).PutVarInt(math.MaxInt64 - 2)
	v, err := NewDecoder(b.Bytes(), b.Len()).VarBytes()
	if err == nil { t.Fatal(v) }
}"""),
dict(id="s08",prop="C08",pkg="message",
 edits=[("message/messages.gen.go","""		t.Partitions = make([]FetchablePartitionResponse1, n)
		for i := 0; i < n; i++ {
			var item FetchablePartitionResponse1
			if err := (&item).Decode(d, version); err != nil {
				return err
			}""","""		t.Partitions = make([]FetchablePartitionResponse1, n)
		for i := 0; i < n; i++ {
			var item FetchablePartitionResponse1
			if err := (&item).Decode(d, version); err != nil {
				break
			}""")],
 needs="a fetch response cut inside the partitions of its last topic",
 breaks="truncation is reported as success",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	v := FetchResponse{Topics: []FetchableTopicResponse1{{Name: "a", Partitions: []FetchablePartitionResponse1{{Records: []byte{1, 2, 3}}}}}}
	var b bytes.Buffer
	v.Encode(NewEncoder(&b), 4)
	for n := 0; n < b.Len(); n++ {
		var w FetchResponse
		if err := w.Decode(NewDecoder(b.Bytes(), n), 4); !IsInsufficientDataError(err) { t.Fatal(n, err) }
	}
}"""),
dict(id="s09",prop="C09",pkg="message",
 edits=[("message/encoder.go","""	if e.err != nil {
		return e.err
	}

	if f, ok""","""	if err := e.err; err != nil {
		e.err = nil
		return err
	}

	if f, ok""")],
 needs="a failed write, a flush, and then further values put on the same encoder",
 breaks="the encoder resumes writing to the stream after a failed write",
 test="""package message
import ("errors";"testing")
type zzw struct{ n int }
func (w *zzw) Write(p []byte) (int, error) { w.n++; if w.n == 2 { return 0, errors.New("boom") }; return len(p), nil }
func TestZZDemo(t *testing.T) {
	w := &zzw{}
	e := NewEncoder(w)
	e.PutInt32(1); e.PutInt32(2); e.PutInt32(3)
	if e.Flush() == nil { t.Fatal("no error") }
	e.PutInt32(4)
	if w.n != 2 { t.Fatal("wrote after failure") }
	if e.Flush() == nil { t.Fatal("error lost") }
}"""),
dict(id="s10",prop="C10",pkg=".",
 edits=[("gen.broker.go","				RequestApiVersion: b.apiVersion.CreatePartitions,","				RequestApiVersion: b.apiVersion.CreateTopics,")],
 needs="a broker for which different versions are negotiated for CreatePartitions and CreateTopics",
 breaks="the header announces another version than the body is encoded at",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var got int16 = -1
	addr := zzfake(t, func(key int16) (int16, int16) { if key == message.KeyCreateTopics { return 0, 4 }; return 0, 1 }, func(key, version int16, body []byte) []byte {
		if key == message.KeyCreatePartitions { got = version }
		var b bytes.Buffer
		message.CreatePartitionsResponse{}.Encode(message.NewEncoder(&b), 1)
		return b.Bytes()
	})
	b, err := NewBroker(addr)
	if err != nil { t.Fatal(err) }
	defer b.Close()
	if _, err := b.CreatePartitions(message.CreatePartitionsRequest{}); err != nil { t.Fatal(err) }
	if got != 1 { t.Fatal("version", got) }
}"""),
dict(id="s11",prop="C11",pkg=".",
 edits=[("gen.broker.go","return (&resp).Decode(d, b.apiVersion.ListOffset)","return (&resp).Decode(d, b.apiVersion.Fetch)")],
 needs="a broker whose ListOffset and Fetch versions lie on different sides of a layout change",
 breaks="the response is decoded at the version of another API",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	want := message.ListOffsetResponse{Topics: []message.ListOffsetTopicResponse2{{Name: "x", Partitions: []message.ListOffsetPartitionResponse2{{PartitionIndex: 3, Timestamp: 7, Offset: 8}}}}}
	addr := zzfake(t, func(key int16) (int16, int16) { if key == message.KeyFetch { return 0, 11 }; return 0, 1 }, func(key, version int16, body []byte) []byte {
		var b bytes.Buffer
		want.Encode(message.NewEncoder(&b), version)
		return b.Bytes()
	})
	b, err := NewBroker(addr)
	if err != nil { t.Fatal(err) }
	defer b.Close()
	got, err := b.ListOffset(message.ListOffsetRequest{})
	if err != nil || len(got.Topics) != 1 || got.Topics[0].Partitions[0].Offset != 8 { t.Fatal(got, err) }
}"""),
dict(id="s12",prop="C12",pkg=".",
 edits=[("gen.broker.go","av.OffsetFetch, err = matchVersion(apiKey, 0, 6)","av.OffsetFetch, err = matchVersion(apiKey, 0, 5)")],
 needs="a broker that supports OffsetFetch version 6",
 breaks="a lower version than the highest common one is chosen",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var got int16 = -1
	addr := zzfake(t, func(key int16) (int16, int16) { return 0, 50 }, func(key, version int16, body []byte) []byte {
		got = version
		var b bytes.Buffer
		message.OffsetFetchResponse{}.Encode(message.NewEncoder(&b), version)
		return b.Bytes()
	})
	b, err := NewBroker(addr)
	if err != nil { t.Fatal(err) }
	defer b.Close()
	b.OffsetFetch(message.OffsetFetchRequest{})
	if got != 6 { t.Fatal(got) }
}"""),
dict(id="s13",prop="C13",pkg=".",
 edits=[("gen.conn.go","""	c.readLock.Lock()
	c.requests[correlationID] = req
	c.readLock.Unlock()

	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()
""","""	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()

	c.readLock.Lock()
	c.requests[correlationID] = req
	c.readLock.Unlock()
""")],
 needs="the response arrives before the call has registered",
 breaks="the response is dropped and the call waits for ever",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	addr := zzfake(t, func(key int16) (int16, int16) { return 0, 0 }, func(key, version int16, body []byte) []byte { return []byte{0, 0} })
	c, err := Connect(addr)
	if err != nil { t.Fatal(err) }
	done := make(chan error, 1)
	go func() {
		done <- c.Do(func(e *message.Encoder, id int32) {
			h := message.RequestHeader{RequestApiKey: 3, CorrelationId: id}
			e.PutInt32(h.Size(2))
			h.Encode(e, 2)
			e.Flush() // a large request reaches the broker before Do flushes, too
			time.Sleep(300 * time.Millisecond)
		}, func(d *message.Decoder) error { return nil })
	}()
	select {
	case err := <-done:
		if err != nil { t.Fatal(err) }
	case <-time.After(10 * time.Second):
		t.Fatal("call never returned")
	}
}"""),
dict(id="s14",prop="C14",pkg=".",race=True,
 edits=[("gen.conn.go","""	err := c.encoder.Flush()
	c.writeLock.Unlock()
""","""	c.writeLock.Unlock()
	err := c.encoder.Flush()
""")],
 needs="concurrent calls, one flushing while another writes its frame",
 breaks="the stream is written by two calls at a time",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	addr := zzfake(t, func(key int16) (int16, int16) { return 0, 0 }, func(key, version int16, body []byte) []byte {
		var b bytes.Buffer
		message.HeartbeatResponse{}.Encode(message.NewEncoder(&b), 0)
		return b.Bytes()
	})
	b, err := NewBroker(addr)
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: strings.Repeat("x", 3000)}); err != nil { t.Error(err); return }
			}
		}()
	}
	wg.Wait()
	b.Close()
}"""),
dict(id="s15",prop="C15",pkg="ring",
 edits=[("ring/buffer.go","""		data[i] = r.data[pos]
		pos = incr(pos, r.size)
	}

	atomic.StoreInt32(&r.start, pos)""","""		if pos < next { // copy a run of bytes at once
			n := copy(data[i:], r.data[pos:next])
			pos += int32(n)
			i += n - 1
			continue
		}

		data[i] = r.data[pos]
		pos = incr(pos, r.size)
	}

	atomic.StoreInt32(&r.start, pos)""")],
 needs="a read into a slice longer than the number of bytes asked for, with more bytes available",
 breaks="bytes beyond the ones asked for are consumed and lost",
 test="""package ring
import "testing"
func TestZZDemo(t *testing.T) {
	r := New(16)
	r.WriteN([]byte{1, 2, 3, 4, 5, 6}, 6)
	p := make([]byte, 8)
	r.ReadN(p, 2)
	q := make([]byte, 4)
	go r.WriteN([]byte{7, 8, 9, 10}, 4)
	r.ReadN(q, 4)
	if q[0] != 3 || q[3] != 6 { t.Fatal(q) }
}"""),
dict(id="s16",prop="C16",pkg="ring",
 edits=[("ring/buffer.go","""	atomic.StoreInt32(&r.start, pos)
	r.writeLock.Release()
	return true""","""	full := incr(next, r.size) == atomic.LoadInt32(&r.start)
	atomic.StoreInt32(&r.start, pos)
	if full { // the writer only waits when the buffer is full
		r.writeLock.Release()
	}
	return true""")],
 needs="the writer fills the buffer and parks between the reader's load of the write position and its release, and the reader reads no more until the write is done",
 breaks="the wake-up of the parked writer is lost",
 test="""package ring
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	big := make([]byte, 4000000)
	for k := 0; k < 40; k++ {
		r := New(4000001)
		r.WriteN(big, 3999000)
		done := make(chan bool, 1)
		go func() { r.WriteN(big, 2000); done <- true }()
		r.ReadN(big, 3900000)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("write never returned although it fits")
		}
	}
}"""),
dict(id="s17",prop="C17",pkg="message",
 edits=[("message/decoder.go","""	v := d.raw[a:b:b] // limit capacity of returned slice
	d.offset += length
	return v, nil
}

// Discard""","""	v := d.raw[a:b]
	d.offset += length
	return v, nil
}

// Discard""")],
 needs="the caller appends to a returned byte field",
 breaks="appending overwrites the data behind the field",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	e := NewEncoder(&b)
	e.PutBytes([]byte{1}); e.PutBytes([]byte{2, 3})
	d := NewDecoder(b.Bytes(), b.Len())
	x, _ := d.Bytes()
	y, _ := d.Bytes()
	_ = append(x, 9, 9, 9, 9, 9, 9)
	if !bytes.Equal(y, []byte{2, 3}) { t.Fatal(y) }
}"""),
dict(id="s18",prop="C18",pkg=".",
 edits=[("gen.conn.go","		reply:  make(chan error, 1),","		reply:  make(chan error),")],
 needs="a call whose response arrives although writing its request fails",
 breaks="the worker waits for ever to hand over a response nobody waits for, and so does Close",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	defer l.Close()
	next := make(chan struct{})
	go func() {
		c, err := l.Accept()
		if err != nil { return }
		p := make([]byte, 8)
		io.ReadFull(c, p)
		c.Write([]byte{0, 0, 0, 4, p[4], p[5], p[6], p[7]})
		<-next
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	}()
	c, err := Connect(l.Addr().String())
	if err != nil { t.Skip(err) }
	decoded := make(chan struct{})
	err = c.Do(func(e *message.Encoder, id int32) {
		e.PutInt32(4)
		e.PutInt32(id)
		e.Flush()
		<-decoded
		time.Sleep(100 * time.Millisecond)
		close(next)
		for i := 0; i < 200; i++ {
			time.Sleep(5 * time.Millisecond)
			e.PutBytes(make([]byte, 100000))
		}
	}, func(d *message.Decoder) error { close(decoded); return nil })
	done := make(chan struct{})
	go func() { c.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Close never returned")
	}
}"""),
dict(id="s19",prop="C19",pkg=".",
 edits=[("gen.record_batch.go","""			sz += sizeof.VarString(key)
			sz += sizeof.VarString(value)""","""			sz += sizeof.VarString(key)
			if value != "" {
				sz += sizeof.VarString(value)
			}""")],
 needs="a record with a header that has an empty value",
 breaks="record length prefix and batch size are one byte short",
 test="""package kafka
import ("bytes";"testing"
 "github.com/savaki/kafka/message")
func TestZZDemo(t *testing.T) {
	r := RecordBatch{Records: []Message{{Key: []byte("k"), Header: MapHeader{"a": ""}}}}
	var b bytes.Buffer
	r.Encode(message.NewEncoder(&b), 2)
	if b.Len() != int(r.Size(2)) { t.Fatal(b.Len(), r.Size(2)) }
}"""),
dict(id="s20",prop="C20",pkg=".",
 edits=[("client.go","""	for _, p := range topic.Partitions {
		if p.PartitionIndex == partition {""","""	if n := int(partition); n >= 0 && n < len(topic.Partitions) {
		return topic.Partitions[n], nil // partitions are numbered from 0
	}
	for _, p := range topic.Partitions {
		if p.PartitionIndex == partition {""")],
 needs="metadata that does not list the partitions in order of their index",
 breaks="the leader of another partition is dialled",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var hit int32
	node := zzfake(t, func(key int16) (int16, int16) { atomic.StoreInt32(&hit, 1); return 0, 0 }, nil)
	wrong := zzfake(t, func(key int16) (int16, int16) { return 0, 0 }, nil)
	h1, p1, _ := net.SplitHostPort(node); n1, _ := strconv.Atoi(p1)
	h2, p2, _ := net.SplitHostPort(wrong); n2, _ := strconv.Atoi(p2)
	boot := zzfake(t, func(key int16) (int16, int16) { return 0, 1 }, func(key, version int16, body []byte) []byte {
		var b bytes.Buffer
		message.MetadataResponse{
			Brokers: []message.MetadataResponseBroker3{{NodeId: 1, Host: h1, Port: int32(n1)}, {NodeId: 2, Host: h2, Port: int32(n2)}},
			Topics: []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 1, LeaderId: 2}, {PartitionIndex: 0, LeaderId: 1}}}},
		}.Encode(message.NewEncoder(&b), version)
		return b.Bytes()
	})
	b, err := NewClient([]string{boot}).DialLeader(context.Background(), "t", 0)
	if err != nil { t.Fatal(err) }
	b.Close()
	if atomic.LoadInt32(&hit) != 1 { t.Fatal("dialled the wrong node") }
}"""),
dict(id="s21",prop="C21",pkg=".",
 edits=[("client.go","""		defer broker.Close()

		return callback(broker)""","""		if err := callback(broker); err != nil {
			return err
		}
		return broker.Close()""")],
 needs="a bootstrap connection on which the metadata request fails",
 breaks="the bootstrap connection is left open",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	boot := zzfake(t, func(key int16) (int16, int16) { return 0, 1 }, func(key, version int16, body []byte) []byte { return []byte{0} })
	if _, err := NewClient([]string{boot}).DialController(context.Background()); err == nil { t.Fatal("no error") }
	for i := 0; i < 100; i++ {
		if atomic.LoadInt32(&zzopen) == 0 { return }
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("connection left open")
}"""),
dict(id="s22",prop="C22",pkg=".",
 edits=[("gen.conn.go","""	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)""","""	return tls.Dial("tcp", addr, c.tlsConfig)""")],
 needs="a TLS configuration together with a custom dialer",
 breaks="the configured dialer is not used for TLS connections",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var used int32
	d := &net.Dialer{Timeout: 2 * time.Second, Control: func(network, address string, c syscall.RawConn) error { atomic.StoreInt32(&used, 1); return nil }}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	defer l.Close()
	go func() { if c, err := l.Accept(); err == nil { c.Close() } }()
	Connect(l.Addr().String(), WithDialer(d), WithTLS(&tls.Config{InsecureSkipVerify: true}))
	if atomic.LoadInt32(&used) != 1 { t.Fatal("dialer not used") }
}"""),
dict(id="s23",prop="C13",pkg=".",
 edits=[("gen.conn.go","""	c.readLock.Lock()
	c.requests[correlationID] = req
	c.readLock.Unlock()

	c.writeLock.Lock()
	encode(c.encoder, correlationID)
""","""	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	// nothing is answered before it is flushed
	c.readLock.Lock()
	c.requests[correlationID] = req
	c.readLock.Unlock()
""")],
 needs="a request larger than the write buffer, which has left the client before it is flushed, and a quick answer",
 breaks="the response arrives before its call is registered and is dropped: the call never returns",
 test="""package kafka
import ("encoding/binary";"io";"net";"testing";"time"
	"github.com/savaki/kafka/message")
func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil { return }
			go func() {
				for {
					var h [4]byte
					if _, err := io.ReadFull(c, h[:]); err != nil { return }
					p := make([]byte, binary.BigEndian.Uint32(h[:]))
					if _, err := io.ReadFull(c, p); err != nil { return }
					c.Write(append([]byte{0, 0, 0, 4}, p[:4]...))
				}
			}()
		}
	}()
	c, err := Connect(l.Addr().String())
	if err != nil { t.Skip(err) }
	defer c.Close()
	ch := make(chan error, 1)
	go func() {
		ch <- c.Do(func(e *message.Encoder, id int32) {
			data := make([]byte, 100000)
			e.PutInt32(int32(8 + len(data)))
			e.PutInt32(id)
			e.PutBytes(data)
			time.Sleep(500 * time.Millisecond)
		}, func(d *message.Decoder) error { return nil })
	}()
	select {
	case err := <-ch:
		if err != nil { t.Fatal(err) }
	case <-time.After(10 * time.Second):
		t.Fatal("the call does not return")
	}
}"""),
dict(id="s24",prop="C02",pkg="message",
 edits=[("message/messages.gen.go","""	if n, err := d.ArrayLength(); err != nil {
		return err
	} else if n >= 0 {
		t.Partitions = make([]FetchablePartitionResponse1, n)""","""	if n, err := d.ArrayLength(); err != nil {
		return err
	} else if n > 0 {
		t.Partitions = make([]FetchablePartitionResponse1, n)""")],
 needs="a message with an empty array that is decoded into a value used before",
 breaks="the array keeps what it held before",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	FetchResponse{Topics: []FetchableTopicResponse1{{Name: "a"}}}.Topics[0].Encode(NewEncoder(&b), 4)
	got := FetchableTopicResponse1{Name: "x", Partitions: make([]FetchablePartitionResponse1, 2)}
	if err := got.Decode(NewDecoder(b.Bytes(), b.Len()), 4); err != nil { t.Fatal(err) }
	if got.Name != "a" || len(got.Partitions) != 0 { t.Fatal(got) }
}"""),
dict(id="s25",prop="C20",pkg=".",
 edits=[("client.go","""		if topic.Name == topicName {""","""		if strings.EqualFold(topic.Name, topicName) {"""),("client.go","""	"strconv"
""","""	"strconv"
	"strings"
""")],
 needs="two topics whose names differ in case only",
 breaks="the leader of another topic's partition is dialled",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var hit int32
	node := zzfake(t, func(key int16) (int16, int16) { atomic.StoreInt32(&hit, 1); return 0, 0 }, nil)
	wrong := zzfake(t, func(key int16) (int16, int16) { return 0, 0 }, nil)
	h1, p1, _ := net.SplitHostPort(node); n1, _ := strconv.Atoi(p1)
	h2, p2, _ := net.SplitHostPort(wrong); n2, _ := strconv.Atoi(p2)
	boot := zzfake(t, func(key int16) (int16, int16) { return 0, 1 }, func(key, version int16, body []byte) []byte {
		var b bytes.Buffer
		message.MetadataResponse{
			Brokers: []message.MetadataResponseBroker3{{NodeId: 1, Host: h1, Port: int32(n1)}, {NodeId: 2, Host: h2, Port: int32(n2)}},
			Topics: []message.MetadataResponseTopic3{
				{Name: "Orders", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: 2}}},
				{Name: "orders", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 0, LeaderId: 1}}},
			},
		}.Encode(message.NewEncoder(&b), version)
		return b.Bytes()
	})
	b, err := NewClient([]string{boot}).DialLeader(context.Background(), "orders", 0)
	if err != nil { t.Fatal(err) }
	b.Close()
	if atomic.LoadInt32(&hit) != 1 { t.Fatal("dialled the wrong node") }
}"""),
dict(id="s32",prop="C07",pkg="./message",
 edits=[("message/decoder.go","""		item, err := d.String()
		if err != nil {
			return nil, err
		}
		items[i] = item
	}

	return items, nil""","""		item, err := d.String()
		if err != nil {
			i--
			continue
		}
		items[i] = item
	}

	return items, nil""")],
 needs="an array of strings that is cut short or holds a malformed length",
 breaks="decoding never returns",
 test="""package message
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	done := make(chan error, 1)
	go func() { _, err := NewDecoder([]byte{0, 0, 0, 1, 0, 9, 'a', 'b'}, 8).StringArray(); done <- err }()
	select {
	case err := <-done:
		if err == nil { t.Fatal("no error") }
	case <-time.After(5 * time.Second):
		t.Fatal("decoding does not return")
	}
}"""),
dict(id="s26",prop="C11",pkg=".",
 edits=[("gen.broker.go","""			return (&resp).Decode(d, b.apiVersion.DescribeLogDirs)""","""			err := (&resp).Decode(d, b.apiVersion.DescribeLogDirs)
			if message.IsInsufficientDataError(err) && len(resp.Results) > 0 {
				return nil // as much as the broker sent
			}
			return err""")],
 needs="a DescribeLogDirs response cut behind or inside its results",
 breaks="a truncated response is reported as a success",
 test=FAKE+"""
func TestZZDemo(t *testing.T) {
	var full []byte
	cut := 0
	addr := zzfake(t, func(key int16) (int16, int16) { return 0, 0 }, func(key, version int16, body []byte) []byte {
		var b bytes.Buffer
		message.DescribeLogDirsResponse{ThrottleTimeMs: 1, Results: []message.DescribeLogDirsResult35{{LogDir: "a"}, {LogDir: "b"}}}.Encode(message.NewEncoder(&b), version)
		full = b.Bytes()
		return full[:len(full)-cut]
	})
	for cut = 0; cut < 12; cut++ {
		b, err := NewBroker(addr)
		if err != nil { t.Skip(err) }
		_, err = b.DescribeLogDirs(message.DescribeLogDirsRequest{})
		b.Close()
		if (err == nil) != (cut == 0) { t.Fatal(cut, err) }
	}
}"""),
dict(id="s27",prop="C06",pkg="message/sizeof",
 edits=[("message/sizeof/sizeof.go","""	length := len(data)
	return VarInt(int64(length)) + int32(length)""","""	length := len(data)
	return VarInt(int64(int16(length))) + int32(length)""")],
 needs="a byte array of 32 KiB or more",
 breaks="the size does not count the bytes its length takes",
 test="""package sizeof_test
import ("bytes";"testing"
 "github.com/savaki/kafka/message"
 "github.com/savaki/kafka/message/sizeof")
func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 63, 64, 8191, 8192, 32767, 32768, 65536, 70000} {
		var b bytes.Buffer
		message.NewEncoder(&b).PutVarBytes(make([]byte, n))
		if int(sizeof.VarBytes(make([]byte, n))) != b.Len() { t.Fatal(n, b.Len()) }
	}
}"""),
dict(id="s28",prop="C19",pkg=".",
 edits=[("gen.record_batch.go","""sizeof.VarInt(m.Offset - baseOffset) ""","""sizeof.VarInt(int64(int32(m.Offset-baseOffset))) """)],
 needs="a batch whose offsets are more than 2 GiB apart",
 breaks="the size of the record differs from what is written",
 test="""package kafka
import ("bytes";"testing"
 "github.com/savaki/kafka/message")
func TestZZDemo(t *testing.T) {
	for _, off := range []int64{0, 1, 1 << 20, 1 << 31, 1 << 33, 1 << 50} {
		r := RecordBatch{Records: []Message{{}, {Offset: off}}}
		var b bytes.Buffer
		r.Encode(message.NewEncoder(&b), 2)
		if b.Len() != int(r.Size(2)) { t.Fatal(off, b.Len(), r.Size(2)) }
	}
}"""),
dict(id="s29",prop="C15",pkg="ring",
 edits=[("ring/buffer.go","""	atomic.StoreInt32(&r.start, pos)
	r.writeLock.Release()
	return true""","""	if pos != next {
		// the writer has all the room it needs once the buffer is empty
		atomic.StoreInt32(&r.start, pos)
	}
	r.writeLock.Release()
	return true""")],
 needs="a read that empties the buffer, followed by another read",
 breaks="bytes are delivered twice",
 test="""package ring
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	r := New(64)
	go func() { for i := 0; i < 200; i++ { r.WriteN([]byte{byte(i), byte(i)}, 2); time.Sleep(time.Microsecond) } }()
	done := make(chan string, 1)
	go func() {
		for i := 0; i < 200; i++ {
			p := make([]byte, 2)
			r.ReadN(p, 2)
			if p[0] != byte(i) || p[1] != byte(i) { done <- "wrong bytes"; return }
		}
		done <- ""
	}()
	select {
	case m := <-done:
		if m != "" { t.Fatal(m) }
	case <-time.After(20 * time.Second):
		t.Fatal("stuck")
	}
}"""),
dict(id="s30",prop="C04",pkg="message",
 edits=[("message/encoder.go","""	e.PutInt32(int32(len(data)))
	if e.err == nil {
		_, e.err = e.target.Write(data)
	}
}""","""	e.PutInt32(int32(len(data)))
	// large values go out in pieces
	const piece = 1 << 16
	for e.err == nil {
		n := len(data)
		if n > piece {
			n = piece
		}
		_, e.err = e.target.Write(data[:n])
		if n < piece {
			return
		}
		data = data[n:]
		if len(data) < 2 {
			return
		}
	}
}""")],
 needs="a byte array one byte longer than a multiple of 64 KiB",
 breaks="the last byte is not written",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 100, 65535, 65536, 65537, 65538, 131072, 131073, 200000} {
		var b bytes.Buffer
		data := bytes.Repeat([]byte{7}, n)
		NewEncoder(&b).PutBytes(data)
		got, err := NewDecoder(b.Bytes(), b.Len()).Bytes()
		if err != nil || !bytes.Equal(got, data) { t.Fatal(n, err) }
	}
}"""),
dict(id="s31",prop="C07",pkg="message",
 edits=[("message/decoder.go","""	items := make([]string, n)
""","""	items := make([]string, n, 4*n+1024) // room for the caller to add its own
""")],
 needs="an array of strings in a message",
 breaks="more is allocated than the message could hold",
 test="""package message
import ("bytes";"testing")
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	NewEncoder(&b).PutStringArray([]string{"a", "b", "c"})
	v, err := NewDecoder(b.Bytes(), b.Len()).StringArray()
	if err != nil || cap(v) > b.Len() { t.Fatal(cap(v), err) }
}"""),
])("""package kafka
import ("bytes";"context";"crypto/tls";"encoding/binary";"io";"net";"strconv";"strings";"sync";"sync/atomic";"syscall";"testing";"time"
	"github.com/savaki/kafka/message")
var (_ = context.Background; _ tls.Config; _ = strconv.Itoa; _ = strings.Repeat; _ sync.Mutex; _ syscall.RawConn; _ = time.Now; _ = atomic.AddInt32; _ bytes.Buffer)
var zzopen int32
// zzfake serves a broker that announces vers and answers with reply.
func zzfake(t *testing.T, vers func(key int16) (int16, int16), reply func(key, version int16, body []byte) []byte) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Skip(err) }
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil { return }
			atomic.AddInt32(&zzopen, 1)
			go func() {
				defer atomic.AddInt32(&zzopen, -1)
				defer c.Close()
				for {
					var h [4]byte
					if _, err := io.ReadFull(c, h[:]); err != nil { return }
					p := make([]byte, binary.BigEndian.Uint32(h[:]))
					if _, err := io.ReadFull(c, p); err != nil { return }
					key, ver := int16(binary.BigEndian.Uint16(p)), int16(binary.BigEndian.Uint16(p[2:]))
					var out []byte
					if key == message.KeyApiVersions {
						r := message.ApiVersionsResponse{}
						for k := int16(0); k < 48; k++ {
							lo, hi := vers(k)
							r.ApiKeys = append(r.ApiKeys, message.ApiVersionsResponseKey18{ApiKey: k, MinVersion: lo, MaxVersion: hi})
						}
						var b bytes.Buffer
						r.Encode(message.NewEncoder(&b), 0)
						out = b.Bytes()
					} else {
						out = reply(key, ver, p)
					}
					f := make([]byte, 8, 8+len(out))
					binary.BigEndian.PutUint32(f, uint32(4+len(out)))
					copy(f[4:], p[4:8])
					if _, err := c.Write(append(f, out...)); err != nil { return }
				}
			}()
		}
	}()
	return l.Addr().String()
}
""")
