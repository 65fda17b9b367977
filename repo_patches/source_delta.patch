From 3b7c1a2f2971ac8dfeb639edc9750fbe69504964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 01/12] fix: decoder no longer panics or over-reads on
 malformed lengths

Negative lengths made Bytes, String, VarBytes, VarString and the array
readers panic and let Discard move backwards; an array count was trusted
before allocating; VarInt read past the declared length and took an
overflow of more than one byte for success. Null byte arrays (-1) are nil.
---
 message/decoder.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..e0301b8 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -25,6 +25,7 @@ import (
 
 var (
 	errNullString     = errors.New("null string")
+	errNegativeLength = errors.New("negative length")
 	errVarIntOverflow = errors.New("var int overflow")
 )
 
@@ -58,6 +59,9 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errNegativeLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
@@ -70,6 +74,13 @@ func (d *Decoder) ArrayLength() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if n == -1 {
+		return -1, nil // null array
+	}
+	// every array element occupies at least one byte
+	if err := d.remains(int(n)); err != nil {
+		return 0, err
+	}
 	return int(n), nil
 }
 
@@ -89,6 +100,9 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -257,6 +271,9 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if n == -1 {
+		return nil, nil
+	}
 	length := int(n)
 
 	if err := d.remains(length); err != nil {
@@ -271,13 +288,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
-- 
2.43.0


From cf6da2c0d6b42e5e42deffcec9efcea8e0f52de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 02/12] fix: NullableString decodes the null string as nil

---
 message/decoder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/message/decoder.go b/message/decoder.go
index e0301b8..24f57b8 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -214,6 +214,17 @@ func (d *Decoder) Int64Array() ([]int64, error) {
 
 // NullableString returns the buffer head as a *string
 func (d *Decoder) NullableString() (*string, error) {
+	offset := d.offset
+	n, err := d.Int16()
+	if err != nil {
+		return nil, err
+	}
+
+	if n == -1 {
+		return nil, nil
+	}
+
+	d.offset = offset
 	s, err := d.String()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f172019ab461df112edb3b67f7d2b0793a4124d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 03/12] fix: var bytes and var strings keep the first write
 error and any byte

PutVarBytes and PutVarString went on writing after a failed length prefix
and replaced the error; both var string directions rewrote bytes that are
not valid UTF-8, so the announced length and the value were wrong.
---
 message/decoder.go | 16 ++--------------
 message/encoder.go | 13 +++++--------
 2 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 24f57b8..1d82cd7 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -326,18 +325,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..4c50146 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -203,7 +202,9 @@ func (e *Encoder) PutVarBytes(data []byte) {
 	}
 
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
@@ -223,11 +224,7 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
+	if e.err == nil {
+		_, e.err = io.WriteString(e.target, s)
 	}
 }
-- 
2.43.0


From abe39c2a4d3807614ab85425545d8ef168802e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:01 +0000
Subject: [PATCH 04/12] fix: negotiate the highest api version both sides
 support

matchVersion only ever tried the broker's maximum, so a broker newer than
the client failed to connect although a common version existed.
---
 gen.broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..600af57 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version >= minVersion && version >= apiKey.MinVersion {
+		return version, nil
 	}
 	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 }
-- 
2.43.0


From 7028eefd163331c759815a743734fd00cf6f9362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:57 +0000
Subject: [PATCH 05/12] fix: ring buffer re-checks positions after waiting and
 loses no wake up

After a wait neither side reloaded the other's position, so a reader went
on reading bytes that were never written and a writer overwrote bytes that
were never read; a one byte write did not wake a waiting reader; and a
Release just before Wait was lost, which could park both sides for good.
ReadN and WriteN report whether the buffer was closed under them.
---
 ring/buffer.go | 75 ++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..ded375b 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -21,34 +21,31 @@ import (
 	"sync/atomic"
 )
 
+// mutex parks one side of the buffer.  Release leaves at most one pending
+// wake up behind, so a Release that precedes Wait is not lost.
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -84,74 +81,74 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
-func (r *Buffer) WriteN(data []byte, n int) {
+// blocks until ReadN clears space.  Returns false if the buffer was closed before
+// all n bytes could be written.
+func (r *Buffer) WriteN(data []byte, n int) bool {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
 	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
-
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// bytes to be read before continuing
+		for incr(pos, r.size) == start {
 			atomic.StoreInt32(&r.next, pos)
 
-			// important to store pos prior to reading from lockMux
+			// important to store pos prior to releasing the reader
 			r.readLock.Release()
-			wrote = i
 
 			start = atomic.LoadInt32(&r.start)
 			if next := incr(pos, r.size); next == start {
+				if r.ctx.Err() != nil {
+					return false
+				}
 				r.writeLock.Wait()
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
-		r.readLock.Release()
-	}
+	r.readLock.Release()
+	return true
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  Returns false if the
+// buffer was closed before n bytes became available.
+func (r *Buffer) ReadN(data []byte, n int) bool {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
-		read = 0
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		for pos == next {
 			atomic.StoreInt32(&r.start, pos)
-			if read > 0 {
-				r.writeLock.Release()
-			}
+			r.writeLock.Release()
 
+			// check closed prior to loading next so bytes written before
+			// Close are still read
+			closed := r.ctx.Err() != nil
 			next = atomic.LoadInt32(&r.next)
 			if pos == next {
+				if closed {
+					return false
+				}
 				r.readLock.Wait()
 			}
 		}
 
 		data[i] = r.data[pos]
 		pos = incr(pos, r.size)
-		read++
 	}
 
 	atomic.StoreInt32(&r.start, pos)
-	if read > 0 {
-		r.writeLock.Release()
-	}
+	r.writeLock.Release()
+	return true
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 1bfedb013313d99d545ad138327fd34adc878825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 06/12] fix: survive large responses and lost connections

A response over 2MB made messageLoop panic; byte fields of a decoded
response pointed into the shared receive buffer and changed when the next
response arrived; when the connection was lost, or closed, pending and
later calls waited for ever; and bytes read together with an error were
dropped.
---
 gen.conn.go | 57 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..ea9c69c 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,6 +30,8 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+var errClosed = errors.New("connection closed")
+
 type Conn struct {
 	cancel      context.CancelFunc
 	ch          chan request
@@ -91,26 +94,26 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // no more bytes will arrive, let messageLoop finish
 
 	buffer := make([]byte, 2e6) // 2MB
 	for {
 		n, err := raw.Read(buffer)
+		if !rb.WriteN(buffer, n) {
+			return
+		}
 		if err != nil {
 			fmt.Println(err)
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
+	defer rb.Close() // no more bytes will be read, let readLoop finish
 
-	var (
-		buffer = make([]byte, 2e6) // 2MB
-		d      = message.NewDecoder(buffer, len(buffer))
-	)
+	header := make([]byte, 4)
 
 	for {
 		select {
@@ -121,14 +124,23 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 		}
 
 		// read the header
-		rb.ReadN(buffer, 4)
-		d.Reset(4)
+		if !rb.ReadN(header, 4) {
+			return
+		}
+		d := message.NewDecoder(header, 4)
 		v, _ := d.Int32()
 		size := int(v)
+		if size < 0 {
+			fmt.Println("invalid message size,", size)
+			return
+		}
 
-		// read the payload
-		rb.ReadN(buffer, size)
-		d.Reset(size)
+		// read the payload into a buffer of its own, decoded responses refer to it
+		buffer := make([]byte, size)
+		if !rb.ReadN(buffer, size) {
+			return
+		}
+		d = message.NewDecoder(buffer, size)
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
@@ -167,10 +179,31 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		c.forget(correlationID)
+		return err
+	}
+
+	select {
+	case err := <-req.reply:
+		return err
+	case <-c.doneMessage:
+	}
+
+	// no further responses will be read, but ours may have been the last
+	select {
+	case err := <-req.reply:
 		return err
+	default:
+		c.forget(correlationID)
+		return errClosed
 	}
+}
 
-	return <-req.reply
+// forget a request no response is expected for
+func (c *Conn) forget(correlationID int32) {
+	c.readLock.Lock()
+	delete(c.requests, correlationID)
+	c.readLock.Unlock()
 }
 
 func (c *Conn) Close() error {
-- 
2.43.0


From 872b02204b6377280a912d9c8895984784685223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 07/12] fix: report missing bootstrap servers and failed
 coordinator lookups

With no bootstrap servers the lookups reported success with an empty
result, and the error code of a coordinator lookup was ignored; both made
the client dial an address that names no broker.
---
 client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 303efdc..edfd7ab 100644
--- a/client.go
+++ b/client.go
@@ -16,12 +16,15 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
 )
 
+var errNoBootstrap = errors.New("no bootstrap servers")
+
 // Client provides a high level Kafka client
 type Client struct {
 	bootstrap []string
@@ -39,7 +42,7 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 // dialBootstrap dials one of the initial bootstrap servers
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 	var broker *Broker
-	var err error
+	err := errNoBootstrap
 	for _, addr := range c.bootstrap {
 		broker, err = NewBroker(addr, c.opts...)
 		if err != nil {
@@ -69,6 +72,9 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		if err != nil {
 			return err
 		}
+		if v.ErrorCode != 0 {
+			return fmt.Errorf("unable to find coordinator, error code %v: %v", v.ErrorCode, v.ErrorMessage)
+		}
 		resp = v
 		return nil
 	}
-- 
2.43.0


From 0f2efa33fb7070d4fccd13c84174806eac45da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 08/12] fix: close connections the caller never gets to see

The bootstrap connection of each lookup and the connection of a broker
whose version negotiation failed were left open.
---
 client.go     | 2 ++
 gen.broker.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/client.go b/client.go
index edfd7ab..f6910f2 100644
--- a/client.go
+++ b/client.go
@@ -49,6 +49,8 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 			continue
 		}
 
+		defer broker.Close()
+
 		return callback(broker)
 	}
 	return err
diff --git a/gen.broker.go b/gen.broker.go
index 600af57..c5d6498 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From b5f94adedcde7d65cc0ebc2232b4b5a1921c556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 09/12] fix: record batch size and record lengths match what is
 encoded

Every record announced length 0, the batch size counted key and value
lengths twice and left out the record length, headers were encoded but
not counted below version 2, and a message without headers panicked.
---
 gen.record_batch.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index dda4446..14b32b6 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -98,7 +98,8 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int32 // BaseSequence
 
 	for _, msg := range r.Records {
-		sz += sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
+		sz += sizeof.VarInt(int64(length)) + length
 	}
 	return sz
 }
@@ -118,31 +119,32 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt32(r.BaseSequence)
 
 	for _, m := range r.Records {
-		encodeMessage(m, encoder, version, r.FirstTimestamp)
+		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
 	}
 }
 
 // encodeMessage as per https://kafka.apache.org/documentation/#record
-func encodeMessage(m Message, encoder *message.Encoder, version int16, firstTimestamp int64) {
-	encoder.PutVarInt(int64(m.Size(version)))              // length
-	encoder.PutInt8(0)                                     // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	encoder.PutVarInt(0)                                   // offsetDelta
+func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
+	encoder.PutVarInt(int64(sizeofMessage(m, version, baseOffset, firstTimestamp))) // length
+	encoder.PutInt8(0)                                                              // attributes
+	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp)                          // timestampDelta
+	encoder.PutVarInt(m.Offset - baseOffset)                                        // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
-	m.Header.Range(encoder.PutRecordHeader)
+	if m.Header != nil {
+		m.Header.Range(encoder.PutRecordHeader)
+	}
 }
 
+// sizeofMessage returns the size of the record, excluding its length
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
 	sz += sizeof.Int8                                        // attributes
 	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
 	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarInt(int64(len(m.Key)))                   // keyLength
-	sz += sizeof.Bytes(m.Key)                                // key
-	sz += sizeof.VarInt(int64(len(m.Value)))                 // valueLength
-	sz += sizeof.Bytes(m.Value)                              // value
-	if version >= magic && m.Header != nil {
+	sz += sizeof.VarBytes(m.Key)                             // key
+	sz += sizeof.VarBytes(m.Value)                           // value
+	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
 			sz += sizeof.VarString(value)
-- 
2.43.0


From e7ab659c5e279b8a1f2e14303764f5df0b758ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 10/12] fix: record batches follow the documented record layout

The record count and the header count were missing and the timestamp
delta mixed seconds with the batch's milliseconds, so that no consumer
could parse an encoded batch.
---
 gen.record_batch.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/gen.record_batch.go b/gen.record_batch.go
index 14b32b6..23c12d7 100644
--- a/gen.record_batch.go
+++ b/gen.record_batch.go
@@ -96,6 +96,7 @@ func (r RecordBatch) Size(version int16) int32 {
 	sz += sizeof.Int64 // ProducerId
 	sz += sizeof.Int16 // ProducerEpoch
 	sz += sizeof.Int32 // BaseSequence
+	sz += sizeof.ArrayLength
 
 	for _, msg := range r.Records {
 		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
@@ -117,6 +118,7 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 	encoder.PutInt64(r.ProducerId)
 	encoder.PutInt16(r.ProducerEpoch)
 	encoder.PutInt32(r.BaseSequence)
+	encoder.PutArrayLength(len(r.Records))
 
 	for _, m := range r.Records {
 		encodeMessage(m, encoder, version, r.BaseOffset, r.FirstTimestamp)
@@ -127,23 +129,39 @@ func (r RecordBatch) Encode(encoder *message.Encoder, version int16) {
 func encodeMessage(m Message, encoder *message.Encoder, version int16, baseOffset, firstTimestamp int64) {
 	encoder.PutVarInt(int64(sizeofMessage(m, version, baseOffset, firstTimestamp))) // length
 	encoder.PutInt8(0)                                                              // attributes
-	encoder.PutVarInt(m.Timestamp.Unix() - firstTimestamp)                          // timestampDelta
+	encoder.PutVarInt(timestampMs(m.Timestamp) - firstTimestamp)                    // timestampDelta
 	encoder.PutVarInt(m.Offset - baseOffset)                                        // offsetDelta
 	encoder.PutVarBytes(m.Key)
 	encoder.PutVarBytes(m.Value)
+	encoder.PutVarInt(countHeaders(m.Header))
 	if m.Header != nil {
 		m.Header.Range(encoder.PutRecordHeader)
 	}
 }
 
+// timestampMs returns the timestamp in milliseconds since the epoch
+func timestampMs(t time.Time) int64 {
+	return t.Unix()*1000 + int64(t.Nanosecond()/1e6)
+}
+
+// countHeaders returns the number of elements in the header
+func countHeaders(h Header) int64 {
+	var n int64
+	if h != nil {
+		h.Range(func(string, string) { n++ })
+	}
+	return n
+}
+
 // sizeofMessage returns the size of the record, excluding its length
 func sizeofMessage(m Message, version int16, baseOffset, firstTimestamp int64) int32 {
 	var sz int32
-	sz += sizeof.Int8                                        // attributes
-	sz += sizeof.VarInt(m.Timestamp.Unix() - firstTimestamp) // timestampDelta
-	sz += sizeof.VarInt(m.Offset - baseOffset)               // offsetDelta
-	sz += sizeof.VarBytes(m.Key)                             // key
-	sz += sizeof.VarBytes(m.Value)                           // value
+	sz += sizeof.Int8                                              // attributes
+	sz += sizeof.VarInt(timestampMs(m.Timestamp) - firstTimestamp) // timestampDelta
+	sz += sizeof.VarInt(m.Offset - baseOffset)                     // offsetDelta
+	sz += sizeof.VarBytes(m.Key)                                   // key
+	sz += sizeof.VarBytes(m.Value)                                 // value
+	sz += sizeof.VarInt(countHeaders(m.Header))                    // header count
 	if m.Header != nil {
 		m.Header.Range(func(key, value string) {
 			sz += sizeof.VarString(key)
-- 
2.43.0


From 9e287aa4e86f0ae6566c4bd1f88bb23046cba2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 11/12] fix: close the stream once no more responses will be
 read

After a malformed size the connection kept its stream open: readLoop stayed
blocked in Read, and a call blocked in writing its request never returned. The
same happened to writes when the broker ended its side and read no further.
---
 gen.conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen.conn.go b/gen.conn.go
index ea9c69c..812af3c 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -111,7 +111,8 @@ func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 
 func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
 	defer close(c.doneMessage)
-	defer rb.Close() // no more bytes will be read, let readLoop finish
+	defer c.raw.Close() // no more calls can be answered, let pending reads and writes fail
+	defer rb.Close()    // no more bytes will be read, let readLoop finish
 
 	header := make([]byte, 4)
 
-- 
2.43.0


From b251fbd66604701443a10a9f2f2ae6baf63bfc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 12/12] fix: nodes with an IPv6 address can be dialled

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index f6910f2..f717721 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -60,7 +61,7 @@ func (c *Client) dialBootstrap(callback func(*Broker) error) error {
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
+			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
 			return NewBroker(addr, c.opts...)
 		}
 	}
@@ -84,7 +85,7 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
+	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
 	return NewBroker(addr, c.opts...)
 }
 
-- 
2.43.0

