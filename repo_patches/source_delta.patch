From e3c0334522df80d07e51ddcf4dd231c3351d36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 01/18] fix: bufmap: Get reads the whole buffer of the slot

The end of the slot was computed as x*(s+1) instead of (x+1)*s, so reads
returned nothing for slot 0, a truncated record for low slots and panicked
for high ones.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From 2e90073e333c948a61a74f45c9bdca8b94ba9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 02/18] fix: bufmap: initialise a record exactly once

init was derived from the probe sequence, so every update of a key that had
been displaced by a collision reinitialised its record, and two writers racing
on a new key could both or neither see init. Decide it under the slot's lock,
and do not report a key as found until its record has been written.
---
 internal/bufmap/bufmap.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..40659c3 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -38,6 +38,7 @@ func New(l, s int) *Map {
 type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
+	set uint32 // 1 once the slot's buffer has been written
 	mu  sync.Mutex
 }
 
@@ -63,8 +64,14 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 	}
 
-	// Read the buffer from the slot using the seqlock
 	s := &m.keys[x]
+
+	// Has the key been assigned to the slot but not written yet?
+	if atomic.LoadUint32(&s.set) == 0 {
+		return false
+	}
+
+	// Read the buffer from the slot using the seqlock
 	for {
 		seq1 := atomic.LoadUint32(&s.seq)
 		// Is a writer currently writing?
@@ -100,7 +107,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,8 +115,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
 
 		// Is it an empty slot?
 		if kexist == 0 {
@@ -140,6 +144,9 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Writers need to take a lock
 	s.mu.Lock()
 
+	// The first writer to get here initialises the value
+	init := s.set == 0
+
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
@@ -148,6 +155,10 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
 
+	if init {
+		atomic.StoreUint32(&s.set, 1)
+	}
+
 	// Allow access by other writers
 	s.mu.Unlock()
 	return err
-- 
2.43.0


From 9b46359c3d18dffb49f43b093870146966299d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 03/18] fix: bufmap: leave the record unchanged when an update
 fails

A measure that rejected an observation after others had accepted it left the
record half updated. Apply the update to a copy, as seqlock.Update does.
---
 internal/bufmap/bufmap.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 40659c3..1a442fe 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -96,7 +96,8 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 
 // Update finds the buffer stored against key k and atomically updates it with
 // v using the function fn. It returns the error returned by fn, if any. It
-// will also return an error if the map is full. The function fn may be called
+// will also return an error if the map is full. The buffer is left unchanged
+// if fn returns an error. The function fn may be called
 // multiple times during a single call to Update, or not called at all if the
 // map cannot find space for the key.
 func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
@@ -143,14 +144,23 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 
 	// Writers need to take a lock
 	s.mu.Lock()
+	defer s.mu.Unlock()
 
 	// The first writer to get here initialises the value
 	init := s.set == 0
 
+	// Work on a copy so that the value is left as it was if fn fails
+	value := m.values[x*m.s : (x+1)*m.s]
+	data := make([]byte, m.s)
+	copy(data, value)
+	if err := fn(data, init); err != nil {
+		return err
+	}
+
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
-	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	copy(value, data)
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
@@ -158,10 +168,7 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	if init {
 		atomic.StoreUint32(&s.set, 1)
 	}
-
-	// Allow access by other writers
-	s.mu.Unlock()
-	return err
+	return nil
 }
 
 // pos maps the key and probe index to a slot location in the map.
-- 
2.43.0


From 0e7d8dce15cc12645185062715a8b9f48a9b6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 04/18] fix: incmap, bufmap: key 0 is never found

Get(0) matched any empty slot although 0 cannot be stored.
---
 internal/bufmap/bufmap.go | 4 ++++
 internal/incmap/incmap.go | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 1a442fe..15600ce 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -48,6 +48,10 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 is our value that indicates an empty slot so is never stored
+	if k == 0 {
+		return false
+	}
 	// Locate the correct slot
 	x := -1
 	i := 0
diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..5486b96 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,7 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
-
+	// 0 is our value that indicates an empty slot so is never stored
+	if k == 0 {
+		return 0, false
+	}
 	x := -1
 	i := 0
 	for {
-- 
2.43.0


From b11eab8a95195886d4ccb640527bdf99e6079b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 05/18] fix: collation: initialise every measure of a new
 record

Max, Min and Cardinality initialised their state only if their field was in the
row that created the record. When the field first appeared in a later row, max
and min were compared with zero and uniquecount failed with a version error,
as did reading it.
---
 internal/collation/compile.go | 13 +++++++++++
 internal/collation/measure.go | 42 ++++++++++++++++++++++++++++-------
 internal/collation/schema.go  | 20 +++++++++++++++++
 3 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..6a3148e 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -87,6 +87,7 @@ func (s *Schema) Compile() (Collator, error) {
 						Fn:   cm.ContWriter(),
 					})
 					coll.contWriters[ms.Field.Pattern] = ws
+					coll.addInit(m, low, hi)
 				}
 
 				if cm, ok := m.(ContinuousOutput); ok {
@@ -127,6 +128,7 @@ func (s *Schema) Compile() (Collator, error) {
 					Fn:   dm.DiscWriter(),
 				})
 				coll.discWriters[ms.Field.Pattern] = ws
+				coll.addInit(m, pos, pos+size)
 
 				if cm, ok := m.(ContinuousOutput); ok {
 					crs, found := coll.contReaders[ms.Field.Pattern]
@@ -163,3 +165,14 @@ func (s *Schema) Compile() (Collator, error) {
 
 	return coll, nil
 }
+
+// addInit arranges for m to initialise its part of a new record, if it needs to.
+func (c *Collator) addInit(m Measure, low, high int) {
+	if im, ok := m.(Initializer); ok {
+		c.inits = append(c.inits, initializer{
+			Low:  low,
+			High: high,
+			Fn:   im.Initialize,
+		})
+	}
+}
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..510a19e 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -33,6 +33,12 @@ type DiscreteOutput interface {
 	DiscReader() DiscReaderFunc
 }
 
+// An Initializer is a measure whose state is not all zeroes before it has
+// received any observations.
+type Initializer interface {
+	Initialize(buf []byte) error
+}
+
 type RowWriterFunc func(buf []byte, init bool) error
 type ContWriterFunc func(buf []byte, init bool, v float64) error
 type DiscWriterFunc func(buf []byte, init bool, v []byte) error
@@ -142,11 +148,18 @@ func (Variance) ContReader() ContReaderFunc {
 type Max struct{}
 
 var _ ContinuousInput = Max{}
+var _ Initializer = Max{}
 
 func (Max) Size() int { return 8 }
 
 func (Max) Name() string { return "max" }
 
+// Initialize marks the measure as having no observations.
+func (Max) Initialize(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -171,11 +184,18 @@ func (Max) ContReader() ContReaderFunc {
 type Min struct{}
 
 var _ ContinuousInput = Min{}
+var _ Initializer = Min{}
 
 func (Min) Size() int { return 8 }
 
 func (Min) Name() string { return "min" }
 
+// Initialize marks the measure as having no observations.
+func (Min) Initialize(buf []byte) error {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+	return nil
+}
+
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -230,18 +250,24 @@ type Cardinality struct {
 
 var _ DiscreteInput = Cardinality{}
 var _ ContinuousOutput = Cardinality{}
+var _ Initializer = Cardinality{}
+
+// Initialize writes an empty counter to buf.
+func (c Cardinality) Initialize(buf []byte) error {
+	s := hll.New(uint8(c.Precision))
+
+	var b bytes.Buffer
+	_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow
+	copy(buf, b.Bytes())
+	return err
+}
 
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
-
 		if init {
-			s := hll.New(uint8(c.Precision))
-			s.Add(v)
-
-			var b bytes.Buffer
-			_, err := s.WriteTo(&b) // TODO: ensure bytes.Buffer does not grow
-			copy(buf, b.Bytes())
-			return err
+			if err := c.Initialize(buf); err != nil {
+				return err
+			}
 		}
 
 		s, err := hll.WithBytes(buf)
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..3cff866 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -145,6 +145,7 @@ type Result struct {
 type Collator struct {
 	name        string
 	keys        [][]byte
+	inits       []initializer
 	writers     []anyWriter
 	contWriters map[string][]contWriter
 	discWriters map[string][]discWriter
@@ -160,6 +161,16 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	// Initialise the measures of a new record, including those for fields that
+	// are not present in this row
+	if init {
+		for _, in := range c.inits {
+			if err := in.Initialize(buf); err != nil {
+				return err
+			}
+		}
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -248,6 +259,15 @@ func (c Collator) Name() string {
 	return c.name
 }
 
+type initializer struct {
+	Low, High int // index range of data within buffer
+	Fn        func(buf []byte) error
+}
+
+func (i initializer) Initialize(buf []byte) error {
+	return i.Fn(buf[i.Low:i.High])
+}
+
 type anyWriter struct {
 	Low, High int // index range of data within buffer
 	Fn        RowWriterFunc
-- 
2.43.0


From 2d3b1a181eea4053a7b8f1c46ac4260ce984335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 06/18] fix: collation: a NaN observation does not reset max
 and min

No comparison with NaN holds, so a NaN value replaced the extreme seen so far
and was itself replaced by whatever came next.
---
 internal/collation/measure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 510a19e..b2699bd 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -164,7 +164,7 @@ func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c >= v {
+			if c >= v || math.IsNaN(v) {
 				return nil
 			}
 		}
@@ -200,7 +200,7 @@ func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c <= v {
+			if c <= v || math.IsNaN(v) {
 				return nil
 			}
 		}
-- 
2.43.0


From 0d368e28348dc49ec2f35fa6f0b04d955b29939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 07/18] fix: query: keep fields in the order they were selected

FieldMeasures was filled by ranging over a map, so the order of results varied
from one run of the same query to the next.
---
 internal/query/rough.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..8d4f9b8 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -22,18 +22,20 @@ func RoughParse(in string) (collation.Query, error) {
 		return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 	}
 
-	fields := map[string][][]byte{}
+	fields := map[string]int{} // index of each field in q.FieldMeasures
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
-		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
-	}
-
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+		i, found := fields[s[2]]
+		if !found {
+			i = len(q.FieldMeasures)
+			fields[s[2]] = i
+			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
+		}
+		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From d142693708be6a5c5f29cf1264a221e125066382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 08/18] fix: query: allow where and a trailing = in criteria
 values

The select clause ran up to the last 'where', so a value containing ' where '
was cut in two, and the field name ran up to the last =', so the value of
a='x=' and all criteria after it were misread.
---
 internal/query/rough.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 8d4f9b8..b7bc19b 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,9 +8,9 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`([^\s=]+)='([^']+)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
-- 
2.43.0


From faa3be7cad6eefa931b2c0bee7357d32eb43a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 09/18] fix: hll: mix the hash before selecting a register

The register was selected by the high bits of an FNV-1 hash, which hardly
depend on the last few bytes of the item, so short or sequential items nearly
all fell into the same registers: the estimate for 10000 keys user0..user9999
at precision 10 was 20.
---
 internal/summary/hll/hll.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..dd2ceed 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -89,7 +89,7 @@ type Counter struct {
 }
 
 func (c *Counter) Add(v []byte) {
-	h := fnv.Sum64(v)
+	h := mix(fnv.Sum64(v))
 	idx := int((h & c.mask) >> (64 - c.p))
 
 	// Count leading zeros - there are faster ways to do this
@@ -107,6 +107,18 @@ func (c *Counter) Add(v []byte) {
 	}
 }
 
+// mix spreads the entropy of h over all of its bits, using the finalizer of
+// MurmurHash3. The high bits of an FNV hash, which select the register, barely
+// depend on the last bytes of the item.
+func mix(h uint64) uint64 {
+	h ^= h >> 33
+	h *= 0xff51afd7ed558ccd
+	h ^= h >> 33
+	h *= 0xc4ceb9fe1a85ec53
+	h ^= h >> 33
+	return h
+}
+
 // Count returns an estimate of the number of distinct items that have been added to the counter.
 func (c *Counter) Count() int64 {
 	h := 0.0
-- 
2.43.0


From 42f33108e9ecc00fa78340e683760448d6f3478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 10/18] fix: bloom: ErrorRate uses the proportion of bits set

The formula for n added items was applied to the number of bits set, giving a
rate near 0.9 for filters whose measured rate of false positives was 0.01.
---
 internal/summary/bloom/bloom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..1e25a06 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -120,7 +120,7 @@ func (b *Bloom) Count() int64 {
 // ErrorRate returns an estimate of the rate of false positives returned by the bloom filter's Has method.
 func (b *Bloom) ErrorRate() float64 {
 	x := b.bits.CountN(1)
-	return math.Pow(1-math.Exp(-float64(b.k)*float64(x)/float64(b.m)), float64(b.k))
+	return math.Pow(float64(x)/float64(b.m), float64(b.k))
 }
 
 // WriteTo writes a binary representation of the bloom filter to w. It adheres
-- 
2.43.0


From 9f2da99dc161de3c0552bed4abb3a0f067676ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 11/18] fix: bloom, hll: WithBytes returns an error for a short
 buffer

A buffer too short for the header caused a panic, where bitbucket.WithBytes
returns io.ErrShortBuffer.
---
 internal/summary/bloom/bloom.go | 4 ++++
 internal/summary/hll/hll.go     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 1e25a06..9fd1e35 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -40,6 +40,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index dd2ceed..b589986 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -41,6 +41,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
-- 
2.43.0


From d0fd639ce26e53d46a63c7d09edc4ccdd06a25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 12/18] fix: bitbucket: ReadFrom rejects an unsupported width

as New and WithBytes do.
---
 internal/bitbucket/bitbucket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..9e6f49c 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -196,6 +196,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
+	if buf[1] > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
+
 	b.w = buf[1]
 	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
 	b.data = make([]byte, length(b.n, b.w))
-- 
2.43.0


From 3aa93222721600cc9f99b51739325d76a98ba43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 13/18] fix: bitbucket, bloom, hll: detect trailing data with
 any reader

ReadFrom accepted trailing data when the reader returned it together with
io.EOF, and reported trailing data when a read returned 0, nil.
---
 internal/bitbucket/bitbucket.go | 2 +-
 internal/summary/bloom/bloom.go | 2 +-
 internal/summary/hll/hll.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 9e6f49c..cded44e 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -213,7 +213,7 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 9fd1e35..1d8124e 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -183,7 +183,7 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	}
 	b.m = b.bits.Count()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index b589986..1020405 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -314,7 +314,7 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
-- 
2.43.0


From fa7e6ada07dda1fa7ef6dc76ee850f7f9504693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 14/18] fix: bitbucket: an input shorter than its header
 announces is an error

A count near the limits of an integer overflowed the length, so that
WithBytes accepted a buffer without data and ReadFrom panicked; a large
count made ReadFrom allocate memory for data that is not there.
---
 internal/bitbucket/bitbucket.go | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index cded44e..26545cd 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -8,11 +8,15 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
+	"strconv"
 )
 
 const (
 	Version = 1
 	hdrLen  = 10 // number of bytes needed for header data when serializing (version, n and w)
+
+	maxCount = (1<<(strconv.IntSize-1) - 8) / 8 // largest n for which length does not overflow
 )
 
 var ErrIncompatibleVersion = errors.New("bitbucket: incompatible version")
@@ -58,10 +62,14 @@ func WithBytes(buf []byte) (BitBucket, error) {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > maxCount {
+		return BitBucket{}, io.ErrShortBuffer
+	}
+	n := int(count)
 
 	buflen := length(n, w)
-	if len(buf) < hdrLen+buflen {
+	if len(buf)-hdrLen < buflen {
 		return BitBucket{}, io.ErrShortBuffer
 	}
 
@@ -200,18 +208,25 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrUnsupportedWidth
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > maxCount {
+		return int64(n), io.ErrUnexpectedEOF
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	// The length comes from the input, so do not allocate it before the data is seen
+	buflen := length(int(count), buf[1])
+	data, err := ioutil.ReadAll(io.LimitReader(r, int64(buflen)))
+	n += len(data)
 	if err != nil {
-		if err == io.EOF {
-			return int64(n), io.ErrUnexpectedEOF
-		}
 		return int64(n), err
 	}
+	if len(data) < buflen {
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	b.w = buf[1]
+	b.n = int(count)
+	b.data = data
 
 	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
-- 
2.43.0


From c33864f8c237f48be3aebb751cb43915fafba1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 15/18] fix: server: do not apply the unfinished last line of a
 body that breaks off

---
 internal/server/server.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..52aa0d1 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -165,8 +165,12 @@ func (s *Server) recvObservation(ctx context.Context, w http.ResponseWriter, req
 		return
 	}
 
+	br := &bodyReader{Reader: r}
+	r = br
+
 	now := time.Now()
 	sc := bufio.NewScanner(r)
+	sc.Split(br.scanLines)
 	for sc.Scan() {
 
 		// Check whether context has been cancelled
@@ -314,3 +318,26 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 
 	s.mux.ServeHTTP(w, r)
 }
+
+// bodyReader reads a request body and keeps the error that ended it early, if any.
+type bodyReader struct {
+	io.Reader
+	err error
+}
+
+func (b *bodyReader) Read(p []byte) (int, error) {
+	n, err := b.Reader.Read(p)
+	if err != nil && err != io.EOF {
+		b.err = err
+	}
+	return n, err
+}
+
+// scanLines is a split function like bufio.ScanLines, except that it leaves out
+// a last line that was cut off by an error.
+func (b *bodyReader) scanLines(data []byte, atEOF bool) (int, []byte, error) {
+	if b.err != nil && bytes.IndexByte(data, '\n') == -1 {
+		return len(data), nil, nil
+	}
+	return bufio.ScanLines(data, atEOF)
+}
-- 
2.43.0


From 612e6cb4f35bbde67587b03c0350099bae199847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 16/18] fix: server: receive termination signals from before
 the server listens

---
 internal/server/server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 52aa0d1..0dea23e 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -60,6 +60,11 @@ func (s *Server) Serve() error {
 		s.Logger = log.New(os.Stderr, "", log.LstdFlags)
 	}
 
+	// Signals are received from here on so that none is missed once the server is listening.
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(ch)
+
 	listener, err := net.Listen(s.Net, s.Addr)
 	if err != nil {
 		return fmt.Errorf("fatal error listening on %s: %v", s.Addr, err)
@@ -77,15 +82,12 @@ func (s *Server) Serve() error {
 
 	go hs.Serve(listener)
 
-	s.waitSignal()
+	s.waitSignal(ch)
 	return nil
 }
 
 // waitSignal blocks waiting for operating system signals
-func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
-	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
-
+func (s *Server) waitSignal(ch <-chan os.Signal) {
 signalloop:
 	for sig := range ch {
 		switch sig {
-- 
2.43.0


From 13e590ebe47ddc054126907fc33828ee8aaa913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 17/18] fix: exit with an error status when the server cannot
 be started

---
 starbow.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starbow.go b/starbow.go
index 73f4f1e..6c38b8e 100644
--- a/starbow.go
+++ b/starbow.go
@@ -11,5 +11,7 @@ func main() {
 	if err := setupDemo(s); err != nil {
 		log.Fatal(err.Error())
 	}
-	s.Serve()
+	if err := s.Serve(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
-- 
2.43.0


From 870840bc9ca9a08fd568b617ad3b8f58351c4b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:57 +0000
Subject: [PATCH 18/18] fix: do not refuse observations of the instance whose
 key hashes to 0

The record store does not accept 0 as a key, so that an observation whose
key fields hash to 0, such as country=S7HVKAWiVzfc, was answered with
"invalid key: 0" and could not be queried.
---
 internal/collation/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index 3cff866..fafbcef 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -81,6 +81,10 @@ outer:
 		return 0, false
 	}
 
+	// A key of 0 is invalid in a backend
+	if h.Sum64() == 0 {
+		return 1, true
+	}
 	return h.Sum64(), true
 }
 
-- 
2.43.0

