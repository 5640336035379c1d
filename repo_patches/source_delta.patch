From 69a74569d921a2e2558a909cbbcf4cffad1d10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 01/12] fix: do not wait for bytes beyond a varint

---
 encoding/thriftwire/varint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..2952dd2 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,9 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	// Peek only at what is already buffered: asking for more bytes than the varint has
+	// could block, or hide an error of the underlying reader.
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +20,9 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	// Peek only at what is already buffered: asking for more bytes than the varint has
+	// could block, or hide an error of the underlying reader.
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From 140fa1438159fc486be8339d529e5a37f01ed6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 02/12] fix: keep forwarding Flush after resetting a compact
 writer

---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From 91abf3a3e4c082376b3a800e90d2c2fe627ea76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 03/12] fix: read compact element boolean 2 as false

---
 encoding/thriftcompact/thriftcompact.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..591979e 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -216,8 +216,9 @@ func (x *reader) ReadBool() (bool, error) {
 		x.boolField = boolNone
 		return v, nil
 	}
+	// Both 0 and 2 are in use for false.
 	v, err := x.ReadByte()
-	return v != 0, err
+	return compactType(v) == _BOOLEAN_TRUE, err
 }
 
 func (x *reader) ReadDouble() (float64, error) {
-- 
2.43.0


From 369fba3c1e91de6e1562742cc6fe39e8a53cf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 04/12] fix: write compact message ID as a 32-bit varint

---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 591979e..0b9f25a 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -313,7 +313,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From be03a832a01def84f5eba10221944aced4679de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 05/12] fix: limit the nesting depth of skipped values

---
 encoding/thriftwire/skip.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..2137e1d 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,23 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth limits the nesting of skipped values, which is chosen by the peer,
+// so that it cannot overflow the stack.
+const maxSkipDepth = 10000
+
+var errSkipDepth = errors.New("thriftwire: exceeded max depth")
+
 // Skip skips over the next value.
-func Skip(r Reader, t Type) (err error) {
+// It fails if values are nested more than 10000 levels deep.
+func Skip(r Reader, t Type) error {
+	return skip(r, t, maxSkipDepth)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth <= 0 {
+		return errSkipDepth
+	}
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +47,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth-1); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +61,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth-1); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth-1); err != nil {
 				return err
 			}
 		}
@@ -59,7 +75,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth-1); err != nil {
 				return err
 			}
 		}
@@ -70,7 +86,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth-1); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From a4d3ff7d025bd6d75b463a01ab8f87634ab6429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 06/12] fix: limit the nesting depth of unmarshaled structs

---
 thrift/arshal.go         | 9 ++++++++-
 thrift/arshal_default.go | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..b5cea14 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -37,9 +37,16 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+// maxUnmarshalDepth limits the nesting of structs, which is chosen by the peer
+// if the Go type is recursive, so that it cannot overflow the stack.
+const maxUnmarshalDepth = 10000
+
+type unmarshalOptions struct {
+	depth int // number of enclosing structs
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
+// It fails if structs are nested more than 10000 levels deep.
 func Unmarshal(in thriftwire.Reader, out any) error {
 	return unmarshalOptions{}.Unmarshal(in, out)
 }
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..f38d30f 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -1,6 +1,7 @@
 package thrift
 
 import (
+	"errors"
 	"reflect"
 	"sync"
 
@@ -328,6 +329,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxUnmarshalDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errors.New("exceeded max depth")}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
-- 
2.43.0


From 34f176aaa9c2c62e83724bd4d72b32b87e773009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 07/12] fix: limit the nesting depth of parsed types and values

---
 tools/thriftfile/parser.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..ee31413 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -75,9 +75,13 @@ func (p errors_) Error() string {
 	return fmt.Sprintf("%s (and %d more errors)", p[0], len(p)-1)
 }
 
+// maxNesting is the maximum nesting depth of types and values.
+const maxNesting = 10000
+
 type parser struct {
 	scanner
-	errs errors_
+	errs    errors_
+	nesting int
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -227,8 +231,21 @@ func (p *parser) namespace() *Namespace {
 
 type badDef struct{}
 
+func (p *parser) enter() {
+	p.nesting++
+	if p.nesting > maxNesting {
+		p.error(p.pos, "nesting too deep")
+		panic(badDef{})
+	}
+}
+
+func (p *parser) leave() {
+	p.nesting--
+}
+
 func (p *parser) def() (d Def) {
 	pos := p.pos
+	p.nesting = 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(badDef); !ok {
@@ -401,6 +418,8 @@ func (p *parser) methods() *MethodList {
 }
 
 func (p *parser) type_() Type {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +475,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.enter()
+	defer p.leave()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From a7bfd71d91126cd20c08d9a166252b3496f65b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 08/12] fix: do not take over the caller's buffer in binary
 Reset

---
 encoding/thriftbinary/thriftbinary.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..de4200d 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -60,11 +60,12 @@ var (
 
 type reader struct {
 	*bufio.Reader
+	r      io.Reader
 	strict bool
 }
 
 func newReader(r io.Reader, strict bool) *reader {
-	return &reader{Reader: bufio.NewReader(r), strict: strict}
+	return &reader{Reader: bufio.NewReader(r), r: r, strict: strict}
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
@@ -250,6 +251,16 @@ func (x *reader) readSize() (int, error) {
 	return int(v), err
 }
 
+func (x *reader) Reset(r io.Reader) {
+	// The buffer may be r itself, which belongs to the caller (see bufio.NewReader).
+	if _, ok := r.(*bufio.Reader); ok || x.r == x.Reader {
+		x.Reader = bufio.NewReader(r)
+	} else {
+		x.Reader.Reset(r)
+	}
+	x.r = r
+}
+
 type writer struct {
 	*bufio.Writer
 	w      io.Writer
@@ -400,7 +411,12 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(w io.Writer) {
-	x.Writer.Reset(w)
+	// The buffer may be w itself, which belongs to the caller (see bufio.NewWriter).
+	if _, ok := w.(*bufio.Writer); ok || x.w == x.Writer {
+		x.Writer = bufio.NewWriter(w)
+	} else {
+		x.Writer.Reset(w)
+	}
 	x.w = w
 }
 
-- 
2.43.0


From cb46616b2c8ca20a5029bc0609de6d2a158055ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 09/12] fix: do not take over the caller's buffer in compact
 Reset

---
 encoding/thriftcompact/thriftcompact.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 0b9f25a..ee22343 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -288,7 +288,6 @@ func (x *reader) readSize() (int, error) {
 }
 
 func (x *reader) Reset(r io.Reader) {
-	x.Reader.Reset(r)
 	*x = reader{
 		Reader:       bufio.NewReader(r),
 		lastFieldIDs: x.lastFieldIDs[:0],
@@ -532,9 +531,15 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(uw io.Writer) {
-	x.Writer.Reset(uw)
+	// The buffer may be uw itself, which belongs to the caller (see bufio.NewWriter).
+	w := x.Writer
+	if _, ok := uw.(*bufio.Writer); ok || x.uw == w {
+		w = bufio.NewWriter(uw)
+	} else {
+		w.Reset(uw)
+	}
 	*x = writer{
-		Writer:       x.Writer,
+		Writer:       w,
 		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
-- 
2.43.0


From 274086df8655f857f7f38a3eca24299ca97a5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 10/12] fix: do not overflow the stack on recursive types
 without structs

---
 thrift/arshal.go         | 10 +++++----
 thrift/arshal_default.go | 47 +++++++++++++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index b5cea14..205160a 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -37,16 +37,18 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-// maxUnmarshalDepth limits the nesting of structs, which is chosen by the peer
-// if the Go type is recursive, so that it cannot overflow the stack.
+// maxUnmarshalDepth limits the nesting of structs, maps, sets, and lists, which is chosen
+// by the peer if the Go type is recursive, so that it cannot overflow the stack.
 const maxUnmarshalDepth = 10000
 
+var errMaxDepth = errors.New("exceeded max depth")
+
 type unmarshalOptions struct {
-	depth int // number of enclosing structs
+	depth int // number of enclosing structs, maps, sets, and lists
 }
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
-// It fails if structs are nested more than 10000 levels deep.
+// It fails if structs, maps, sets, and lists are nested more than 10000 levels deep.
 func Unmarshal(in thriftwire.Reader, out any) error {
 	return unmarshalOptions{}.Unmarshal(in, out)
 }
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index f38d30f..538d033 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -1,7 +1,6 @@
 package thrift
 
 import (
-	"errors"
 	"reflect"
 	"sync"
 
@@ -60,6 +59,9 @@ func makeDefaultArshaler(t reflect.Type) *arshaler {
 		}
 		return makeInvalidArshaler(t)
 	case reflect.Pointer:
+		if isPointerCycle(t) {
+			return makeInvalidArshaler(t)
+		}
 		return makePointerArshaler(t)
 	default:
 		return makeInvalidArshaler(t)
@@ -330,7 +332,7 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
 		if uo.depth++; uo.depth > maxUnmarshalDepth {
-			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errors.New("exceeded max depth")}
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
 		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
@@ -401,10 +403,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() { // not earlier, as the map type may be recursive
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -440,9 +450,13 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxUnmarshalDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
+		}
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -494,9 +508,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() { // not earlier, as the set or list type may be recursive
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -523,9 +544,13 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxUnmarshalDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
+		}
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
@@ -598,6 +623,18 @@ func makeListArshaler(t reflect.Type) *arshaler {
 	)
 }
 
+// isPointerCycle reports whether t points to nothing but pointers, such as type P *P.
+func isPointerCycle(t reflect.Type) bool {
+	seen := make(map[reflect.Type]bool)
+	for ; t.Kind() == reflect.Pointer; t = t.Elem() {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+	}
+	return false
+}
+
 func makePointerArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
-- 
2.43.0


From b3c7ec8d61607dc61befc655702d2cb1bfd4a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 11/12] fix: limit the nesting depth of marshaled values

---
 thrift/arshal.go         | 18 +++++++++++-------
 thrift/arshal_default.go | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index 205160a..7d0554b 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,9 +8,19 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth limits the nesting of structs, maps, sets, and lists, so that neither
+// a value that contains itself nor a peer, which chooses the nesting
+// if the Go type is recursive, can overflow the stack.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max depth")
+
+type marshalOptions struct {
+	depth int // number of enclosing structs, maps, sets, and lists
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
+// It fails if structs, maps, sets, and lists are nested more than 10000 levels deep.
 func Marshal(out thriftwire.Writer, in any) error {
 	return marshalOptions{}.Marshal(out, in)
 }
@@ -37,12 +47,6 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-// maxUnmarshalDepth limits the nesting of structs, maps, sets, and lists, which is chosen
-// by the peer if the Go type is recursive, so that it cannot overflow the stack.
-const maxUnmarshalDepth = 10000
-
-var errMaxDepth = errors.New("exceeded max depth")
-
 type unmarshalOptions struct {
 	depth int // number of enclosing structs, maps, sets, and lists
 }
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index 538d033..c8ae6aa 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -276,6 +276,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -331,7 +334,7 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
-		if uo.depth++; uo.depth > maxUnmarshalDepth {
+		if uo.depth++; uo.depth > maxDepth {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
 		}
 		_, err := r.ReadStructBegin()
@@ -418,6 +421,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -454,7 +460,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
-		if uo.depth++; uo.depth > maxUnmarshalDepth {
+		if uo.depth++; uo.depth > maxDepth {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
 		}
 		h, err := r.ReadMapBegin()
@@ -521,6 +527,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -548,7 +557,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
-		if uo.depth++; uo.depth > maxUnmarshalDepth {
+		if uo.depth++; uo.depth > maxDepth {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
 		}
 		h, err := readBegin(r)
-- 
2.43.0


From eabf8d926c4174eaa4275d67e17604c530ce7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 12/12] fix: report a broken string as a string, not as the
 token before it

---
 tools/thriftfile/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index d8fa7e8..e93cf5a 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -317,6 +317,7 @@ func (s *scanner) number(seenPoint bool) {
 
 func (s *scanner) string() {
 	quote := s.ch
+	s.tok = _STRING
 	s.nextch()
 	for {
 		if s.ch == quote {
@@ -340,7 +341,6 @@ func (s *scanner) string() {
 		}
 		s.nextch()
 	}
-	s.tok = _STRING
 }
 
 func (s *scanner) escape(quote rune) bool {
-- 
2.43.0

