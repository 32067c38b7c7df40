From ec28c6351f311184593e0e96d541023dd4f3d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 01/48] fix: write varuint32/varint32 values of 28 to 32 bits
 instead of panicking, refuse larger ones

---
 pkg/abi/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..2745c90 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,19 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	if uint64(v) > math.MaxUint32 {
+		return errors.New("eosio encoder: varuint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	if int64(v) < math.MinInt32 || int64(v) > math.MaxInt32 {
+		return errors.New("eosio encoder: varint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From 02f74b8dbb0aed8c9b4ac17d767dc35720fbab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:14 +0000
Subject: [PATCH 02/48] fix: refuse varuint32/varint32 values that do not fit
 32 bits when reading

---
 pkg/abi/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..dea9d67 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -418,6 +418,9 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxUint32 {
+		return 0, errors.New("abi: varuint32 out of range")
+	}
 	return uint(v), nil
 }
 
@@ -426,6 +429,9 @@ func (dec *Decoder) ReadVarint() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < math.MinInt32 || v > math.MaxInt32 {
+		return 0, errors.New("abi: varint32 out of range")
+	}
 	return int(v), nil
 }
 
-- 
2.43.0


From 84c6bede51f8e7e66f5cac13b6e3b3f40de81254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:16 +0000
Subject: [PATCH 03/48] fix: report nil pointers to types with their own
 encoding instead of panicking

---
 pkg/abi/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 2745c90..af967df 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -77,6 +77,10 @@ func (enc *Encoder) Encode(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
+		return errors.New("eosio encoder: encountered unexpected nil pointer")
+	}
+
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
-- 
2.43.0


From aa9e24b9c0c3fc02d074cec4446ed797b677a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:18 +0000
Subject: [PATCH 04/48] fix: decode map values and pointers whose target is a
 pointer to a primitive

---
 pkg/abi/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index dea9d67..7818253 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -143,6 +143,14 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	// decode into what a pointer points to, allocating it if needed
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			v.Set(reflect.New(v.Type().Elem()))
+		}
+		return dec.Decode(v.Interface())
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From d1d9b5ffaf3aee4a2395287834d71112dcfc202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:21 +0000
Subject: [PATCH 05/48] fix: report write errors of the presence byte of
 optional fields

---
 pkg/abi/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index af967df..d292289 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -117,7 +117,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
-- 
2.43.0


From 10b488cb3748c17d87eec47110630d8dbfed80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:27 +0000
Subject: [PATCH 06/48] fix: write the index of variant fields when encoding

---
 pkg/abi/encode.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d292289..1ef57d6 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -124,6 +124,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 					continue
 				}
 			}
+			if tag == "variant" {
+				if err := enc.encodeVariant(v.Field(i)); err != nil {
+					return err
+				}
+				continue
+			}
 			err := enc.Encode(v.Field(i).Interface())
 			if err != nil {
 				return err
@@ -160,6 +166,37 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+// Encode variant, a struct with all pointer fields where exactly one is set.
+func (enc *Encoder) encodeVariant(v reflect.Value) error {
+	if v.Kind() == reflect.Ptr {
+		v = v.Elem()
+	}
+	if v.Kind() != reflect.Struct {
+		return errors.New("eosio encoder: invalid variant, expected struct")
+	}
+	idx := -1
+	for i := 0; i < v.NumField(); i++ {
+		f := v.Field(i)
+		if f.Kind() != reflect.Ptr {
+			return errors.New("eosio encoder: invalid variant, expected field pointer")
+		}
+		if f.IsNil() {
+			continue
+		}
+		if idx != -1 {
+			return errors.New("eosio encoder: invalid variant, more than one value set")
+		}
+		idx = i
+	}
+	if idx == -1 {
+		return errors.New("eosio encoder: invalid variant, no value set")
+	}
+	if err := enc.WriteByte(byte(idx)); err != nil {
+		return err
+	}
+	return enc.Encode(v.Field(idx).Interface())
+}
+
 // writing methods
 
 func (enc *Encoder) WriteBytes(b []byte) error {
-- 
2.43.0


From 7177cd6b081977110ae2b12a13941b5c23bda3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 07/48] fix: leave out absent binary extensions when encoding
 instead of failing

---
 pkg/abi/encode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1ef57d6..e024b03 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,8 +113,17 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			}
 		}
 	case reflect.Struct:
+		absent := false
 		for i := 0; i < v.NumField(); i++ {
 			tag := v.Type().Field(i).Tag.Get("eosio")
+			// extensions set to nil are left out, along with everything after them
+			if tag == "extension" && v.Field(i).Kind() == reflect.Ptr && v.Field(i).IsNil() {
+				absent = true
+				continue
+			}
+			if absent {
+				return errors.New("eosio encoder: value set after an absent extension")
+			}
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
 				if err := enc.WriteBool(exists); err != nil {
-- 
2.43.0


From 0bcff80279e691df43be6ebd22968e7c7201f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:31 +0000
Subject: [PATCH 08/48] fix: treat an extension as absent only when the data
 ends right before it

---
 pkg/abi/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 7818253..8679a8d 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -15,6 +15,7 @@ type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
+	n  int64
 }
 
 type Unmarshaler interface {
@@ -240,13 +241,15 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					}
 				}
 
+				start := dec.n
 				if tag == "variant" {
 					err = dec.DecodeVariant(vi)
 				} else {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				// an extension is absent only if the data ends right before it
+				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -315,6 +318,11 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	return err
 }
 
+// BytesRead returns the number of bytes read so far.
+func (dec *Decoder) BytesRead() int64 {
+	return dec.n
+}
+
 // reading methods
 
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
@@ -326,6 +334,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
+	dec.n += int64(an)
 	if err != nil {
 		return an, b, err
 	}
-- 
2.43.0


From 1c67d3ca21833a8a3524f1704da0c63b7f760ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 09/48] fix: allocate for announced lengths as the data arrives

---
 pkg/abi/decode.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 8679a8d..5f35c98 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -1,6 +1,7 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,6 +10,18 @@ import (
 	"reflect"
 )
 
+// Number of bytes allocated up front for data whose announced length has not been seen yet.
+const maxPrealloc = 64 * 1024
+
+// Number of slice elements to allocate up front when l elements are announced.
+func preallocLen(l int, elem reflect.Type) int {
+	size := int(elem.Size())
+	if size == 0 || l <= maxPrealloc/size {
+		return l
+	}
+	return maxPrealloc/size + 1
+}
+
 // Fast-path decoding function can be implemented to handle additional types without reflection.
 type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 
@@ -266,9 +279,19 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				n := preallocLen(int(l), pv.Type().Elem())
+				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
 			for i := 0; i < int(l); i++ {
+				if i == pv.Len() {
+					n := i * 2
+					if n > int(l) {
+						n = int(l)
+					}
+					grown := reflect.MakeSlice(pv.Type(), n, n)
+					reflect.Copy(grown, pv)
+					pv.Set(grown)
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -332,8 +355,19 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
-	b = make([]byte, n)
-	an, err = io.ReadFull(dec.r, b)
+	if n <= maxPrealloc {
+		b = make([]byte, n)
+		an, err = io.ReadFull(dec.r, b)
+	} else {
+		// don't trust large lengths, allocate as the data arrives
+		var buf bytes.Buffer
+		var cn int64
+		cn, err = io.CopyN(&buf, dec.r, int64(n))
+		if err == io.EOF && cn > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		an, b = int(cn), buf.Bytes()
+	}
 	dec.n += int64(an)
 	if err != nil {
 		return an, b, err
-- 
2.43.0


From 61159ea4c4264a5d140fe27e27a719f2294fde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:35 +0000
Subject: [PATCH 10/48] fix: report decoding into nil instead of panicking

---
 pkg/abi/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 5f35c98..6e06bea 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -99,7 +99,7 @@ func (dec *Decoder) Decode(v interface{}) error {
 	default:
 		val := reflect.ValueOf(v)
 		if val.Kind() != reflect.Ptr || val.IsNil() {
-			return fmt.Errorf("abi: invalid type, unable to decode into %s", val.Type())
+			return fmt.Errorf("abi: invalid type, unable to decode into %T", v)
 		}
 		err = dec.DecodeValue(val.Elem())
 	}
@@ -111,7 +111,7 @@ func (dec *Decoder) Decode(v interface{}) error {
 func (dec *Decoder) DecodeVariant(v interface{}) error {
 	val := reflect.ValueOf(v)
 	if val.Kind() != reflect.Ptr || val.IsNil() {
-		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
+		return fmt.Errorf("abi: invalid variant type, unable to decode into %T", v)
 	}
 	// read variant index
 	vIdx, err := dec.ReadByte()
-- 
2.43.0


From de40b9ad352fa3ad3a483cf6dced9a959c001920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 11/48] fix: encode map entries in key order so that equal maps
 encode equally

---
 pkg/abi/encode.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index e024b03..aa9d389 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -1,11 +1,13 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
 	"math"
 	"reflect"
+	"sort"
 )
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
@@ -150,7 +152,11 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
-		for _, key := range v.MapKeys() {
+		keys, err := enc.sortedKeys(v)
+		if err != nil {
+			return err
+		}
+		for _, key := range keys {
 			if err := enc.Encode(key.Interface()); err != nil {
 				return err
 			}
@@ -175,6 +181,36 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+// Keys of a map in ascending order, or in order of their encoding if they have none.
+func (enc *Encoder) sortedKeys(v reflect.Value) ([]reflect.Value, error) {
+	keys := v.MapKeys()
+	switch v.Type().Key().Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].Uint() < keys[j].Uint() })
+	case reflect.String:
+		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	default:
+		encoded := make(map[int]string, len(keys))
+		order := make([]int, len(keys))
+		for i, key := range keys {
+			var buf bytes.Buffer
+			if err := NewEncoder(&buf, enc.fn).Encode(key.Interface()); err != nil {
+				return nil, err
+			}
+			encoded[i], order[i] = buf.String(), i
+		}
+		sort.Slice(order, func(i, j int) bool { return encoded[order[i]] < encoded[order[j]] })
+		sorted := make([]reflect.Value, len(keys))
+		for i, o := range order {
+			sorted[i] = keys[o]
+		}
+		keys = sorted
+	}
+	return keys, nil
+}
+
 // Encode variant, a struct with all pointer fields where exactly one is set.
 func (enc *Encoder) encodeVariant(v reflect.Value) error {
 	if v.Kind() == reflect.Ptr {
-- 
2.43.0


From 894f98f2b898ba6e0f78f2f88063f18414507d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:01 +0000
Subject: [PATCH 12/48] fix: report read and write errors of action and
 permission level names

---
 pkg/chain/action.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..db9a8c2 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,22 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	if err := pl.Actor.MarshalABI(e); err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +84,19 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	if err := pl.Actor.UnmarshalABI(d); err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	if err := a.Account.UnmarshalABI(d); err != nil {
+		return err
+	}
+	if err := a.Name.UnmarshalABI(d); err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From dd0e76d4f63080bea19c4041c088fa6d0bfad23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:03 +0000
Subject: [PATCH 13/48] fix: replace the authorization of an action when
 decoding into it again

---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index db9a8c2..87c39ce 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -101,6 +101,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = []PermissionLevel{}
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From ca8289b4b3d536e81cc352def67d80aec3013e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 14/48] fix: don't allocate the announced number of transaction
 actions and extensions up front

---
 pkg/chain/transaction.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..bdd8b03 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,34 +152,40 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.ContextFreeActions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.ContextFreeActions = append(tx.ContextFreeActions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = []Action{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Actions[i].UnmarshalABI(d)
+		var v Action
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Actions = append(tx.Actions, v)
 	}
 	len, err = d.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = []TransactionExtension{}
 	for i := 0; i < int(len); i++ {
-		err = tx.Extensions[i].UnmarshalABI(d)
+		var v TransactionExtension
+		err = v.UnmarshalABI(d)
 		if err != nil {
 			return err
 		}
+		tx.Extensions = append(tx.Extensions, v)
 	}
 	return err
 }
-- 
2.43.0


From 751e2f700d5f83fd1b1033e5fcdc9d145e2a8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 15/48] fix: consult the custom encoding function for pointers
 to types with their own encoding

---
 pkg/abi/encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index aa9d389..b8b5283 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -83,6 +83,14 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		return errors.New("eosio encoder: encountered unexpected nil pointer")
 	}
 
+	// custom types are also handled behind a pointer, as they are when decoding
+	if v.Kind() == reflect.Ptr && v.Elem().CanInterface() {
+		done, err := enc.fn(enc, v.Elem().Interface())
+		if done || err != nil {
+			return err
+		}
+	}
+
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
-- 
2.43.0


From 916780132e68785cc1219c124ae9306a71fbfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 16/48] fix: decode structs whose last binary extension is
 absent

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 6e06bea..12b0d14 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -265,6 +265,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From 05fb544c2eef85878800fe8e223dc12ae0899fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:30 +0000
Subject: [PATCH 17/48] fix: write the length of bytes in ABI driven encoding
 and accept chain.Bytes

---
 pkg/chain/abi.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..5df8bb8 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -316,9 +316,12 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 				err = enc.WriteVarint(vv)
 			}
 		case "bytes":
-			var vv []byte
-			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+			var vv Bytes
+			if vv, ok = v.(Bytes); !ok {
+				vv, ok = v.([]byte)
+			}
+			if ok {
+				err = vv.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 8ed4479a92baea8eb71249b666a5edd56cb76e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 18/48] fix: resolve ABI type names of any length and optional
 extensions

---
 pkg/chain/abi.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 5df8bb8..708277a 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -588,22 +589,12 @@ func (r *resolver) resolve(name string) *resolvedType {
 	if r.types[name] != nil {
 		return r.types[name]
 	}
-	var isOptional bool
-	baseName := name
-	if name[len(name)-1] == '?' {
-		isOptional = true
-		baseName = name[:len(name)-1]
-	}
-	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
-		isExtension = true
-		baseName = baseName[:len(baseName)-1]
-	}
-	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
-		isArray = true
-		baseName = baseName[:len(baseName)-2]
-	}
+	baseName := strings.TrimSuffix(name, "$")
+	isExtension := baseName != name
+	isOptional := strings.HasSuffix(baseName, "?")
+	baseName = strings.TrimSuffix(baseName, "?")
+	isArray := strings.HasSuffix(baseName, "[]")
+	baseName = strings.TrimSuffix(baseName, "[]")
 
 	t := resolvedType{
 		name:        name,
-- 
2.43.0


From 092e38333e39bd6d93e78f3579fe5c79b42e71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:35 +0000
Subject: [PATCH 19/48] fix: encode and decode ABI structs without fields

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 708277a..a51210c 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -662,10 +662,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From af3baf4b654f26cc307d3a4c8329f1f9c8f4f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 20/48] fix: decode the eosio::name type like it is encoded

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a51210c..a5aaba4 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -543,7 +543,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From c1bcbc51c7f2394e30435d5e93450d7acf1f9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:40 +0000
Subject: [PATCH 21/48] fix: report write errors of ABI optionals, accept nil
 for aliases of optional types

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a5aaba4..67755a4 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -155,9 +155,9 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
-	} else if !exists {
+	} else if !exists && (t.isArray || t.ref == nil) {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From a3ddd36a9619b700840f28be4b56ff16c19e2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:11 +0000
Subject: [PATCH 22/48] fix: decode an ABI extension as absent only when the
 data ends right before it

---
 pkg/chain/abi.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 67755a4..82a38e6 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -429,9 +429,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
@@ -444,7 +441,12 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
+			start := dec.BytesRead()
 			err := a.decodeType(dec, field.typ, &fv)
+			// an extension is absent only if the data ends right before it
+			if field.typ.isExtension && err == io.EOF && dec.BytesRead() == start {
+				continue
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 5c10b1766a87521cafecdd75b6e3e817258a95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:13 +0000
Subject: [PATCH 23/48] fix: leave out absent extensions in ABI driven encoding

---
 pkg/chain/abi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 82a38e6..3527e7f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -190,8 +190,18 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
+		absent := false
 		for _, f := range fields {
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			fv, exists := vs[f.name]
+			// extensions that are not set are left out, along with everything after them
+			if f.typ.isExtension && (!exists || fv == nil && !f.typ.isOptional) {
+				absent = true
+				continue
+			}
+			if absent {
+				return fmt.Errorf("found %v after an absent extension", f.name)
+			}
+			if err = a.encodeType(enc, f.typ, fv); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 89342f2466e01dde48624eaeeb1a561ceaf8a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:15 +0000
Subject: [PATCH 24/48] fix: report ABI types defined in terms of themselves
 instead of overflowing the stack

---
 pkg/chain/abi.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 3527e7f..48e2d96 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -72,6 +72,9 @@ type AbiErrorMessage struct {
 	Message string `json:"error_msg"`
 }
 
+// How deep types can be nested, also stops types that are defined in terms of themselves.
+const maxDepth = 128
+
 func (a Abi) GetTable(name Name) *AbiTable {
 	for _, t := range a.Tables {
 		if t.Name == name {
@@ -138,7 +141,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, 0)
 	return rv, err
 }
 
@@ -146,11 +149,14 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
+	if depth > maxDepth {
+		return fmt.Errorf("%v is nested too deep", t.name)
+	}
 	exists := v != nil
 	if t.isOptional {
 		err = enc.WriteBool(exists)
@@ -170,21 +176,21 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
@@ -201,7 +207,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			if absent {
 				return fmt.Errorf("found %v after an absent extension", f.name)
 			}
-			if err = a.encodeType(enc, f.typ, fv); err != nil {
+			if err = a.encodeType(enc, f.typ, fv, depth+1); err != nil {
 				return err
 			}
 		}
@@ -232,7 +238,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth+1)
 		}
 	} else {
 		var ok bool
@@ -414,8 +420,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
+	if depth > maxDepth {
+		return fmt.Errorf("%v is nested too deep", t.name)
+	}
 	if t.isOptional {
 		var exists bool
 		exists, err = dec.ReadBool()
@@ -429,7 +438,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		if err == nil {
 			va := make([]interface{}, l)
 			for i := 0; i < int(l); i++ {
-				err = a.decodeInner(dec, t, &va[i])
+				err = a.decodeInner(dec, t, &va[i], depth)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -437,22 +446,22 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
 			start := dec.BytesRead()
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, depth+1)
 			// an extension is absent only if the data ends right before it
 			if field.typ.isExtension && err == io.EOF && dec.BytesRead() == start {
 				continue
@@ -476,7 +485,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3650b537210750fc54c9e8323d29718bd1867140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 25/48] fix: don't allocate the announced length of ABI arrays
 up front

---
 pkg/chain/abi.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 48e2d96..ebdc633 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -436,12 +436,14 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
-				err = a.decodeInner(dec, t, &va[i], depth)
+				var e interface{}
+				err = a.decodeInner(dec, t, &e, depth)
 				if err != nil {
 					return err // can't recover from this
 				}
+				va = append(va, e)
 			}
 			*v = va
 		}
-- 
2.43.0


From 30a5aa413af798518e0334fa1cac826532ec5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 26/48] fix: resolve ABI struct bases that are aliases and
 refuse arrays and optionals as base

---
 pkg/chain/abi.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index ebdc633..395ed7e 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -715,6 +715,17 @@ func (rt *resolvedType) allFields() []*struct {
 		if cur == nil {
 			break
 		}
+		// the base can be an alias of a struct, but not an array or optional
+		for {
+			if cur.isArray || cur.isOptional || cur.isExtension || seen[cur.name] {
+				return nil
+			}
+			if cur.ref == nil {
+				break
+			}
+			seen[cur.name] = true
+			cur = cur.ref
+		}
 	}
 
 	return rv
-- 
2.43.0


From 8bbbd09e5602294ee34931c500b315901e2e951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:50 +0000
Subject: [PATCH 27/48] fix: limit how deep recursive types can nest when
 decoding

---
 pkg/abi/decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 12b0d14..49bf8e0 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -13,6 +13,9 @@ import (
 // Number of bytes allocated up front for data whose announced length has not been seen yet.
 const maxPrealloc = 64 * 1024
 
+// How deep values can be nested, keeps recursive types from exhausting the stack.
+const maxDepth = 10000
+
 // Number of slice elements to allocate up front when l elements are announced.
 func preallocLen(l int, elem reflect.Type) int {
 	size := int(elem.Size())
@@ -29,6 +32,7 @@ type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
 	n  int64
+	d  int
 }
 
 type Unmarshaler interface {
@@ -157,6 +161,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	dec.d++
+	defer func() { dec.d-- }()
+	if dec.d > maxDepth {
+		return errors.New("abi: exceeded max depth")
+	}
+
 	// decode into what a pointer points to, allocating it if needed
 	if v.Kind() == reflect.Ptr {
 		if v.IsNil() {
-- 
2.43.0


From 1b0051b749d3fd6be3ccf7eceab7f498c8cdcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:33 +0000
Subject: [PATCH 28/48] fix: refuse checksum text of the wrong length instead
 of panicking or truncating

---
 pkg/chain/checksum.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..40c4baa 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"errors"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -119,8 +120,11 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 20 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
-		copy((*c160)[:], data[:20])
+		copy((*c160)[:], data)
 	}
 	return err
 }
@@ -128,8 +132,11 @@ func (c160 *Checksum160) UnmarshalText(text []byte) error {
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 32 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
-		copy((*c256)[:], data[:32])
+		copy((*c256)[:], data)
 	}
 	return err
 }
@@ -137,8 +144,11 @@ func (c256 *Checksum256) UnmarshalText(text []byte) error {
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 64 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
-		copy((*c512)[:], data[:64])
+		copy((*c512)[:], data)
 	}
 	return err
 }
-- 
2.43.0


From 1d27479d7cf45a29c1316c2e0f457a21f503dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 29/48] fix: report invalid hex when parsing bytes

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From c42b098eab5b5b39b2400dd06c0b5478404782c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:37 +0000
Subject: [PATCH 30/48] fix: refuse float128 text of the wrong length

---
 pkg/chain/numbers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..e45ed34 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -220,6 +220,9 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
 	b, err := hex.DecodeString(string(text))
+	if err == nil && len(b) != len(f128.Data) {
+		err = errors.New("invalid float128 length")
+	}
 	if err == nil {
 		copy(f128.Data[:], b)
 	}
-- 
2.43.0


From 094fe86bee3c332778ad6cf275e359a67bbaa815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:39 +0000
Subject: [PATCH 31/48] fix: accept exactly the range of signed 128 bit
 integers

---
 pkg/chain/numbers.go | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index e45ed34..928552d 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -45,29 +45,22 @@ func NewUint128(i *big.Int) Uint128 {
 
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
-	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	if !fitsInt128(i) {
+		panic("int128 out of range")
 	}
-	switch i.Sign() {
-	case 0:
-		return Int128{0, 0}
-	case 1:
-		b = i.Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0}, b...)
-		}
-	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
+	if i.Sign() < 0 {
+		// two's complement
+		i = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128))
 	}
-	return Int128{
-		binary.BigEndian.Uint64(b[8:]),
-		binary.BigEndian.Uint64(b[:8]),
+	return Int128(NewUint128(i))
+}
+
+// Whether i is in the range -2^127 to 2^127-1.
+func fitsInt128(i *big.Int) bool {
+	if i.Sign() < 0 {
+		i = new(big.Int).Not(i)
 	}
+	return i.BitLen() < 128
 }
 
 func NewUint128FromString(s string) (Uint128, error) {
@@ -80,7 +73,7 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !fitsInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
-- 
2.43.0


From 9b0b2f5833f89ab686da5c9712c9eb5b6c486cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:42 +0000
Subject: [PATCH 32/48] fix: leave 128 bit integers unchanged when parsing
 fails

---
 pkg/chain/numbers.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 928552d..fd4907f 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -200,14 +200,18 @@ func (f128 Float128) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (u128 *Uint128) UnmarshalText(text []byte) error {
-	var err error
-	*u128, err = NewUint128FromString(string(text))
+	new, err := NewUint128FromString(string(text))
+	if err == nil {
+		*u128 = new
+	}
 	return err
 }
 
 func (i128 *Int128) UnmarshalText(text []byte) error {
-	var err error
-	*i128, err = NewInt128FromString(string(text))
+	new, err := NewInt128FromString(string(text))
+	if err == nil {
+		*i128 = new
+	}
 	return err
 }
 
-- 
2.43.0


From a16eca68a6dd0ffc4b946fb800c3dd4063c54efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 33/48] fix: don't write behind the text or change the blob on
 errors when parsing base64

---
 pkg/chain/blob.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..3e3949a 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -51,13 +51,16 @@ func (b Blob) MarshalText() (text []byte, err error) {
 
 func (b *Blob) UnmarshalText(text []byte) error {
 	// fix up the base64 encoding padding
-	switch len(text) % 4 {
+	s := string(text)
+	switch len(s) % 4 {
 	case 2:
-		text = append(text, "=="...)
+		s += "=="
 	case 3:
-		text = append(text, "="...)
+		s += "="
+	}
+	data, err := base64.StdEncoding.DecodeString(s)
+	if err == nil {
+		*b = data
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
 	return err
 }
-- 
2.43.0


From 00687b344c3c6ab441a8107ca1321b50b64b917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:46 +0000
Subject: [PATCH 34/48] fix: refuse non-ASCII text in base58 instead of
 panicking

---
 pkg/base58/base58.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..71f415b 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,8 +48,8 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
-			tmp := b58[v]
+		for i := 0; i < n; i++ {
+			tmp := b58[t[i]]
 			if tmp == 255 {
 				return []byte("")
 			}
-- 
2.43.0


From 859f388e2cb1f5d9556c990964e403a2b8dae21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 35/48] fix: print assets with the minimum value or over 18
 decimals exactly

---
 pkg/chain/asset.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..7db6a83 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -81,24 +80,20 @@ func A(s string) *Asset {
 
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
-	s := ""
+	v := uint64(a.Value)
+	sign := ""
 	if a.Value < 0 {
-		s = "-"
-	}
-	v := int(a.Value)
-	if v < 0 {
 		v = -v
+		sign = "-"
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
+	s := strconv.FormatUint(v, 10)
+	if d := a.Symbol.Decimals(); d > 0 {
+		if len(s) <= d {
+			s = strings.Repeat("0", d+1-len(s)) + s
 		}
-		s += "." + fs
+		s = s[:len(s)-d] + "." + s[len(s)-d:]
 	}
-	return s + " " + a.Symbol.Name()
+	return sign + s + " " + a.Symbol.Name()
 }
 
 func (a *Asset) FloatValue() float64 {
-- 
2.43.0


From 31d0174228dccb116e311a4f49bfd17d9cf81d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:51 +0000
Subject: [PATCH 36/48] fix: marshal signatures to text when they are not
 addressable

---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..f2d0572 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -107,7 +107,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From 0f5faeaa21135b85d43833f0e8ebdb9e88d036c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 37/48] fix: refuse times out of range instead of wrapping
 around

---
 pkg/chain/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..90a9790 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -51,7 +52,11 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewTimePointSec(t), nil
+	rv := NewTimePointSec(t)
+	if rv.Time().Unix() != t.Unix() {
+		return 0, errors.New("time point sec out of range")
+	}
+	return rv, nil
 }
 
 func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
@@ -62,7 +67,11 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewBlockTimestamp(t), nil
+	rv := NewBlockTimestamp(t)
+	if d := rv.Time().Sub(t); d < -time.Second || d > time.Second {
+		return 0, errors.New("block timestamp out of range")
+	}
+	return rv, nil
 }
 
 func (tp TimePoint) Time() time.Time {
-- 
2.43.0


From b08f99d65c4bab9d396184acf553d40335117802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:16 +0000
Subject: [PATCH 38/48] fix: use R1 as the text form of the second key type
 like nodeos

---
 pkg/chain/key_type.go   | 2 +-
 pkg/chain/public_key.go | 2 +-
 pkg/chain/signature.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..57cd46e 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -13,7 +13,7 @@ func (t KeyType) String() string {
 	case K1:
 		return "K1"
 	case P1:
-		return "P1"
+		return "R1"
 	case WA:
 		return "WA"
 	default:
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..98bd71a 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -31,7 +31,7 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		switch s[4:6] {
 		case "K1":
 			t = K1
-		case "P1":
+		case "R1":
 			t = P1
 		case "WA":
 			t = WA
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index f2d0572..5aa5012 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -29,7 +29,7 @@ func NewSignatureString(s string) (*Signature, error) {
 	switch s[4:6] {
 	case "K1":
 		t = K1
-	case "P1":
+	case "R1":
 		t = P1
 	case "WA":
 		t = WA
-- 
2.43.0


From 18e107acb47485e87103d567bdcc4bf2eeaa10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 39/48] fix: use the ripemd160 checksum for legacy public keys
 and refuse short ones

---
 pkg/chain/public_key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 98bd71a..c7539fc 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,7 +45,10 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -61,7 +64,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From 391c09019daec312c2e06f6268ea2f4f70e076a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 40/48] fix: refuse key and signature text with a wrong
 separator or data of the wrong length

---
 pkg/chain/public_key.go | 30 ++++++++++++++++++++++--------
 pkg/chain/signature.go  | 19 ++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index c7539fc..3df0fcc 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -38,21 +39,34 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		default:
 			return nil, fmt.Errorf("unknown key type: %s", s[4:6])
 		}
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		d, err := base58.CheckDecodeEosio(s[7:], t.String())
-		return &PublicKey{
-			Type: t,
-			Data: d,
-		}, err
+		if err != nil {
+			return nil, err
+		}
+		return checkedPublicKey(t, d)
 	}
 	// legacy format
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
 	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
-	return &PublicKey{
-		Type: K1,
-		Data: d,
-	}, err
+	if err != nil {
+		return nil, err
+	}
+	return checkedPublicKey(K1, d)
+}
+
+// Public key from data that must be exactly what is expected for the type.
+func checkedPublicKey(t KeyType, d []byte) (*PublicKey, error) {
+	var pk PublicKey
+	r := bytes.NewReader(append([]byte{byte(t)}, d...))
+	if err := pk.UnmarshalABI(NewDecoder(r)); err != nil || r.Len() > 0 || !bytes.Equal(pk.Data, d) {
+		return nil, errors.New("invalid public key data")
+	}
+	return &pk, nil
 }
 
 func (pk *PublicKey) String() string {
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 5aa5012..213f0e4 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -36,12 +37,20 @@ func NewSignatureString(s string) (*Signature, error) {
 	default:
 		return nil, fmt.Errorf("unknown signature type: %s", s[4:6])
 	}
+	if s[6] != '_' {
+		return nil, errors.New("invalid signature string")
+	}
 	d, err := base58.CheckDecodeEosio(s[7:], t.String())
-	return &Signature{
-		Type: t,
-		Data: d,
-	}, err
-
+	if err != nil {
+		return nil, err
+	}
+	// the data must be exactly what is expected for the type
+	var sig Signature
+	r := bytes.NewReader(append([]byte{byte(t)}, d...))
+	if err := sig.UnmarshalABI(NewDecoder(r)); err != nil || r.Len() > 0 || !bytes.Equal(sig.Data, d) {
+		return nil, errors.New("invalid signature data")
+	}
+	return &sig, nil
 }
 
 func (pk *Signature) String() string {
-- 
2.43.0


From e0616c03d2bfeb42dfcf037838ebc5b365c4e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:14 +0000
Subject: [PATCH 41/48] fix: don't declare an unused length in generated code
 for structs with arrays only

---
 pkg/codegen/codegen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index e4c52b5..3ee9f3e 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -266,7 +266,6 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = render(writeSliceTemplate, f)
 		}
 		if f.IsArray {
-			ctx.UsesLength = true
 			f.Code = indent(f.Code)
 			f.Code = render(writeArrayTemplate, f)
 		}
-- 
2.43.0


From 20df25820af97addebb26d513ab2749a771f807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:16 +0000
Subject: [PATCH 42/48] fix: generate decoding of pointers to types with their
 own encoding, slices and arrays, and of absent optionals

---
 pkg/codegen/codegen.go | 44 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3ee9f3e..1736a42 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -52,19 +52,9 @@ var writeTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readTemplate = template.Must(template.New("").Parse(`
-	{{ if .IsPtr -}}
-	var tmp {{ .Type }}
-	{{ end -}}
-	if {{ if .IsPtr }}tmp{{ else -}}
-		v.{{ .Name }}
-		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	{{- end -}}
-	, err = d.Read{{ .Method }}(); err != nil {
+	if {{ .Target }}, err = d.Read{{ .Method }}(); err != nil {
 		return err
-	}
-	{{- if .IsPtr }}
-	v.{{ .Name }}{{ if or .IsSlice .IsArray }}[i]{{ end }} = &tmp
-	{{- end }}`,
+	}`,
 ))
 
 var writeOtherTemplate = template.Must(template.New("").Parse(`
@@ -78,15 +68,16 @@ var writeOtherTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readOtherTemplate = template.Must(template.New("").Parse(`
-	if err = {{ if and .IsPtr (or .IsSlice .IsArray) }}(*{{ end -}}
-		v.{{ .Name -}}
-		{{- if and .IsPtr (or .IsSlice .IsArray) }}){{ end -}}
-		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	.UnmarshalABI(d); err != nil {
+	if err = {{ .Target }}.UnmarshalABI(d); err != nil {
 		return err
 	}`,
 ))
 
+var readPtrTemplate = template.Must(template.New("").Parse(`
+	v.{{ .Name }} = new({{ if .IsSlice }}[]{{ else if .IsArray }}[{{ .ArrayLen }}]{{ end }}{{ .Type }})
+	{{- .Code }}`,
+))
+
 var writeSliceTemplate = template.Must(template.New("").Parse(`
 	length = len({{ if .IsPtr }}*{{ end }}v.{{ .Name }})
     if err = e.WriteVaruint(uint(length)); err != nil {
@@ -101,7 +92,7 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	v.{{ .Name }} = make([]{{ .Type }}, length)
+	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = make([]{{ .Type }}, length)
 	for i := 0; i < int(length); i++ {
 		{{- .Code }}
 	}`,
@@ -141,6 +132,8 @@ var readOptionalTemplate = template.Must(template.New("").Parse(`
 	}
 	if exists {
 		{{- .Code }}
+	} else {
+		v.{{ .Name }} = nil
 	}`,
 ))
 
@@ -154,6 +147,18 @@ var writeMapTemplate = template.Must(template.New("").Parse(`
 	}`,
 ))
 
+// Expression for the field, or the element of it, to read into.
+func (f *field) Target() string {
+	rv := "v." + f.Name
+	if f.IsPtr {
+		rv = "(*" + rv + ")"
+	}
+	if f.IsSlice || f.IsArray {
+		rv += "[i]"
+	}
+	return rv
+}
+
 type ctx struct {
 	StructName string
 	UsesExists bool
@@ -298,6 +303,9 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = indent(f.Code)
 			f.Code = render(readArrayTemplate, f)
 		}
+		if f.IsPtr {
+			f.Code = render(readPtrTemplate, f)
+		}
 		if f.IsOptional {
 			ctx.UsesExists = true
 			f.Code = indent(f.Code)
-- 
2.43.0


From 75e271381f7759684ee9c43b9261b863012c9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 43/48] fix: don't allocate the announced length of slices up
 front in generated code

---
 pkg/codegen/codegen.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 1736a42..5638810 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -92,9 +92,11 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = make([]{{ .Type }}, length)
+	{{ .Slice }} = []{{ .Type }}{}
 	for i := 0; i < int(length); i++ {
+		var tmp {{ .Type }}
 		{{- .Code }}
+		{{ .Slice }} = append({{ .Slice }}, tmp)
 	}`,
 ))
 
@@ -149,16 +151,27 @@ var writeMapTemplate = template.Must(template.New("").Parse(`
 
 // Expression for the field, or the element of it, to read into.
 func (f *field) Target() string {
+	if f.IsSlice {
+		return "tmp"
+	}
 	rv := "v." + f.Name
 	if f.IsPtr {
 		rv = "(*" + rv + ")"
 	}
-	if f.IsSlice || f.IsArray {
+	if f.IsArray {
 		rv += "[i]"
 	}
 	return rv
 }
 
+// Expression for the slice to read into.
+func (f *field) Slice() string {
+	if f.IsPtr {
+		return "*v." + f.Name
+	}
+	return "v." + f.Name
+}
+
 type ctx struct {
 	StructName string
 	UsesExists bool
-- 
2.43.0


From 6b6d463334f0a1c740872a06cdb2c64f22679855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:20 +0000
Subject: [PATCH 44/48] fix: generate code for fields of types from the same
 package

---
 pkg/codegen/codegen.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 5638810..c6f1630 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -225,6 +225,10 @@ func GenUnmarshalFn(structType interface{}) string {
 				}
 			}
 		}
+		// types of the package the code is generated for are not qualified there
+		if elem := elemType(t.Field(i).Type); elem.PkgPath() == t.PkgPath() && elem.Name() != "" {
+			f.Type = elem.Name()
+		}
 
 		if t.Field(i).Tag.Get("eosio") == "optional" {
 			if !f.IsPtr {
@@ -332,6 +336,17 @@ func GenUnmarshalFn(structType interface{}) string {
 
 }
 
+// What is left of a field type without its pointer and slice or array.
+func elemType(t reflect.Type) reflect.Type {
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	if t.Name() == "" && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) {
+		t = t.Elem()
+	}
+	return t
+}
+
 func render(t *template.Template, v interface{}) string {
 	buf := new(bytes.Buffer)
 	err := t.Execute(buf, v)
-- 
2.43.0


From 582a4f3f4b8fd02c3f61ee4c9e0498c3effe5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:58 +0000
Subject: [PATCH 45/48] fix: encode a nil extension as present when its type is
 an alias of an optional type

---
 pkg/chain/abi.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 395ed7e..b81ca5e 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -200,7 +200,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth
 		for _, f := range fields {
 			fv, exists := vs[f.name]
 			// extensions that are not set are left out, along with everything after them
-			if f.typ.isExtension && (!exists || fv == nil && !f.typ.isOptional) {
+			if f.typ.isExtension && (!exists || fv == nil && !f.typ.canBeNil()) {
 				absent = true
 				continue
 			}
@@ -678,6 +678,17 @@ func (t *resolvedType) String() string {
 	return "type<" + t.name + ">"
 }
 
+// Whether nil is a value of the type, i.e. it is optional or an alias of an optional type.
+func (t *resolvedType) canBeNil() bool {
+	for i := 0; t != nil && i <= maxDepth; i++ {
+		if t.isOptional || t.isArray {
+			return t.isOptional
+		}
+		t = t.ref
+	}
+	return false
+}
+
 func (rt *resolvedType) allFields() []*struct {
 	name string
 	typ  *resolvedType
-- 
2.43.0


From c5fbfc045546783a3bf60b2ab6dcee20c38db3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:58 +0000
Subject: [PATCH 46/48] fix: report structs with an invalid base that are named
 like a built-in type

---
 pkg/chain/abi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index b81ca5e..3fb3356 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -211,6 +211,8 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth
 				return err
 			}
 		}
+	} else if t.fields != nil {
+		return fmt.Errorf("struct %v has an invalid base", t.baseName)
 	} else if variant := t.variant; variant != nil {
 		va, ok := v.([]interface{})
 		if !ok {
@@ -475,6 +477,8 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, dept
 		}
 		*v = vs
 
+	} else if t.fields != nil {
+		return fmt.Errorf("struct %v has an invalid base", t.baseName)
 	} else if variant := t.variant; variant != nil {
 		var idx uint
 		idx, err = dec.ReadVaruint()
-- 
2.43.0


From d2ee503b98e765c08bed29bd1ec8a50e9787881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 47/48] fix: don't allocate for the announced length of every
 level of nested slices

---
 pkg/abi/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 49bf8e0..ed65bb5 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -13,16 +13,19 @@ import (
 // Number of bytes allocated up front for data whose announced length has not been seen yet.
 const maxPrealloc = 64 * 1024
 
+// The same for the elements of a slice, less since each level of nested slices does so.
+const maxElemPrealloc = 1024
+
 // How deep values can be nested, keeps recursive types from exhausting the stack.
 const maxDepth = 10000
 
 // Number of slice elements to allocate up front when l elements are announced.
 func preallocLen(l int, elem reflect.Type) int {
 	size := int(elem.Size())
-	if size == 0 || l <= maxPrealloc/size {
+	if size == 0 || l <= maxElemPrealloc/size {
 		return l
 	}
-	return maxPrealloc/size + 1
+	return maxElemPrealloc/size + 1
 }
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
-- 
2.43.0


From c22ad489c27206cde257c5dc1ebb8d4749db48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 48/48] fix: refuse variant alternatives whose index does not
 fit the index byte

---
 pkg/abi/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index b8b5283..00244c8 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -244,6 +244,9 @@ func (enc *Encoder) encodeVariant(v reflect.Value) error {
 	if idx == -1 {
 		return errors.New("eosio encoder: invalid variant, no value set")
 	}
+	if idx > math.MaxUint8 {
+		return errors.New("eosio encoder: invalid variant, too many alternatives")
+	}
 	if err := enc.WriteByte(byte(idx)); err != nil {
 		return err
 	}
-- 
2.43.0

