From 61df810f88fdeb0386dfc3268088de36a2dd72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 01/30] fix: codec: read whole fields when decoding

A Reader may return fewer bytes than asked for. The decoder took whatever the
first Read returned, so a fragmented stream, or one that ends early, decoded
to a value made up of zero bytes instead of the value sent or an error.
---
 codec/decoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 2549b35..fef63a3 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -14,7 +14,7 @@ import (
 
 func readByte(reader io.Reader) (byte, error) {
 	var data bytes1
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -24,7 +24,7 @@ func readByte(reader io.Reader) (byte, error) {
 
 func readUint16(reader io.Reader) (uint16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -34,7 +34,7 @@ func readUint16(reader io.Reader) (uint16, error) {
 
 func readUint32(reader io.Reader) (uint32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -44,7 +44,7 @@ func readUint32(reader io.Reader) (uint32, error) {
 
 func readUint64(reader io.Reader) (uint64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if err != nil {
 		return 0, err
 	}
@@ -54,7 +54,7 @@ func readUint64(reader io.Reader) (uint64, error) {
 
 func readInt16(reader io.Reader) (int16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -64,7 +64,7 @@ func readInt16(reader io.Reader) (int16, error) {
 
 func readInt32(reader io.Reader) (int32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -74,7 +74,7 @@ func readInt32(reader io.Reader) (int32, error) {
 
 func readInt64(reader io.Reader) (int64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -233,7 +233,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 			}
 
 			data := make(bytes, n)
-			_, err = reader.Read(data)
+			_, err = io.ReadFull(reader, data)
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From 4cd7befb3708b6680c4322e1cf126544527e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 02/30] fix: codec: decode floats whose bits fit a narrower
 integer

The encoder writes the bits of a float as the smallest unsigned integer that
holds them; the decoder accepted only uint32 and uint64 and panicked on 0.0
and every other small bit pattern, and on anything else sent in their place.
---
 codec/decoder.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index fef63a3..a8c4790 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -118,6 +118,28 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 	return dict, nil
 }
 
+// decodeFloatBits reads the bits of a float, which are encoded as the smallest
+// unsigned integer holding them.
+func decodeFloatBits(reader io.Reader) (uint64, error) {
+	v, err := decode(reader)
+	if nil != err {
+		return 0, err
+	}
+
+	switch bits := v.(type) {
+	case uint8:
+		return uint64(bits), nil
+	case uint16:
+		return uint64(bits), nil
+	case uint32:
+		return uint64(bits), nil
+	case uint64:
+		return bits, nil
+	}
+
+	return 0, fmt.Errorf("Invalid float bits: %T", v)
+}
+
 func decode(reader io.Reader) (v interface{}, err error) {
 	c, err := readByte(reader)
 	if nil != err {
@@ -133,21 +155,24 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		return true, nil
 	case cFloat32:
 		{
-			data, err := decode(reader)
+			data, err := decodeFloatBits(reader)
 			if nil != err {
 				return nil, err
 			}
+			if data > math.MaxUint32 {
+				return nil, fmt.Errorf("Invalid float32: %x", data)
+			}
 
-			return math.Float32frombits(data.(uint32)), nil
+			return math.Float32frombits(uint32(data)), nil
 		}
 	case cFloat64:
 		{
-			data, err := decode(reader)
+			data, err := decodeFloatBits(reader)
 			if nil != err {
 				return nil, err
 			}
 
-			return math.Float64frombits(data.(uint64)), nil
+			return math.Float64frombits(data), nil
 		}
 	case cUint8:
 		{
-- 
2.43.0


From 59fb129783bd84dbdb00b6262664062842d7b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 03/30] fix: codec: reject lists and maps as map keys when
 decoding

They cannot be keys of a Go map: storing one panicked.
---
 codec/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/decoder.go b/codec/decoder.go
index a8c4790..a2e37bf 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -106,6 +106,10 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 		if nil != err {
 			return nil, err
 		}
+		switch k.(type) {
+		case []interface{}, map[interface{}]interface{}:
+			return nil, fmt.Errorf("Unsupported map key type: %T", k)
+		}
 
 		v, err := decode(reader)
 		if nil != err {
-- 
2.43.0


From 2c29c5be4376fbaa340354b8b4894e8540529f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 04/30] fix: codec: do not allocate what a length prefix claims

A five byte input claiming a string or list of 2^32-1 elements made the decoder
allocate gigabytes before reading the first one.
---
 codec/decoder.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index a2e37bf..23ed471 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -82,16 +82,37 @@ func readInt64(reader io.Reader) (int64, error) {
 	return (int64(data[0]) << 56) | (int64(data[1]) << 48) | (int64(data[2]) << 40) | (int64(data[3]) << 32) | (int64(data[4]) << 24) | (int64(data[5]) << 16) | (int64(data[6]) << 8) | int64(data[7]), nil
 }
 
+// readBytes reads n bytes. n is not trusted: the buffer grows as bytes arrive.
+func readBytes(reader io.Reader, n uint) (bytes, error) {
+	const chunk = 64 * 1024
+	var data bytes
+	for uint(len(data)) < n {
+		more := n - uint(len(data))
+		if more > chunk {
+			more = chunk
+		}
+
+		start := len(data)
+		data = append(data, make(bytes, more)...)
+		_, err := io.ReadFull(reader, data[start:])
+		if nil != err {
+			return nil, err
+		}
+	}
+
+	return data, nil
+}
+
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
-	arr := make([]interface{}, count)
+	arr := make([]interface{}, 0) // count is not trusted: grow as elements arrive
 	for i = 0; i < count; i++ {
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
 		}
 
-		arr[i] = v
+		arr = append(arr, v)
 	}
 
 	return arr, nil
@@ -261,8 +282,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return "", nil
 			}
 
-			data := make(bytes, n)
-			_, err = io.ReadFull(reader, data)
+			data, err := readBytes(reader, uint(n))
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From df9d0df9795c3e3b18c2d1da5a57108dc8bf3863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 05/30] fix: codec: report a failed write of a float's type
 code

---
 codec/encoder.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/codec/encoder.go b/codec/encoder.go
index cd3b3d5..5c85c66 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -26,13 +26,23 @@ func encodeBool(writer io.Writer, value bool) (n int, err error) {
 }
 
 func encodeFloat32(writer io.Writer, value float32) (n int, err error) {
-	writer.Write(bytes{cFloat32})
-	return encodeUint32(writer, math.Float32bits(value))
+	n, err = writer.Write(bytes{cFloat32})
+	if nil != err {
+		return n, err
+	}
+
+	nv, err := encodeUint32(writer, math.Float32bits(value))
+	return n + nv, err
 }
 
 func encodeFloat64(writer io.Writer, value float64) (n int, err error) {
-	writer.Write(bytes{cFloat64})
-	return encodeUint64(writer, math.Float64bits(value))
+	n, err = writer.Write(bytes{cFloat64})
+	if nil != err {
+		return n, err
+	}
+
+	nv, err := encodeUint64(writer, math.Float64bits(value))
+	return n + nv, err
 }
 
 func encodeUint8(writer io.Writer, value uint8) (n int, err error) {
-- 
2.43.0


From e4ee60662adb4e70a4c0d77d0dbfef27ffdaf37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 06/30] fix: codec: keep the held value when decoding fails

A failed Decode replaced the value but not its type: the accessors of the
old type then panicked.
---
 codec/any.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 6a93f5c..a895c48 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -249,12 +249,12 @@ func (a *any) Encode(writer io.Writer) error {
 }
 
 func (a *any) Decode(reader io.Reader) error {
-	var err error
-	a.s, err = decode(reader)
+	v, err := decode(reader)
 	if err != nil {
 		return err
 	}
 
+	a.s = v
 	a.normalize()
 
 	return nil
-- 
2.43.0


From 57fc48d4efc8e08950d2bb5cbe01bbc83885782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 07/30] fix: codec: accessors of int, uint, named and typed
 container values

An IAny made from an int, a uint or a value of a named type refused every
accessor although Encode takes it, and Arr and Map panicked on a container of
any type but []interface{} and map[interface{}]interface{}.
---
 codec/API.go |  2 +-
 codec/any.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/codec/API.go b/codec/API.go
index 355fda5..a1f55fb 100644
--- a/codec/API.go
+++ b/codec/API.go
@@ -70,7 +70,7 @@ type IAny interface {
 
 // NewAny create an IAny object contains value.
 func NewAny(value interface{}) IAny {
-	a := &any{s: value}
+	a := &any{src: value}
 	a.normalize()
 
 	return a
diff --git a/codec/any.go b/codec/any.go
index a895c48..1873659 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -31,12 +31,13 @@ const (
 )
 
 type any struct {
-	s  interface{}
-	tp aType
+	src interface{} // the value as given
+	s   interface{} // the value as the type tp stands for
+	tp  aType
 }
 
 func (a *any) Any() interface{} {
-	return a.s
+	return a.src
 }
 
 func (a *any) Bool() (bool, error) {
@@ -229,7 +230,17 @@ func (a *any) Float64() (float64, error) {
 
 func (a *any) Arr() ([]interface{}, error) {
 	if aArr == a.tp {
-		return a.s.([]interface{}), nil
+		if arr, ok := a.s.([]interface{}); ok {
+			return arr, nil
+		}
+
+		v := reflect.ValueOf(a.s)
+		arr := make([]interface{}, v.Len())
+		for i := range arr {
+			arr[i] = v.Index(i).Interface()
+		}
+
+		return arr, nil
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to array!", a.tp)
@@ -237,14 +248,24 @@ func (a *any) Arr() ([]interface{}, error) {
 
 func (a *any) Map() (map[interface{}]interface{}, error) {
 	if aMap == a.tp {
-		return a.s.(map[interface{}]interface{}), nil
+		if dict, ok := a.s.(map[interface{}]interface{}); ok {
+			return dict, nil
+		}
+
+		v := reflect.ValueOf(a.s)
+		dict := make(map[interface{}]interface{}, v.Len())
+		for _, k := range v.MapKeys() {
+			dict[k.Interface()] = v.MapIndex(k).Interface()
+		}
+
+		return dict, nil
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to map!", a.tp)
 }
 
 func (a *any) Encode(writer io.Writer) error {
-	_, err := encode(writer, a.s)
+	_, err := encode(writer, a.src)
 	return err
 }
 
@@ -254,13 +275,14 @@ func (a *any) Decode(reader io.Reader) error {
 		return err
 	}
 
-	a.s = v
+	a.src = v
 	a.normalize()
 
 	return nil
 }
 
 func (a *any) normalize() {
+	a.s = a.src
 	if nil == a.s {
 		a.tp = aNil
 	}
@@ -293,6 +315,16 @@ func (a *any) normalize() {
 	default:
 		vt := reflect.ValueOf(a.s)
 		switch vt.Kind() {
+		case reflect.Bool:
+			a.s, a.tp = vt.Bool(), aBool
+		case reflect.String:
+			a.s, a.tp = vt.String(), aString
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			a.s, a.tp = vt.Int(), aInt64
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+			a.s, a.tp = vt.Uint(), aUint64
+		case reflect.Float32, reflect.Float64:
+			a.s, a.tp = vt.Float(), aFloat64
 		case reflect.Array, reflect.Slice:
 			a.tp = aArr
 		case reflect.Map:
-- 
2.43.0


From cb230ae4e6756126f7b190a07bba1ebcfd69330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 08/30] fix: chancall: keep the fraction of a configured
 timeout

---
 chancall/callee.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index f75d9e5..03d78c0 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -62,7 +62,7 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 
 func track(request *callRequest, timeout float32) {
 	go func() {
-		time.Sleep(time.Duration(timeout) * time.Second)
+		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From 205030f265312d0e4da5b8ff897356481e73c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 09/30] fix: chancall: return an error for calls that cannot be
 executed

---
 chancall/callee.go |  4 ++--
 chancall/meta.go   | 53 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 03d78c0..d7f4f14 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -34,8 +34,8 @@ func (c *callee) handling() {
 
 func (c *callee) process(request *callRequest) (err error) {
 	track(request, c.meta.timeout(request.method))
-	result := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result})
+	result, err := c.meta.call(request.method, request.args...)
+	return c.result(request, &callResponse{result: result, err: err})
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
diff --git a/chancall/meta.go b/chancall/meta.go
index 24ba9d8..85e9d55 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -5,6 +5,7 @@
 package chancall
 
 import (
+	"fmt"
 	"reflect"
 )
 
@@ -41,12 +42,20 @@ func (m *meta) collect(target interface{}) {
 	}
 }
 
-func (m *meta) call(method string, args ...interface{}) []interface{} {
+func (m *meta) call(method string, args ...interface{}) ([]interface{}, error) {
 	f := m.funcs[method]
 	if nil != f && f.fn.IsValid() {
+		if !f.accept(len(args)) {
+			return nil, fmt.Errorf("[%s] function does NOT accept %d arguments!", method, len(args))
+		}
+
 		params := make([]reflect.Value, 0)
 		for i, arg := range args {
-			params = append(params, reflect.ValueOf(arg).Convert(f.ft.In(i)))
+			param, err := convert(arg, f.in(i))
+			if nil != err {
+				return nil, fmt.Errorf("[%s] function argument %d: %s", method, i, err.Error())
+			}
+			params = append(params, param)
 		}
 		ret := f.fn.Call(params)
 
@@ -55,10 +64,46 @@ func (m *meta) call(method string, args ...interface{}) []interface{} {
 			result[i] = r.Interface()
 		}
 
-		return result
+		return result, nil
 	}
 
-	return nil
+	return nil, fmt.Errorf("[%s] function NOT found!", method)
+}
+
+// accept checks whether the function could be called with count arguments.
+func (f *fcall) accept(count int) bool {
+	if f.ft.IsVariadic() {
+		return count >= f.ft.NumIn()-1
+	}
+
+	return count == f.ft.NumIn()
+}
+
+// in returns the type of the argument at index.
+func (f *fcall) in(index int) reflect.Type {
+	if last := f.ft.NumIn() - 1; f.ft.IsVariadic() && index >= last {
+		return f.ft.In(last).Elem()
+	}
+
+	return f.ft.In(index)
+}
+
+func convert(arg interface{}, t reflect.Type) (value reflect.Value, err error) {
+	if nil == arg {
+		switch t.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			return reflect.Zero(t), nil
+		}
+		return value, fmt.Errorf("nil is NOT a %s", t)
+	}
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	return reflect.ValueOf(arg).Convert(t), nil
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From d6801d03fef4091d12cdfb0702f04b24c353ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 10/30] fix: chancall: a caller used by several goroutines
 keeps their responses apart

---
 chancall/API.go    |  1 -
 chancall/caller.go | 13 +++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/chancall/API.go b/chancall/API.go
index 98ee2df..fa81444 100644
--- a/chancall/API.go
+++ b/chancall/API.go
@@ -37,7 +37,6 @@ func NewCallee(name string, target interface{}) ICallee {
 func NewCaller(c ICallee) ICaller {
 	caller := new(caller)
 	caller.callee = c.(*callee)
-	caller.callResponse = make(chan *callResponse, 1)
 
 	return caller
 }
diff --git a/chancall/caller.go b/chancall/caller.go
index ade1f1e..a186535 100644
--- a/chancall/caller.go
+++ b/chancall/caller.go
@@ -9,37 +9,38 @@ import (
 )
 
 type caller struct {
-	callee       *callee
-	callResponse chan *callResponse
+	callee *callee
 }
 
 func (c *caller) Call(method string, args ...interface{}) error {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.err
 }
 
 func (c *caller) CallWithResult(method string, args ...interface{}) ([]interface{}, error) {
+	callResponse := make(chan *callResponse, 1)
 	err := c.call(&callRequest{
 		method:       method,
 		args:         args,
-		callResponse: c.callResponse,
+		callResponse: callResponse,
 		done:         false,
 	}, true)
 	if nil != err {
 		return nil, err
 	}
 
-	response := <-c.callResponse
+	response := <-callResponse
 	return response.result, response.err
 }
 
-- 
2.43.0


From 92a858e642c20aebd36b1a8a72afb893734383ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 11/30] fix: network: guard the serializer registry and keep a
 registered txt

---
 network/API.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/network/API.go b/network/API.go
index c33d905..13e23a1 100644
--- a/network/API.go
+++ b/network/API.go
@@ -65,12 +65,11 @@ type ISocketSink interface {
 
 // NewSocket create a socket with addr, serializer type and callback sink object.
 func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
-	once.Do(func() {
-		ExtendSerializer("txt", new(txtSerializer))
-	})
 	s := new(socket)
 	s.addr = addr
+	serializersMutex.RLock()
 	s.serializer = serializers[serializer]
+	serializersMutex.RUnlock()
 	s.sink = sink
 
 	return s
@@ -84,10 +83,14 @@ func Mock(network string) {
 
 // ExtendSerializer extend serializer type with name and handling object.
 func ExtendSerializer(name string, serializer ISerializer) {
+	serializersMutex.Lock()
 	serializers[name] = serializer
+	serializersMutex.Unlock()
 }
 
 var (
-	serializers map[string]ISerializer = make(map[string]ISerializer)
-	once        sync.Once
+	serializersMutex sync.RWMutex
+	serializers      map[string]ISerializer = map[string]ISerializer{
+		"txt": new(txtSerializer),
+	}
 )
-- 
2.43.0


From 22d28e8e7a4c48c2a29f36fb6325d9319d71705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 12/30] fix: network: close every connection of a socket and
 report it once

---
 network/peer.go   | 32 ++++++++++++++---
 network/socket.go | 90 ++++++++++++++++++++++++++++++++---------------
 2 files changed, 88 insertions(+), 34 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index d7fae50..09d8427 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -37,6 +37,8 @@ type peer struct {
 	sendPackets chan interface{}
 	recvBytes   []byte
 	recvBuffer  *bytes.Buffer
+	announced   bool
+	closed      bool
 }
 
 func (p *peer) IsSelf() bool {
@@ -52,11 +54,26 @@ func (p *peer) RemoteAddr() net.Addr {
 }
 
 func (p *peer) Send(obj interface{}) {
-	if len(p.sendPackets) == cap(p.sendPackets) {
+	select {
+	case p.sendPackets <- obj:
+	default:
+	}
+}
+
+func (p *peer) connected() {
+	if nil == p.sink {
 		return
 	}
+	p.sink.OnConnected(p)
+
+	p.Lock()
+	p.announced = true
+	closed := p.closed
+	p.Unlock()
 
-	p.sendPackets <- obj
+	if closed {
+		p.sink.OnClosed(p)
+	}
 }
 
 func (p *peer) run() {
@@ -102,13 +119,18 @@ func (p *peer) run() {
 
 func (p *peer) close() {
 	p.Lock()
-	defer p.Unlock()
+	closed := p.closed
+	p.closed = true
+	announced := p.announced
+	p.Unlock()
+	if closed {
+		return
+	}
 
 	p.Send(nil)
 
-	if nil != p.sink {
+	if announced {
 		p.sink.OnClosed(p)
-		p.sink = nil
 	}
 
 	p.conn.Close()
diff --git a/network/socket.go b/network/socket.go
index be2a02a..6a81ed5 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -7,47 +7,51 @@ package network
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type socket struct {
-	net        inet
+	sync.Mutex
 	sink       ISocketSink
 	addr       string
 	listener   net.Listener
 	serializer ISerializer
 	peers      []*peer
+	closes     int
 }
 
 func (s *socket) Listen() {
-	var err error
-	s.net, err = makeNet("tcp")
+	closes := s.closeCount()
+	net, err := makeNet("tcp")
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
-	s.listener, err = s.net.Listen("tcp", s.addr)
+	listener, err := net.Listen("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
+	s.Lock()
+	if closes != s.closes {
+		s.Unlock()
+		listener.Close()
+		return
+	}
+	s.listener = listener
+	s.Unlock()
+
 	go func() {
 		for {
-			conn, err := s.listener.Accept()
+			conn, err := listener.Accept()
 			if nil != err {
 				log.Println(err)
 				return
 			}
 
-			peer := newPeer(conn, s.serializer, s.sink, false)
-			s.peers = append(s.peers, peer)
-
-			if nil != s.sink {
-				s.sink.OnConnected(peer)
-			}
-
-			peer.run()
+			s.connect(conn, false, closes)
 		}
 	}()
 }
@@ -58,43 +62,71 @@ func (s *socket) Dial() {
 		return
 	}
 
-	var err error
-	s.net, err = makeNet("tcp")
+	closes := s.closeCount()
+	net, err := makeNet("tcp")
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
-	conn, err := s.net.Dial("tcp", s.addr)
+	conn, err := net.Dial("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
-	peer := newPeer(conn, s.serializer, s.sink, true)
-	s.peers = append(s.peers, peer)
-
-	if nil != s.sink {
-		s.sink.OnConnected(peer)
-	}
-
-	peer.run()
+	s.connect(conn, true, closes)
 }
 
 func (s *socket) Close() {
+	s.Lock()
+	s.closes++
+	listener := s.listener
+	peers := s.peers
+	s.peers = nil
+	s.Unlock()
+
 	// NOTE: Only close listener, but not set to nil
-	if nil != s.listener {
-		s.listener.Close()
+	if nil != listener {
+		listener.Close()
 	}
 
-	for _, peer := range s.peers {
+	for _, peer := range peers {
 		peer.close()
 	}
-	s.peers = nil
 }
 
 func (s *socket) Send(obj interface{}) {
-	for _, peer := range s.peers {
+	s.Lock()
+	peers := s.peers
+	s.Unlock()
+
+	for _, peer := range peers {
 		peer.Send(obj)
 	}
 }
+
+func (s *socket) closeCount() int {
+	s.Lock()
+	defer s.Unlock()
+
+	return s.closes
+}
+
+// connect makes the connection a peer of the socket, unless the socket was
+// closed since it began to listen or dial.
+func (s *socket) connect(conn net.Conn, self bool, closes int) {
+	peer := newPeer(conn, s.serializer, s.sink, self)
+
+	s.Lock()
+	if closes != s.closes {
+		s.Unlock()
+		conn.Close()
+		return
+	}
+	s.peers = append(s.peers, peer)
+	s.Unlock()
+
+	peer.connected()
+	peer.run()
+}
-- 
2.43.0


From 7d5fdf08df4f72f820bd74a465442a6fcd3ac769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 13/30] fix: network: report a connection the other side closed

---
 network/peer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index 09d8427..ad738ca 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -88,6 +88,8 @@ func (p *peer) run() {
 			data := p.serializer.Marshal(packet)
 			_, err := p.conn.Write(data)
 			if nil != err {
+				// The recv routine sees this and closes the peer
+				p.conn.Close()
 				break
 			}
 		}
@@ -96,11 +98,7 @@ func (p *peer) run() {
 	// Recv routine
 	go func() {
 		for {
-			size, err := p.conn.Read(p.recvBytes)
-			if nil != err {
-				break
-			}
-
+			size, failure := p.conn.Read(p.recvBytes)
 			p.recvBuffer.Write(p.recvBytes[:size])
 			for length := p.serializer.Slice(p.recvBuffer.Bytes()); length > 0; length = p.serializer.Slice(p.recvBuffer.Bytes()) {
 				slice := make([]byte, length)
@@ -113,7 +111,12 @@ func (p *peer) run() {
 					p.sink.OnPacket(p, obj)
 				}
 			}
+
+			if nil != failure {
+				break
+			}
 		}
+		p.close()
 	}()
 }
 
-- 
2.43.0


From aecaf627997175e0065dc95712919ba8923a0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:16 +0000
Subject: [PATCH 14/30] fix: network: mock connections carry any amount of data
 and their end

---
 network/mock.go | 158 ++++++++++++++++++++++++++++--------------------
 1 file changed, 91 insertions(+), 67 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index e00f205..d06886d 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -33,8 +33,8 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 			network: network,
 			address: address,
 		},
-		chanconn: make(chan *conn, 1),
-		conns:    make(map[string]*conn),
+		chanconn: make(chan *conn),
+		closed:   make(chan bool),
 	}
 	listenersMutex.Lock()
 	listeners[address] = listener
@@ -44,49 +44,48 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 }
 
 func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
-	c := newConn()
-	connected := make(chan bool, 1)
-	go func() {
-		address = formatAddr(address)
-		timeout := 1 * time.Second
-		for {
-			if 0 == c.status {
-				listener := listeners[address]
-				if nil != listener {
-					vport += 1
-					c.status = 1
-					c.localAddr.network = network
-					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
-					c.remoteAddr = listener.address
-					listener.chanconn <- c
-				}
-			} else if 2 == c.status {
-				break
-			} else if timeout <= 0 {
-				c.status = -1
-				break
+	address = formatAddr(address)
+	timeout := 1 * time.Second
+	for timeout > 0 {
+		listenersMutex.Lock()
+		listener := listeners[address]
+		if nil != listener {
+			vport += 1
+		}
+		port := vport
+		listenersMutex.Unlock()
+
+		if nil != listener {
+			c, peer := newConn(), newConn()
+			c.localAddr.network = network
+			c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", port)
+			c.remoteAddr = listener.address
+			c.peer = peer
+			peer.localAddr = listener.address
+			peer.remoteAddr = c.localAddr
+			peer.peer = c
+
+			select {
+			case listener.chanconn <- peer:
+				return c, nil
+			case <-listener.closed:
+			case <-time.After(timeout):
+				timeout = 0
 			}
-
-			timeout -= time.Microsecond
-			time.Sleep(time.Microsecond)
 		}
 
-		connected <- (2 == c.status)
-	}()
-
-	succ := <-connected
-	if succ {
-		return c, nil
-	} else {
-		return nil, errors.New("Can't connect server")
+		timeout -= time.Microsecond
+		time.Sleep(time.Microsecond)
 	}
+
+	return nil, errors.New("Can't connect server")
 }
 
 func reset() {
 	listenersMutex.Lock()
 	listeners = make(map[string]*listener)
-	listenersMutex.Unlock()
 	vport = 65535
+	listenersMutex.Unlock()
 }
 
 func formatAddr(addr string) string {
@@ -97,31 +96,29 @@ func formatAddr(addr string) string {
 type listener struct {
 	address  *addr
 	chanconn chan *conn
-	conns    map[string]*conn
+	closed   chan bool
+	once     sync.Once
 }
 
 func (l *listener) Accept() (net.Conn, error) {
-	inconn := <-l.chanconn
-	if nil == inconn {
+	select {
+	case inconn := <-l.chanconn:
+		return inconn, nil
+	case <-l.closed:
 		return nil, fmt.Errorf("Listener closed!")
 	}
-
-	c := newConn()
-	c.localAddr = l.address
-	c.remoteAddr = inconn.localAddr
-	c.peer = inconn
-
-	inconn.peer = c
-	inconn.status = 2
-
-	l.conns[inconn.localAddr.String()] = inconn
-
-	return c, nil
 }
 
 func (l *listener) Close() error {
-	l.chanconn <- nil
-	l.conns = nil
+	l.once.Do(func() {
+		listenersMutex.Lock()
+		if l == listeners[l.address.address] {
+			delete(listeners, l.address.address)
+		}
+		listenersMutex.Unlock()
+
+		close(l.closed)
+	})
 
 	return nil
 }
@@ -132,43 +129,70 @@ func (l *listener) Addr() net.Addr {
 
 func newConn() *conn {
 	c := new(conn)
-	c.status = 0
 	c.localAddr = new(addr)
 	c.remoteAddr = new(addr)
-	c.chanbuf = make(chan []byte, 1)
+	c.arrived = sync.NewCond(&c.mutex)
 
 	return c
 }
 
 type conn struct {
-	status     int
 	localAddr  *addr
 	remoteAddr *addr
 	peer       *conn
-	chanbuf    chan []byte
+	mutex      sync.Mutex
+	arrived    *sync.Cond
+	buf        []byte // written by the peer, not read yet
+	ended      bool   // the peer is closed
+	closed     bool
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
-	bytes := <-c.chanbuf
-	if nil == bytes {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for 0 == len(c.buf) && !c.ended && !c.closed {
+		c.arrived.Wait()
+	}
+	if c.closed {
+		return 0, fmt.Errorf("Conn is closed!")
+	}
+	if 0 == len(c.buf) {
 		return 0, fmt.Errorf("Target peer is closed!")
-	} else {
-		return copy(b, bytes), nil
 	}
+
+	n = copy(b, c.buf)
+	c.buf = c.buf[n:]
+	return n, nil
 }
 
 func (c *conn) Write(b []byte) (n int, err error) {
-	if nil != c.peer {
-		c.peer.chanbuf <- b
-		return len(b), nil
-	} else {
-		return 0, fmt.Errorf("Conn is nil!")
+	c.mutex.Lock()
+	broken := c.closed || c.ended
+	c.mutex.Unlock()
+	if broken {
+		return 0, fmt.Errorf("Conn is closed!")
 	}
+
+	c.peer.mutex.Lock()
+	c.peer.buf = append(c.peer.buf, b...)
+	c.peer.mutex.Unlock()
+	c.peer.arrived.Broadcast()
+
+	return len(b), nil
 }
 
 func (c *conn) Close() error {
-	c.Write(nil)
-	c.peer = nil
+	c.mutex.Lock()
+	c.closed = true
+	c.mutex.Unlock()
+	c.arrived.Broadcast()
+
+	c.peer.mutex.Lock()
+	c.peer.ended = true
+	c.peer.mutex.Unlock()
+	c.peer.arrived.Broadcast()
+
 	return nil
 }
 
-- 
2.43.0


From 0e5ddad63b54e2af4058d03ff156cfde7ce21e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 15/30] fix: drop malformed packets instead of exiting

---
 dock.go       |  6 +++++-
 hub.go        |  6 +++++-
 protocol.go   | 13 +++++++++++--
 serializer.go | 10 +++++++---
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/dock.go b/dock.go
index 7039e6e..93e81ba 100644
--- a/dock.go
+++ b/dock.go
@@ -73,7 +73,11 @@ func (d *dock) OnClosed(peer network.IPeer) {
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		// Malformed packet
+		return
+	}
 	switch pack.Id {
 	case cError:
 		{
diff --git a/hub.go b/hub.go
index df51a2c..a980b0a 100644
--- a/hub.go
+++ b/hub.go
@@ -59,7 +59,11 @@ func (h *hub) OnClosed(peer network.IPeer) {
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		// Malformed packet
+		return
+	}
 	switch pack.Id {
 	case cRegisterRequest:
 		{
diff --git a/protocol.go b/protocol.go
index 63d7b5e..17eaf89 100644
--- a/protocol.go
+++ b/protocol.go
@@ -5,6 +5,7 @@
 package ferry
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/muguangyi/ferry/codec"
@@ -104,7 +105,11 @@ func (p *protoReady) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("Slot name is not a string: %v", iv)
+		}
+		p.Slots[i] = slot
 	}
 
 	return nil
@@ -133,7 +138,11 @@ func (p *protoRegisterRequest) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		slot, ok := iv.(string)
+		if !ok {
+			return fmt.Errorf("Slot name is not a string: %v", iv)
+		}
+		p.Slots[i] = slot
 	}
 
 	return nil
diff --git a/serializer.go b/serializer.go
index 76bafb7..ddc298f 100644
--- a/serializer.go
+++ b/serializer.go
@@ -72,20 +72,24 @@ func (s *serializer) Unmarshal(data []byte) interface{} {
 	any := codec.NewAny(nil)
 	err := any.Decode(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 	value, err := any.Uint8()
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
 	id := cProtoType(value)
 	p := s.maker(id)
+	if nil == p {
+		log.Printf("Unknown packet type: %d", value)
+		return nil
+	}
 	err = p.Unmarshal(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
-- 
2.43.0


From 159823d962bfaca8ee508bb26753dec2a49517da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:29 +0000
Subject: [PATCH 16/30] fix: do not exit when a received address or port cannot
 be used

---
 dock.go           | 14 +++++++++++---
 hub.go            |  4 +++-
 network/API.go    |  4 ++--
 network/socket.go | 25 ++++++++++++-------------
 4 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/dock.go b/dock.go
index 93e81ba..fca37c9 100644
--- a/dock.go
+++ b/dock.go
@@ -122,7 +122,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			resp := pack.P.(*protoRegisterResponse)
 			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
-			socket.Listen()
+			if err := socket.Listen(); nil != err {
+				log.Println(err)
+				return
+			}
 			d.sockets = append(d.sockets, socket)
 
 			// Send DockReadyRequest to Hub.
@@ -139,7 +142,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
-			socket.Dial()
+			if err := socket.Dial(); nil != err {
+				log.Println(err)
+				return
+			}
 			d.sockets = append(d.sockets, socket)
 		}
 	case cRpcRequest:
@@ -204,7 +210,9 @@ func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
 	socket := network.NewSocket(hubAddr, "ferry", d)
-	socket.Dial()
+	if err := socket.Dial(); nil != err {
+		log.Fatal(err)
+	}
 	d.sockets = append(d.sockets, socket)
 }
 
diff --git a/hub.go b/hub.go
index a980b0a..abf0adb 100644
--- a/hub.go
+++ b/hub.go
@@ -143,7 +143,9 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 	network.ExtendSerializer("seek", newSerializer())
 
 	h.socket = network.NewSocket(hubAddr, "seek", h)
-	h.socket.Listen()
+	if err := h.socket.Listen(); nil != err {
+		log.Fatal(err)
+	}
 }
 
 func (h *hub) allocate(addr string) int {
diff --git a/network/API.go b/network/API.go
index 13e23a1..8d07c03 100644
--- a/network/API.go
+++ b/network/API.go
@@ -24,10 +24,10 @@ type ISerializer interface {
 // ISocket interface.
 type ISocket interface {
 	// Listen for all connecting peers.
-	Listen()
+	Listen() error
 
 	// Dial to target socket.
-	Dial()
+	Dial() error
 
 	// Close the socket.
 	Close()
diff --git a/network/socket.go b/network/socket.go
index 6a81ed5..14b3541 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -5,6 +5,7 @@
 package network
 
 import (
+	"errors"
 	"log"
 	"net"
 	"sync"
@@ -20,25 +21,23 @@ type socket struct {
 	closes     int
 }
 
-func (s *socket) Listen() {
+func (s *socket) Listen() error {
 	closes := s.closeCount()
 	net, err := makeNet("tcp")
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	listener, err := net.Listen("tcp", s.addr)
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	s.Lock()
 	if closes != s.closes {
 		s.Unlock()
 		listener.Close()
-		return
+		return nil
 	}
 	s.listener = listener
 	s.Unlock()
@@ -54,28 +53,28 @@ func (s *socket) Listen() {
 			s.connect(conn, false, closes)
 		}
 	}()
+
+	return nil
 }
 
-func (s *socket) Dial() {
+func (s *socket) Dial() error {
 	if nil == s.sink {
-		log.Fatal("Please call Init first!")
-		return
+		return errors.New("Please call Init first!")
 	}
 
 	closes := s.closeCount()
 	net, err := makeNet("tcp")
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	conn, err := net.Dial("tcp", s.addr)
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	s.connect(conn, true, closes)
+	return nil
 }
 
 func (s *socket) Close() {
-- 
2.43.0


From 43d3a7134874cc37243eb3acacd52e5ea616b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 17/30] fix: hub: guard the list of docks and wait for a ready
 one without spinning

---
 hub.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hub.go b/hub.go
index abf0adb..0b7f104 100644
--- a/hub.go
+++ b/hub.go
@@ -20,16 +20,20 @@ const (
 )
 
 func newHub() *hub {
-	return &hub{
+	h := &hub{
 		docks:       make(map[string]*list.List),
 		assignPorts: make(map[string]int),
 		blackPorts:  make(map[int]bool),
 	}
+	h.docksReady = sync.NewCond(&h.docksMutex)
+
+	return h
 }
 
 type hub struct {
 	socket           network.ISocket
 	docksMutex       sync.Mutex
+	docksReady       *sync.Cond
 	docks            map[string]*list.List
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
@@ -98,7 +102,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			for _, slot := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[slot]
-				h.docksMutex.Unlock()
 				if ok {
 					for i := stubs.Front(); i != nil; i = i.Next() {
 						stub := i.Value.(*stub)
@@ -108,16 +111,18 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+				h.docksMutex.Unlock()
 			}
+			h.docksReady.Broadcast()
 		}
 	case cQueryRequest:
 		{
 			go func() {
 				req := pack.P.(*protoQueryRequest)
+				h.docksMutex.Lock()
+				defer h.docksMutex.Unlock()
 				for {
-					h.docksMutex.Lock()
 					docks, ok := h.docks[req.Slot]
-					h.docksMutex.Unlock()
 					if ok {
 						// Loop from back to front, means the 'new' one will
 						// be serve at first.
@@ -129,6 +134,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 							}
 						}
 					}
+					h.docksReady.Wait()
 				}
 			}()
 		}
-- 
2.43.0


From 13c959cdb912fe0f7720f1e74f6cdafc0780b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:35 +0000
Subject: [PATCH 18/30] fix: hub: a packet that arrives while closing does not
 crash

---
 hub.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hub.go b/hub.go
index 0b7f104..73f413b 100644
--- a/hub.go
+++ b/hub.go
@@ -35,6 +35,7 @@ type hub struct {
 	docksMutex       sync.Mutex
 	docksReady       *sync.Cond
 	docks            map[string]*list.List
+	closed           bool
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
 	blackPorts       map[int]bool
@@ -48,10 +49,13 @@ type stub struct {
 
 func (h *hub) Close() {
 	h.socket.Close()
-	h.socket = nil
-	h.docks = nil
-	h.assignPorts = nil
-	h.blackPorts = nil
+
+	// NOTE: A packet may still be on its way through OnPacket, so all maps
+	// are kept.
+	h.docksMutex.Lock()
+	h.closed = true
+	h.docksMutex.Unlock()
+	h.docksReady.Broadcast()
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
@@ -121,7 +125,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				req := pack.P.(*protoQueryRequest)
 				h.docksMutex.Lock()
 				defer h.docksMutex.Unlock()
-				for {
+				for !h.closed {
 					docks, ok := h.docks[req.Slot]
 					if ok {
 						// Loop from back to front, means the 'new' one will
-- 
2.43.0


From 51ca7c298947ec3577eced28fa65d707ccc5cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:36 +0000
Subject: [PATCH 19/30] fix: advertise docks on IPv6 hosts and listen there

---
 dock.go |  2 +-
 hub.go  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dock.go b/dock.go
index fca37c9..6abec43 100644
--- a/dock.go
+++ b/dock.go
@@ -120,7 +120,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
-			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
+			listenAddr := fmt.Sprintf(":%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
 			if err := socket.Listen(); nil != err {
 				log.Println(err)
diff --git a/hub.go b/hub.go
index 73f413b..346d733 100644
--- a/hub.go
+++ b/hub.go
@@ -6,9 +6,9 @@ package ferry
 
 import (
 	"container/list"
-	"fmt"
 	"log"
-	"strings"
+	"net"
+	"strconv"
 	"sync"
 
 	"github.com/muguangyi/ferry/network"
@@ -80,7 +80,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			addr := pickIP(peer.RemoteAddr().String())
 			port := h.allocate(addr)
 
-			addr = fmt.Sprintf("%s:%d", addr, port)
+			addr = net.JoinHostPort(addr, strconv.Itoa(port))
 			for _, v := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[v]
@@ -195,6 +195,10 @@ func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
 }
 
 func pickIP(addr string) string {
-	info := strings.Split(addr, ":")
-	return info[0]
+	ip, _, err := net.SplitHostPort(addr)
+	if nil != err {
+		return addr
+	}
+
+	return ip
 }
-- 
2.43.0


From 8ed6b7901de87d64d427f59506aaa84ba1acdf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 20/30] fix: hub: do not exit when a host has no port left

---
 hub.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hub.go b/hub.go
index 346d733..60a3dd5 100644
--- a/hub.go
+++ b/hub.go
@@ -6,6 +6,7 @@ package ferry
 
 import (
 	"container/list"
+	"errors"
 	"log"
 	"net"
 	"strconv"
@@ -78,7 +79,11 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			req := pack.P.(*protoRegisterRequest)
 
 			addr := pickIP(peer.RemoteAddr().String())
-			port := h.allocate(addr)
+			port, err := h.allocate(addr)
+			if nil != err {
+				log.Println(err)
+				return
+			}
 
 			addr = net.JoinHostPort(addr, strconv.Itoa(port))
 			for _, v := range req.Slots {
@@ -158,7 +163,7 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 	}
 }
 
-func (h *hub) allocate(addr string) int {
+func (h *hub) allocate(addr string) (int, error) {
 	h.assignPortsMutex.Lock()
 	defer h.assignPortsMutex.Unlock()
 
@@ -176,12 +181,12 @@ func (h *hub) allocate(addr string) int {
 	}
 
 	if port > cMaxPortRange {
-		log.Fatal("Out of port max range!")
+		return 0, errors.New("Out of port max range!")
 	}
 
 	h.assignPorts[addr] = port
 
-	return port
+	return port, nil
 }
 
 func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
-- 
2.43.0


From 10249fe900a6bd7dee1d32caca60ff37b24590c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 21/30] fix: give every remote call an index of its own

---
 rpc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpc.go b/rpc.go
index 7c172c9..a47eceb 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,11 +5,14 @@
 package ferry
 
 import (
-	"time"
+	"sync/atomic"
 )
 
+// lastIndex is the index of the latest rpc of this process.
+var lastIndex int64
+
 func newRpc() *rpc {
-	return &rpc{index: time.Now().UnixNano(), req: nil, ret: make(chan *ret, 1)}
+	return &rpc{index: atomic.AddInt64(&lastIndex, 1), req: nil, ret: make(chan *ret, 1)}
 }
 
 type rpc struct {
-- 
2.43.0


From 8c25390c5d64e89ae323237146f402dd52f9bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 22/30] fix: a remote call takes only the first response of the
 dock it was sent to

---
 dock.go | 26 +++++++++++++++++++++++---
 rpc.go  |  7 +++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/dock.go b/dock.go
index 6abec43..e7123d9 100644
--- a/dock.go
+++ b/dock.go
@@ -35,7 +35,7 @@ type dock struct {
 	name             string
 	sockets          []network.ISocket // socket at index 0 is hub.
 	slots            map[string]*slot
-	remoteSlotsMutex sync.Mutex
+	remoteSlotsMutex sync.Mutex // guards remoteSlots and rpcs
 	remoteSlots      map[string]network.IPeer
 	rpcs             map[int64]*rpc
 }
@@ -87,13 +87,20 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
+			d.remoteSlotsMutex.Lock()
+			waiting := make([]*rpc, 0)
 			for _, slot := range resp.Slots {
 				for _, r := range d.rpcs {
 					if r.req != nil && r.req.Slot == slot {
-						d.commit(r)
+						waiting = append(waiting, r)
 					}
 				}
 			}
+			d.remoteSlotsMutex.Unlock()
+
+			for _, r := range waiting {
+				d.commit(r)
+			}
 		}
 	// Handle Dock RegisterRequest.
 	case cRegisterRequest:
@@ -186,7 +193,16 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
+			// Only the first response of the dock that was asked answers
+			// the call.
+			d.remoteSlotsMutex.Lock()
 			rpc := d.rpcs[resp.Index]
+			if nil != rpc && peer == rpc.peer {
+				delete(d.rpcs, resp.Index)
+			} else {
+				rpc = nil
+			}
+			d.remoteSlotsMutex.Unlock()
 			if nil != rpc {
 				go func() {
 					rpc.callback(&ret{
@@ -199,7 +215,6 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 							return nil
 						}(),
 					})
-					delete(d.rpcs, resp.Index)
 				}()
 			}
 		}
@@ -239,7 +254,9 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
 		rpc := newRpc()
+		d.remoteSlotsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
+		d.remoteSlotsMutex.Unlock()
 		return rpc.call(d, name, method, args...)
 	}
 }
@@ -250,7 +267,9 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
 		rpc := newRpc()
+		d.remoteSlotsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
+		d.remoteSlotsMutex.Unlock()
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
@@ -261,6 +280,7 @@ func (d *dock) commit(rpc *rpc) {
 
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
+		rpc.peer = peer
 		peer.Send(&packer{
 			Id: cRpcRequest,
 			P:  rpc.req,
diff --git a/rpc.go b/rpc.go
index a47eceb..d8c6b40 100644
--- a/rpc.go
+++ b/rpc.go
@@ -6,6 +6,8 @@ package ferry
 
 import (
 	"sync/atomic"
+
+	"github.com/muguangyi/ferry/network"
 )
 
 // lastIndex is the index of the latest rpc of this process.
@@ -19,6 +21,7 @@ type rpc struct {
 	index int64
 	req   *protoRpcRequest
 	ret   chan *ret
+	peer  network.IPeer // the dock that was asked
 }
 
 type ret struct {
@@ -27,6 +30,7 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
+	dock.remoteSlotsMutex.Lock()
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -34,6 +38,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 		Args:       args,
 		WithResult: false,
 	}
+	dock.remoteSlotsMutex.Unlock()
 
 	dock.commit(r)
 
@@ -44,6 +49,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
+	dock.remoteSlotsMutex.Lock()
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -51,6 +57,7 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 		Args:       args,
 		WithResult: true,
 	}
+	dock.remoteSlotsMutex.Unlock()
 
 	dock.commit(r)
 
-- 
2.43.0


From 3dd09e6f4fed022435a03f312626c0e4f9867ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 23/30] fix: send a waiting remote call once, as soon as its
 dock is known

---
 dock.go | 53 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/dock.go b/dock.go
index e7123d9..503e342 100644
--- a/dock.go
+++ b/dock.go
@@ -87,20 +87,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
-			d.remoteSlotsMutex.Lock()
-			waiting := make([]*rpc, 0)
-			for _, slot := range resp.Slots {
-				for _, r := range d.rpcs {
-					if r.req != nil && r.req.Slot == slot {
-						waiting = append(waiting, r)
-					}
-				}
-			}
-			d.remoteSlotsMutex.Unlock()
-
-			for _, r := range waiting {
-				d.commit(r)
-			}
+			d.commitWaiting(resp.Slots)
 		}
 	// Handle Dock RegisterRequest.
 	case cRegisterRequest:
@@ -121,6 +108,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 				d.remoteSlots[v] = peer
 				d.remoteSlotsMutex.Unlock()
 			}
+			d.commitWaiting(req.Slots)
 		}
 	// Handle Hub response for RegisterRquest.
 	case cRegisterResponse:
@@ -274,18 +262,43 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 	}
 }
 
+// commitWaiting sends the RPCs that wait for one of the slots.
+func (d *dock) commitWaiting(slots []string) {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	for _, slot := range slots {
+		peer, ok := d.remoteSlots[slot]
+		for _, r := range d.rpcs {
+			if ok && r.req != nil && r.req.Slot == slot {
+				d.send(r, peer)
+			}
+		}
+	}
+}
+
+// send a RPC once. remoteSlotsMutex is held.
+func (d *dock) send(rpc *rpc, peer network.IPeer) {
+	rpc.peer = peer
+	peer.Send(&packer{
+		Id: cRpcRequest,
+		P:  rpc.req,
+	})
+	rpc.req = nil
+}
+
 func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
+	if nil == rpc.req {
+		// Sent already
+		return
+	}
+
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
-		rpc.peer = peer
-		peer.Send(&packer{
-			Id: cRpcRequest,
-			P:  rpc.req,
-		})
-		rpc.req = nil
+		d.send(rpc, peer)
 	} else {
 		d.sockets[0].Send(&packer{
 			Id: cQueryRequest,
-- 
2.43.0


From 7a9c18ba45b34c8cbfb8bcff0124b199db2d32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 24/30] fix: dock: the socket of the hub is always the first
 one

---
 dock.go | 49 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/dock.go b/dock.go
index 503e342..415f511 100644
--- a/dock.go
+++ b/dock.go
@@ -33,6 +33,8 @@ func newDock(name string, slots ...ISlot) *dock {
 
 type dock struct {
 	name             string
+	socketsMutex     sync.Mutex
+	closed           bool
 	sockets          []network.ISocket // socket at index 0 is hub.
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex // guards remoteSlots and rpcs
@@ -44,12 +46,40 @@ func (d *dock) Close() {
 	for _, s := range d.slots {
 		s.feature.OnDestroy(s)
 	}
-	d.slots = nil
 
-	for i := len(d.sockets) - 1; i >= 0; i-- {
-		d.sockets[i].Close()
+	// NOTE: A packet may still be on its way through OnPacket, so the slots
+	// are kept.
+	d.socketsMutex.Lock()
+	d.closed = true
+	sockets := d.sockets
+	d.socketsMutex.Unlock()
+
+	for i := len(sockets) - 1; i >= 0; i-- {
+		sockets[i].Close()
+	}
+}
+
+// add a socket to the ones of the dock, or close it when the dock is closed.
+func (d *dock) add(socket network.ISocket) bool {
+	d.socketsMutex.Lock()
+	closed := d.closed
+	if !closed {
+		d.sockets = append(d.sockets, socket)
+	}
+	d.socketsMutex.Unlock()
+
+	if closed {
+		socket.Close()
 	}
-	d.sockets = d.sockets[:0]
+	return !closed
+}
+
+// hub is the socket that is connected to the hub.
+func (d *dock) hub() network.ISocket {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	return d.sockets[0]
 }
 
 func (d *dock) OnConnected(peer network.IPeer) {
@@ -121,7 +151,9 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 				log.Println(err)
 				return
 			}
-			d.sockets = append(d.sockets, socket)
+			if !d.add(socket) {
+				return
+			}
 
 			// Send DockReadyRequest to Hub.
 			peer.Send(&packer{
@@ -141,7 +173,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 				log.Println(err)
 				return
 			}
-			d.sockets = append(d.sockets, socket)
+			d.add(socket)
 		}
 	case cRpcRequest:
 		{
@@ -212,11 +244,12 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
+	// NOTE: The hub could answer before Dial returns.
 	socket := network.NewSocket(hubAddr, "ferry", d)
+	d.add(socket)
 	if err := socket.Dial(); nil != err {
 		log.Fatal(err)
 	}
-	d.sockets = append(d.sockets, socket)
 }
 
 func (d *dock) collect() []string {
@@ -300,7 +333,7 @@ func (d *dock) commit(rpc *rpc) {
 	if ok {
 		d.send(rpc, peer)
 	} else {
-		d.sockets[0].Send(&packer{
+		d.hub().Send(&packer{
 			Id: cQueryRequest,
 			P: &protoQueryRequest{
 				Slot: rpc.req.Slot,
-- 
2.43.0


From 6ffb9467ff3c2c3aeab398498e86cadaff89cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 25/30] fix: dock: start features once

---
 dock.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dock.go b/dock.go
index 415f511..6370627 100644
--- a/dock.go
+++ b/dock.go
@@ -35,6 +35,7 @@ type dock struct {
 	name             string
 	socketsMutex     sync.Mutex
 	closed           bool
+	registered       bool
 	sockets          []network.ISocket // socket at index 0 is hub.
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex // guards remoteSlots and rpcs
@@ -74,6 +75,16 @@ func (d *dock) add(socket network.ISocket) bool {
 	return !closed
 }
 
+// setRegistered reports whether this changed anything.
+func (d *dock) setRegistered(registered bool) bool {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	changed := registered != d.registered
+	d.registered = registered
+	return changed
+}
+
 // hub is the socket that is connected to the hub.
 func (d *dock) hub() network.ISocket {
 	d.socketsMutex.Lock()
@@ -145,10 +156,15 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
+			if !d.setRegistered(true) {
+				// Registered already
+				return
+			}
 			listenAddr := fmt.Sprintf(":%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
 			if err := socket.Listen(); nil != err {
 				log.Println(err)
+				d.setRegistered(false)
 				return
 			}
 			if !d.add(socket) {
-- 
2.43.0


From 21dd1126e034d2927cf81e883c41a6cad80569ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:45 +0000
Subject: [PATCH 26/30] fix: hubs and docks started at the same time are all
 closed

---
 runtime.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime.go b/runtime.go
index 80428ab..a6285d8 100644
--- a/runtime.go
+++ b/runtime.go
@@ -8,16 +8,20 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 )
 
 type instance interface {
 	Close()
 }
 
+var instsMutex sync.Mutex
 var insts []instance = make([]instance, 0)
 
 func wait(inst instance) {
+	instsMutex.Lock()
 	insts = append(insts, inst)
+	instsMutex.Unlock()
 
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
@@ -27,8 +31,12 @@ func wait(inst instance) {
 }
 
 func destroy() {
-	for i := len(insts) - 1; i >= 0; i-- {
-		insts[i].Close()
+	instsMutex.Lock()
+	closing := insts
+	insts = make([]instance, 0)
+	instsMutex.Unlock()
+
+	for i := len(closing) - 1; i >= 0; i-- {
+		closing[i].Close()
 	}
-	insts = insts[:0]
 }
-- 
2.43.0


From 3ceb29f7ad1037b24073da484cdbe9e0ace5cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:08 +0000
Subject: [PATCH 27/30] fix: answer remote calls of unknown features

---
 dock.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/dock.go b/dock.go
index 6370627..4fe2dc2 100644
--- a/dock.go
+++ b/dock.go
@@ -206,24 +206,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 						err = caller.Call(req.Method, req.Args...)
 					}
 
-					resp := &packer{
-						Id: cRpcResponse,
-						P: &protoRpcResponse{
-							Index:  req.Index,
-							Slot:   req.Slot,
-							Method: req.Method,
-							Result: result,
-							Err: func() string {
-								if nil != err {
-									return err.Error()
-								}
-
-								return ""
-							}(),
-						},
-					}
-					peer.Send(resp)
+					d.respond(peer, req, result, err)
 				}()
+			} else {
+				d.respond(peer, req, nil, fmt.Errorf("There is no feature [%s]!", req.Slot))
 			}
 		}
 	case cRpcResponse:
@@ -257,6 +243,27 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	}
 }
 
+// respond to a RPC request.
+func (d *dock) respond(peer network.IPeer, req *protoRpcRequest, result []interface{}, err error) {
+	resp := &packer{
+		Id: cRpcResponse,
+		P: &protoRpcResponse{
+			Index:  req.Index,
+			Slot:   req.Slot,
+			Method: req.Method,
+			Result: result,
+			Err: func() string {
+				if nil != err {
+					return err.Error()
+				}
+
+				return ""
+			}(),
+		},
+	}
+	peer.Send(resp)
+}
+
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
-- 
2.43.0


From c90d95cd029bbdd8e5e334e231b07d84925ba4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 28/30] fix: arguments and results that cannot be sent are an
 error

---
 dock.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dock.go b/dock.go
index 4fe2dc2..5e99a49 100644
--- a/dock.go
+++ b/dock.go
@@ -7,10 +7,12 @@ package ferry
 import (
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"sync"
 
 	"github.com/muguangyi/ferry/chancall"
+	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
 )
 
@@ -245,6 +247,13 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 
 // respond to a RPC request.
 func (d *dock) respond(peer network.IPeer, req *protoRpcRequest, result []interface{}, err error) {
+	if nil == err {
+		err = sendable(result)
+	}
+	if nil != err {
+		result = nil
+	}
+
 	resp := &packer{
 		Id: cRpcResponse,
 		P: &protoRpcResponse{
@@ -264,6 +273,11 @@ func (d *dock) respond(peer network.IPeer, req *protoRpcRequest, result []interf
 	peer.Send(resp)
 }
 
+// sendable checks whether values can be sent to another dock.
+func sendable(values []interface{}) error {
+	return codec.NewAny(values).Encode(ioutil.Discard)
+}
+
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
@@ -297,6 +311,9 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 	if nil != target {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
+		if err := sendable(args); nil != err {
+			return err
+		}
 		rpc := newRpc()
 		d.remoteSlotsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
@@ -310,6 +327,9 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 	if nil != target {
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
+		if err := sendable(args); nil != err {
+			return nil, err
+		}
 		rpc := newRpc()
 		d.remoteSlotsMutex.Lock()
 		d.rpcs[rpc.index] = rpc
-- 
2.43.0


From bbc61d97ae1e0512929602d96db5b477d4134513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 29/30] fix: visit features from several goroutines

---
 registry.go | 16 ++++++++++++++++
 slot.go     | 38 ++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/registry.go b/registry.go
index 02da909..19c06d6 100644
--- a/registry.go
+++ b/registry.go
@@ -4,14 +4,30 @@
 
 package ferry
 
+import (
+	"sync"
+)
+
+var registryMutex sync.RWMutex
 var registry map[string]interface{} = make(map[string]interface{})
 
 func register(name string, maker interface{}) {
+	registryMutex.Lock()
 	registry[name] = maker
+	registryMutex.Unlock()
+}
+
+func registered(name string) bool {
+	registryMutex.RLock()
+	defer registryMutex.RUnlock()
+
+	return nil != registry[name]
 }
 
 func tryMake(name string, s ISlot) (interface{}, bool) {
+	registryMutex.RLock()
 	maker := registry[name]
+	registryMutex.RUnlock()
 	if nil != maker {
 		return maker.(func(slot ISlot) interface{})(s), true
 	}
diff --git a/slot.go b/slot.go
index e97030f..2d116c9 100644
--- a/slot.go
+++ b/slot.go
@@ -22,32 +22,46 @@ func newSlot(name string, feature interface{}, discoverable bool) ISlot {
 	s.feature = feature.(IFeature)
 	s.discoverable = discoverable
 	s.callee = chancall.NewCallee(name, feature)
-	s.visiters = make(map[string]interface{})
+	s.visiters = make(map[string]*visiter)
 	s.closeSig = make(chan bool, 1)
 
 	return s
 }
 
 type slot struct {
-	feature      IFeature
-	discoverable bool
-	callee       chancall.ICallee
-	dock         *dock
-	visiters     map[string]interface{}
-	closeSig     chan bool
-	wg           sync.WaitGroup
+	feature       IFeature
+	discoverable  bool
+	callee        chancall.ICallee
+	dock          *dock
+	visitersMutex sync.Mutex
+	visiters      map[string]*visiter
+	closeSig      chan bool
+	wg            sync.WaitGroup
+}
+
+// visiter is a feature proxy that is made at the first visit.
+type visiter struct {
+	once   sync.Once
+	object interface{}
 }
 
 func (s *slot) Visit(name string) interface{} {
+	s.visitersMutex.Lock()
 	visitor := s.visiters[name]
 	if nil == visitor {
-		var ok bool
-		if visitor, ok = tryMake(name, s); ok {
-			s.visiters[name] = visitor
+		if !registered(name) {
+			s.visitersMutex.Unlock()
+			return nil
 		}
+		visitor = new(visiter)
+		s.visiters[name] = visitor
 	}
+	s.visitersMutex.Unlock()
 
-	return visitor
+	visitor.once.Do(func() {
+		visitor.object, _ = tryMake(name, s)
+	})
+	return visitor.object
 }
 
 func (s *slot) Call(name string, method string, args ...interface{}) error {
-- 
2.43.0


From 2261a2f2e043a93cc8fea5c44e87051fd6c2891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 30/30] fix: chancall: accept lists and maps that come from
 another dock

---
 chancall/meta.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/chancall/meta.go b/chancall/meta.go
index 85e9d55..2c3c220 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -88,6 +88,8 @@ func (f *fcall) in(index int) reflect.Type {
 	return f.ft.In(index)
 }
 
+// convert arg to a value of type t. The lists and maps that come from another
+// dock have no element types, so their elements are converted one by one.
 func convert(arg interface{}, t reflect.Type) (value reflect.Value, err error) {
 	if nil == arg {
 		switch t.Kind() {
@@ -103,7 +105,50 @@ func convert(arg interface{}, t reflect.Type) (value reflect.Value, err error) {
 		}
 	}()
 
-	return reflect.ValueOf(arg).Convert(t), nil
+	v := reflect.ValueOf(arg)
+	if !v.Type().ConvertibleTo(t) {
+		switch from, to := v.Kind(), t.Kind(); {
+		case reflect.Slice == from && reflect.Slice == to:
+			value = reflect.MakeSlice(t, v.Len(), v.Len())
+			return value, convertList(v, value)
+		case reflect.Slice == from && reflect.Array == to && v.Len() == t.Len():
+			value = reflect.New(t).Elem()
+			return value, convertList(v, value)
+		case reflect.Map == from && reflect.Map == to:
+			value = reflect.MakeMap(t)
+			return value, convertMap(v, value)
+		}
+	}
+
+	return v.Convert(t), nil
+}
+
+func convertList(from reflect.Value, to reflect.Value) error {
+	for i := 0; i < from.Len(); i++ {
+		item, err := convert(from.Index(i).Interface(), to.Type().Elem())
+		if nil != err {
+			return err
+		}
+		to.Index(i).Set(item)
+	}
+
+	return nil
+}
+
+func convertMap(from reflect.Value, to reflect.Value) error {
+	for _, k := range from.MapKeys() {
+		key, err := convert(k.Interface(), to.Type().Key())
+		if nil != err {
+			return err
+		}
+		item, err := convert(from.MapIndex(k).Interface(), to.Type().Elem())
+		if nil != err {
+			return err
+		}
+		to.SetMapIndex(key, item)
+	}
+
+	return nil
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0

