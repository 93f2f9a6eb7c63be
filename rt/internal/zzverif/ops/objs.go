package ops

import (
	"bytes"
	"encoding"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	rt "github.com/sp301415/tfhe-go/internal/zzverif"
)

// Dump lists every scalar reachable from x, with the length of every slice, in
// a fixed order (unexported fields included).
func Dump(x interface{}) []uint64 {
	var o []uint64
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			o = append(o, uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Bool:
			b := uint64(0)
			if v.Bool() {
				b = 1
			}
			o = append(o, b)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			o = append(o, uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			o = append(o, v.Uint())
		case reflect.Float64:
			o = append(o, math.Float64bits(v.Float()))
		case reflect.Complex128:
			o = append(o, math.Float64bits(real(v.Complex())), math.Float64bits(imag(v.Complex())))
		case reflect.Func:
			if v.CanAddr() {
				o = append(o, uint64(*(*uintptr)(unsafe.Pointer(v.UnsafeAddr()))))
			}
		case reflect.Map:
			if v.Type().Key().Kind() == reflect.Int {
				keys := v.MapKeys()
				sort.Slice(keys, func(i, j int) bool { return keys[i].Int() < keys[j].Int() })
				o = append(o, uint64(len(keys)))
				for _, k := range keys {
					o = append(o, uint64(k.Int()))
					rec(v.MapIndex(k))
				}
			}
		case reflect.String:
			o = append(o, uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				o = append(o, uint64(v.String()[i]))
			}
		}
	}
	rec(reflect.ValueOf(x))
	return o
}

// Cells returns the settable cells of slices reachable through exported fields.
func Cells(x interface{}) []reflect.Value {
	var o []reflect.Value
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Int32, reflect.Int64:
			if v.CanSet() {
				o = append(o, v)
			}
		}
	}
	rec(reflect.ValueOf(x))
	return o
}

// Set writes a random value to a cell.
func Set(r *rt.R, l reflect.Value) {
	switch l.Kind() {
	case reflect.Float64:
		l.SetFloat(r.NormFloat64()*math.Exp2(float64(r.Intn(70))) + 0.5)
	case reflect.Int32, reflect.Int64:
		l.SetInt(int64(r.Word()) >> uint(64-l.Type().Bits()))
	default:
		l.SetUint(r.Word() >> uint(64-l.Type().Bits()))
	}
}

// Fill writes random values to every cell.
func Fill(r *rt.R, x interface{}) {
	for _, l := range Cells(x) {
		Set(r, l)
	}
}

type span struct{ lo, hi uintptr }

// Spans lists the memory of the backing arrays reachable from x.
func Spans(x interface{}) []span {
	var o []span
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Slice:
			if v.Len() > 0 {
				p := v.Pointer()
				o = append(o, span{p, p + uintptr(v.Len())*v.Type().Elem().Size()})
			}
			for i := 0; i < v.Len(); i++ {
				if k := v.Index(i).Kind(); k != reflect.Struct && k != reflect.Slice && k != reflect.Ptr {
					break
				}
				rec(v.Index(i))
			}
		}
	}
	rec(reflect.ValueOf(x))
	return o
}

// Shared reports whether two objects share slice memory.
func Shared(a, b interface{}) bool {
	x, y := Spans(a), Spans(b)
	for _, s := range x {
		for _, t := range y {
			if s.lo < t.hi && t.lo < s.hi {
				return true
			}
		}
	}
	return false
}

// Overlaps reports whether two of the leaf slices of one object share memory.
func Overlaps(x interface{}) bool {
	s := Spans(x)
	for i := range s {
		for j := 0; j < i; j++ {
			if s[i].lo < s[j].hi && s[j].lo < s[i].hi {
				return true
			}
		}
	}
	return false
}

// Depths returns the lengths along the first path of nested slices, and whether
// all slices of the same depth have the same length. Gadget parameters are
// skipped.
func Depths(x interface{}) ([]int, bool) {
	var d []int
	ok := true
	var rec func(v reflect.Value, k int)
	rec = func(v reflect.Value, k int) {
		switch v.Kind() {
		case reflect.Ptr:
			rec(v.Elem(), k)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), k)
			}
		case reflect.Slice:
			if len(d) == k {
				d = append(d, v.Len())
			} else if d[k] != v.Len() {
				ok = false
			}
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), k+1)
			}
		}
	}
	rec(reflect.ValueOf(x), 0)
	return d, ok
}

func call(o interface{}, name string, args ...interface{}) []reflect.Value {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return reflect.ValueOf(o).MethodByName(name).Call(in)
}

// Object checks construction, Copy, CopyFrom and Clear of one object kind. mk
// builds an object (a pointer) from nothing; want is the expected nesting (nil:
// not checked); mk2 builds one with the same shape and other gadget parameters.
func Object(r *rt.R, name string, mk, mk2 func() interface{}, want []int, views bool) {
	r.Case("%s", name)
	r.Try(func() {
		o := mk()
		if want != nil {
			if d, ok := Depths(o); !ok || !reflect.DeepEqual(d, want) {
				r.Fail("constructed shape %v (uniform %v), documented %v", d, ok, want)
				return
			}
		}
		if !views && Overlaps(o) {
			r.Fail("parts of a new object share memory")
			return
		}
		for _, l := range Cells(o) {
			if !l.IsZero() {
				r.Fail("new object is not zero")
				return
			}
		}
		zero := Dump(o)
		ref := mk()
		if Shared(o, ref) {
			r.Fail("two new objects share memory")
			return
		}
		Fill(r, o)
		full := Dump(o)
		if len(zero) != len(full) {
			r.Fail("harness: shapes differ")
		}
		// Copy
		out := call(o, "Copy")
		c := reflect.New(out[0].Type())
		c.Elem().Set(out[0])
		cp := c.Interface()
		if Eq(Dump(cp), full) >= 0 || len(Dump(cp)) != len(full) {
			r.Fail("copy differs from the original")
			return
		}
		if Shared(o, cp) {
			r.Fail("copy shares memory with the original")
			return
		}
		cells, ccells := Cells(o), Cells(cp)
		for k := 0; k < 40 && len(cells) > 0; k++ {
			i := r.Intn(len(cells))
			before := Dump(cp)
			Set(r, cells[i])
			if Eq(Dump(cp), before) >= 0 {
				r.Fail("a write to the original changed the copy")
				return
			}
			before = Dump(o)
			Set(r, ccells[r.Intn(len(ccells))])
			if Eq(Dump(o), before) >= 0 {
				r.Fail("a write to the copy changed the original")
				return
			}
		}
		// CopyFrom
		d := mk2()
		Fill(r, d)
		src := Dump(o)
		call(d, "CopyFrom", reflect.ValueOf(o).Elem().Interface())
		if got := Dump(d); len(got) != len(src) || Eq(got, src) >= 0 {
			r.Fail("copying into an existing object does not make it equal to the source (gadget parameters included)")
			return
		}
		if Eq(Dump(o), src) >= 0 {
			r.Fail("copying into another object changed the source")
			return
		}
		if Shared(o, d) {
			r.Fail("copying into an existing object made it share memory with the source")
			return
		}
		if len(cells) > 0 {
			before := Dump(d)
			Set(r, cells[r.Intn(len(cells))])
			if Eq(Dump(d), before) >= 0 {
				r.Fail("a write to the source changed the object copied into")
				return
			}
		}
		if views {
			// the parts that view one backing slice in the original do so in the copy
			for _, x := range []interface{}{cp, d} {
				if !sameViews(ref, x) {
					r.Fail("copy lost the sharing between the parts of the object")
					return
				}
			}
		}
		// Clear
		before := Dump(o)
		call(d, "Clear")
		if Eq(Dump(o), before) >= 0 {
			r.Fail("clearing another object changed this one")
			return
		}
		if got := Dump(d); len(got) != len(zero) || Eq(got, zero) >= 0 {
			for _, l := range Cells(d) {
				if !l.IsZero() {
					r.Fail("cleared object is not zero")
					return
				}
			}
			if len(got) != len(zero) {
				r.Fail("clearing changed the shape")
			}
		}
	})
}

func sameViews(a, b interface{}) bool {
	x, y := Spans(a), Spans(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		for j := range x {
			if (x[i].lo < x[j].hi && x[j].lo < x[i].hi) != (y[i].lo < y[j].hi && y[j].lo < y[i].hi) {
				return false
			}
		}
	}
	return true
}

type cut struct {
	n, step, at int
	short       bool // report a short write without error
	buf         bytes.Buffer
}

var errCut = errors.New("stream failed")

func (c *cut) Write(p []byte) (int, error) {
	if c.n+len(p) > c.at {
		k := c.at - c.n
		if k < 0 {
			k = 0
		}
		c.n += k
		if c.short {
			c.at = 0
			return k, nil
		}
		return k, errCut
	}
	c.n += len(p)
	return len(p), nil
}

type slow struct {
	b    []byte
	r    *rt.R
	fail error // error at the end instead of io.EOF
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		if s.fail != nil {
			return 0, s.fail
		}
		return 0, io.EOF
	}
	k := 1 + s.r.Intn(9)
	if s.r.Intn(8) == 0 {
		k = len(p)
	}
	if k > len(p) {
		k = len(p)
	}
	k = copy(p[:k], s.b)
	s.b = s.b[k:]
	return k, nil
}

// Serial checks the stream and binary-marshal interfaces of one object (a
// pointer); other is an object of the same type and another shape.
func Serial(r *rt.R, name string, o, other interface{}) {
	r.Case("%s", name)
	r.Try(func() {
		full := Dump(o)
		size := int(call(o, "ByteSize")[0].Int())
		var buf bytes.Buffer
		n, err := o.(io.WriterTo).WriteTo(&buf)
		if err != nil || int(n) != size || buf.Len() != size {
			r.Fail("WriteTo returned %d, %v and wrote %d bytes; ByteSize is %d", n, err, buf.Len(), size)
			return
		}
		if got := Dump(o); Eq(got, full) >= 0 {
			r.Fail("writing changed the object")
			return
		}
		data := append([]byte(nil), buf.Bytes()...)
		bm, marshals := o.(encoding.BinaryMarshaler)
		if marshals {
			if m, err := bm.MarshalBinary(); err != nil || !bytes.Equal(m, data) {
				r.Fail("MarshalBinary differs from WriteTo (%v)", err)
				return
			}
		}
		same := func(x interface{}) bool {
			g := Dump(x)
			return len(g) == len(full) && Eq(g, full) < 0
		}
		fresh := func() interface{} { return reflect.New(reflect.TypeOf(o).Elem()).Interface() }
		x := fresh()
		s := &slow{b: append(append([]byte(nil), data...), 0xa5, 0x5a, 0x11), r: r}
		n, err = x.(io.ReaderFrom).ReadFrom(s)
		if err != nil || int(n) != size || len(s.b) != 3 {
			r.Fail("ReadFrom returned %d, %v and left %d of 3 trailing bytes; ByteSize is %d", n, err, len(s.b), size)
			return
		}
		if !same(x) {
			r.Fail("the object read back differs from the one written")
			return
		}
		if marshals {
			x = fresh()
			if err := x.(encoding.BinaryUnmarshaler).UnmarshalBinary(data); err != nil || !same(x) {
				r.Fail("UnmarshalBinary gives another object (%v)", err)
				return
			}
		}
		if got := Shared(x, o) || Shared(x, &struct{ B []byte }{data}); got {
			r.Fail("the object read back shares memory")
			return
		}
		// several objects in sequence, over a used object of another shape
		if other != nil {
			ofull := Dump(other)
			var b2 bytes.Buffer
			for _, w := range []interface{}{other, o, other, o} {
				if _, err := w.(io.WriterTo).WriteTo(&b2); err != nil {
					r.Fail("write: %v", err)
					return
				}
			}
			x := fresh()
			for i := 0; i < 4; i++ {
				if i == 2 {
					x = fresh()
				}
				n, err := x.(io.ReaderFrom).ReadFrom(&b2)
				want := full
				if i%2 == 0 {
					want = ofull
				}
				if g := Dump(x); err != nil || len(g) != len(want) || Eq(g, want) >= 0 || n == 0 {
					r.Fail("object %d of a sequence is not read back (%v)", i, err)
					return
				}
			}
			if b2.Len() != 0 {
				r.Fail("%d bytes left after reading a sequence", b2.Len())
				return
			}
		}
		// truncation and failures
		at := map[int]bool{0: true, 1: true, size - 1: true, size / 2: true}
		for k := 8; k <= 72; k += 8 {
			at[k], at[k-1], at[k+1], at[size-k] = true, true, true, true
		}
		for k := 0; k < r.N(10); k++ {
			at[r.Intn(size)] = true
		}
		for k := range at {
			if k < 0 || k >= size {
				continue
			}
			for mode := 0; mode < 2; mode++ {
				s := &slow{b: append([]byte(nil), data[:k]...), r: r}
				if mode == 1 {
					s.fail = errCut
				}
				n, err := fresh().(io.ReaderFrom).ReadFrom(s)
				if err == nil {
					r.Fail("reading %d of %d bytes (mode %d) returned no error", k, size, mode)
					return
				}
				if int(n) != k {
					r.Fail("reading %d of %d bytes (mode %d) returned the count %d", k, size, mode, n)
					return
				}
			}
			if marshals {
				if err := fresh().(encoding.BinaryUnmarshaler).UnmarshalBinary(data[:k]); err == nil {
					r.Fail("unmarshalling %d of %d bytes returned no error", k, size)
					return
				}
			}
			w := &cut{at: k}
			n, err := o.(io.WriterTo).WriteTo(w)
			if err == nil || int(n) != k {
				r.Fail("writing to a stream that fails after %d of %d bytes returned %d, %v", k, size, n, err)
				return
			}
			w = &cut{at: k, short: true}
			if _, err := o.(io.WriterTo).WriteTo(w); err == nil {
				r.Fail("writing to a stream that stops after %d of %d bytes returned no error", k, size)
				return
			}
		}
	})
}

// Isolated checks that a safe copy of o works like o, and that no method of the
// one changes memory reachable from the other. gen builds one argument; random
// lists prefixes of the methods whose result is not a function of the arguments.
func Isolated(r *rt.R, name string, o interface{}, gen func(reflect.Type) (reflect.Value, bool), random []string) {
	r.Case("%s: SafeCopy", name)
	var c interface{}
	r.Try(func() { c = call(o, "SafeCopy")[0].Interface() })
	if c == nil {
		return
	}
	vo, vc := reflect.ValueOf(o), reflect.ValueOf(c)
	if vo.Type() != vc.Type() {
		r.Fail("SafeCopy changes the type")
		return
	}
	done, skipped := 0, []string{}
	order := r.Perm(vo.NumMethod())
	for _, i := range order {
		m := vo.Type().Method(i)
		if m.Name == "SafeCopy" || strings.HasPrefix(m.Name, "Add") && strings.HasSuffix(m.Name, "Key") {
			continue
		}
		seed := r.Int63()
		args := func() ([]reflect.Value, bool) {
			old := r.Rand
			r.Rand = rand.New(rand.NewSource(seed))
			defer func() { r.Rand = old }()
			var a []reflect.Value
			for j := 1; j < m.Type.NumIn(); j++ {
				v, ok := gen(m.Type.In(j))
				if !ok {
					return nil, false
				}
				a = append(a, v)
			}
			return a, true
		}
		run := func(v reflect.Value) (res []uint64, ok bool) {
			a, ok := args()
			if !ok {
				return nil, false
			}
			defer func() {
				if recover() != nil {
					res, ok = nil, false
				}
			}()
			out := v.Method(i).Call(a)
			for _, x := range append(out, a...) {
				if x.Kind() != reflect.Func && !(x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Func) {
					res = append(res, Dump(x.Interface())...)
				}
			}
			return res, true
		}
		r.Case("%s: %s", name, m.Name)
		d := Dump(o)
		x, ok := run(vc)
		if !ok {
			skipped = append(skipped, m.Name)
		} else {
			done++
		}
		if !sameWords(d, Dump(o)) {
			r.Fail("%s on a safe copy changes memory of the original", m.Name)
		}
		d = Dump(c)
		y, ok2 := run(vo)
		if !sameWords(d, Dump(c)) {
			r.Fail("%s on the original changes memory of a safe copy", m.Name)
		}
		if ok != ok2 {
			r.Fail("%s: the original and the copy disagree about a panic", m.Name)
			continue
		}
		det := true
		for _, p := range random {
			det = det && !strings.Contains(m.Name, p)
		}
		if ok && det && !sameWords(x, y) {
			r.Fail("%s: the original and its safe copy give different results", m.Name)
		}
	}
	if done < len(skipped) {
		r.Case("%s", name)
		r.Fail("most methods panicked: %v", skipped)
	}
	if os.Getenv("VERIF_SHOW") != "" {
		fmt.Println("ISO", name, "ran", done, "skipped", skipped)
	}
}

func sameWords(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// RandomMethods are parts of the names of randomised methods.
var RandomMethods = []string{"Encrypt", "GenEval", "GenPublic", "GenSecret", "GenRelin", "GenGalois", "GenBlind",
	"GenDefault", "GenLWE", "GenGLWE", "GenCRS", "GenCircuit", "ReRand", "Sanitize", "Sample"}

// Args builds arguments: filled objects from mk (by type) and basic values.
func Args(r *rt.R, N, mm int, mk map[reflect.Type]func() interface{}) func(reflect.Type) (reflect.Value, bool) {
	return func(t reflect.Type) (reflect.Value, bool) {
		if f, ok := mk[t]; ok {
			return reflect.ValueOf(f()), true
		}
		v := reflect.New(t).Elem()
		switch {
		case t.Kind() == reflect.Bool:
			v.SetBool(r.Intn(2) == 0)
		case t.Kind() == reflect.Int:
			v.SetInt(int64([]int{0, 1, 2, 1, 3, 5, 1, 7}[r.Intn(8)]))
		case t.Kind() == reflect.Uint32 || t.Kind() == reflect.Uint64:
			v.SetUint(uint64(1 + r.Intn(16)))
		case t.Kind() == reflect.Float64:
			v.SetFloat(r.Float64())
		case t.Kind() == reflect.Complex128:
			v.SetComplex(complex(r.Float64(), r.Float64()))
		case t == reflect.TypeOf([]int(nil)):
			x := make([]int, N)
			for i := range x {
				x[i] = r.Intn(mm)
			}
			v.Set(reflect.ValueOf(x))
		case t == reflect.TypeOf((func(int) int)(nil)):
			c := r.Intn(mm)
			v.Set(reflect.ValueOf(func(x int) int { return (x + c) % mm }))
		case t.Kind() == reflect.Func && t.NumIn() == 1 && t.NumOut() == 1:
			c := r.Uint64()
			v.Set(reflect.MakeFunc(t, func(a []reflect.Value) []reflect.Value {
				z := reflect.New(t.Out(0)).Elem()
				if z.Kind() == reflect.Int {
					z.SetInt((a[0].Int() + int64(c>>60)) % int64(mm))
				} else {
					z.SetUint(c << uint(a[0].Int()&7))
				}
				return []reflect.Value{z}
			}))
		default:
			return v, false
		}
		return v, true
	}
}
