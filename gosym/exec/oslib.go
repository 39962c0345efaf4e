package exec

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"io"
	"os"
	"path"
	"reflect"
	"strings"

	"gosym/smt"
)

const (
	devFull = "/dev/full"
	vfsDir  = "/vf-tmp"
)

// ---------- os over a virtual file system ----------

func regOS(reg func(string, intrinsic)) {
	open := func(w *W, name *Str, flag int) Value {
		if name.B != nil {
			panic(unsupported("symbolic file name"))
		}
		data, ok := w.vfs[name.S]
		acc := flag & 3
		switch {
		case name.S == devFull:
		case !ok && flag&os.O_CREATE == 0, !ok && path.Dir(name.S) != vfsDir:
			return Tuple{(*Value)(nil), w.errorValue("open " + name.S + ": no such file or directory")}
		case ok && flag&os.O_EXCL != 0:
			return Tuple{(*Value)(nil), w.errorValue("open " + name.S + ": file exists")}
		case !ok || flag&os.O_TRUNC != 0 && acc != os.O_RDONLY:
			w.vfs[name.S] = []Value{}
			data = nil
		}
		p := new(Value)
		*p = w.zero(w.pkgType("os", "File"))
		w.files[p] = &vfile{name: name.S, data: data, read: acc != os.O_WRONLY, write: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
		return Tuple{p, Iface{}}
	}
	reg("os.Open", func(w *W, fr *frame, a []Value) Value { return open(w, a[0].(*Str), os.O_RDONLY) })
	reg("os.Create", func(w *W, fr *frame, a []Value) Value {
		return open(w, a[0].(*Str), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	})
	reg("os.OpenFile", func(w *W, fr *frame, a []Value) Value {
		return open(w, a[0].(*Str), int(w.concInt(a[1].(*smt.Term), true)))
	})
	file := func(w *W, v Value) *vfile {
		p, ok := v.(*Value)
		if !ok || p == nil {
			return nil
		}
		return w.files[p]
	}
	ioEOF := func(w *W) Value { return w.pkgVar("io", "EOF") }
	reg("(*os.File).Read", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("read: file already closed")}
		}
		if !f.read {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("read: bad file descriptor")}
		}
		b := a[1].([]Value)
		if len(b) == 0 {
			return Tuple{w.ctx.Const(64, 0), Iface{}}
		}
		if f.pos >= len(f.data) {
			return Tuple{w.ctx.Const(64, 0), ioEOF(w)}
		}
		n := 0
		for n < len(b) && f.pos < len(f.data) {
			w.store(&b[n], f.data[f.pos])
			n++
			f.pos++
		}
		return Tuple{w.ctx.Const(64, uint64(n)), Iface{}}
	})
	write := func(w *W, f *vfile, bs []*smt.Term) Value {
		if f == nil || f.dead || !f.write {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("write: bad file descriptor")}
		}
		if f.name == devFull && len(bs) > 0 {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("write " + devFull + ": no space left on device")}
		}
		d := append([]Value{}, w.vfs[f.name]...)
		if f.app {
			f.pos = len(d)
		}
		for _, b := range bs {
			if f.pos < len(d) {
				d[f.pos] = b
			} else {
				d = append(d, b)
			}
			f.pos++
		}
		w.vfs[f.name] = d
		f.data = d
		return Tuple{w.ctx.Const(64, uint64(len(bs))), Iface{}}
	}
	reg("(*os.File).Write", func(w *W, fr *frame, a []Value) Value {
		var bs []*smt.Term
		for _, x := range a[1].([]Value) {
			bs = append(bs, x.(*smt.Term))
		}
		return write(w, file(w, a[0]), bs)
	})
	reg("(*os.File).WriteString", func(w *W, fr *frame, a []Value) Value {
		return write(w, file(w, a[0]), w.strBytes(a[1].(*Str)))
	})
	reg("(*os.File).Sync", func(w *W, fr *frame, a []Value) Value { return Iface{} })
	reg("(*os.File).Close", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead {
			return w.errorValue("close: file already closed")
		}
		f.dead = true
		return Iface{}
	})
	rf := func(w *W, fr *frame, a []Value) Value {
		d, ok := w.vfs[lbl(a[0])]
		if !ok {
			return Tuple{[]Value(nil), w.errorValue("open " + lbl(a[0]) + ": no such file or directory")}
		}
		return Tuple{append([]Value{}, d...), Iface{}}
	}
	reg("os.ReadFile", rf)
	reg("io/ioutil.ReadFile", rf)
	wf := func(w *W, fr *frame, a []Value) Value {
		w.vfs[lbl(a[0])] = append([]Value{}, a[1].([]Value)...)
		return Iface{}
	}
	stat := func(w *W, name string, n int) Value {
		st := w.pkgType("os", "fileStat")
		z := w.zero(st).(Struct)
		u := st.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "name":
				z[i] = mkStr(path.Base(name))
			case "size":
				z[i] = w.ctx.Const(64, uint64(n))
			}
		}
		p := new(Value)
		*p = z
		return Tuple{Iface{T: types.NewPointer(st), V: p}, Iface{}}
	}
	field := func(w *W, v Value, name string) Value {
		z := (*v.(*Value)).(Struct)
		u := w.pkgType("os", "fileStat").Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return z[i]
			}
		}
		panic(unsupported("fileStat." + name))
	}
	reg("(*os.fileStat).Size", func(w *W, fr *frame, a []Value) Value { return field(w, a[0], "size") })
	reg("(*os.fileStat).Name", func(w *W, fr *frame, a []Value) Value { return field(w, a[0], "name") })
	reg("(*os.fileStat).IsDir", func(w *W, fr *frame, a []Value) Value { return w.ctx.False })
	noFile := func(w *W, name string) Value {
		return w.errorValue(name + ": no such file or directory")
	}
	ostat := func(w *W, fr *frame, a []Value) Value {
		if lbl(a[0]) == devFull {
			return stat(w, devFull, 0)
		}
		d, ok := w.vfs[lbl(a[0])]
		if !ok {
			return Tuple{Iface{}, noFile(w, "stat "+lbl(a[0]))}
		}
		return stat(w, lbl(a[0]), len(d))
	}
	reg("os.Stat", ostat)
	reg("os.Lstat", ostat)
	reg("(*os.File).Stat", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead {
			return Tuple{Iface{}, w.errorValue("stat: use of closed file")}
		}
		return stat(w, f.name, len(f.data))
	})
	reg("(*os.File).Name", func(w *W, fr *frame, a []Value) Value { return mkStr(file(w, a[0]).name) })
	reg("(*os.File).Seek", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("seek: file already closed")}
		}
		off := int(int64(w.concInt(a[1].(*smt.Term), true)))
		switch int(w.concInt(a[2].(*smt.Term), true)) {
		case 1:
			off += f.pos
		case 2:
			off += len(f.data)
		}
		if off < 0 {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("seek: invalid argument")}
		}
		f.pos = off
		return Tuple{w.ctx.Const(64, uint64(off)), Iface{}}
	})
	reg("(*os.File).ReadAt", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead || !f.read {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("read: file already closed")}
		}
		b, off, n := a[1].([]Value), int(int64(w.concInt(a[2].(*smt.Term), true))), 0
		if off < 0 {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("readat: negative offset")}
		}
		for ; n < len(b) && off+n < len(f.data); n++ {
			w.store(&b[n], f.data[off+n])
		}
		if n < len(b) {
			return Tuple{w.ctx.Const(64, uint64(n)), ioEOF(w)}
		}
		return Tuple{w.ctx.Const(64, uint64(n)), Iface{}}
	})
	reg("(*os.File).ReadFrom", func(w *W, fr *frame, a []Value) Value {
		n := 0
		for {
			b := w.newSlice(types.Typ[types.Uint8], 512, 512)
			t := w.invoke(a[1].(Iface), "Read", []Value{b}, fr).(Tuple)
			k := int(w.concInt(t[0].(*smt.Term), true))
			var bs []*smt.Term
			for _, x := range b[:k] {
				bs = append(bs, x.(*smt.Term))
			}
			if k > 0 {
				r := write(w, file(w, a[0]), bs).(Tuple)
				if r[1].(Iface).T != nil {
					return Tuple{w.ctx.Const(64, uint64(n)), r[1]}
				}
			}
			n += k
			if e := t[1].(Iface); e.T != nil {
				if w.branch(w.equal(e, ioEOF(w).(Iface))) {
					e = Iface{}
				}
				return Tuple{w.ctx.Const(64, uint64(n)), e}
			}
		}
	})
	reg("(*os.File).WriteTo", func(w *W, fr *frame, a []Value) Value {
		f := file(w, a[0])
		if f == nil || f.dead || !f.read {
			return Tuple{w.ctx.Const(64, 0), w.errorValue("read: file already closed")}
		}
		if f.pos >= len(f.data) {
			return Tuple{w.ctx.Const(64, 0), Iface{}}
		}
		b := append([]Value{}, f.data[f.pos:]...)
		f.pos = len(f.data)
		return w.invoke(a[1].(Iface), "Write", []Value{b}, fr)
	})
	reg("os.Remove", func(w *W, fr *frame, a []Value) Value {
		if _, ok := w.vfs[lbl(a[0])]; !ok {
			return noFile(w, "remove "+lbl(a[0]))
		}
		delete(w.vfs, lbl(a[0]))
		return Iface{}
	})
	reg("os.Rename", func(w *W, fr *frame, a []Value) Value {
		d, ok := w.vfs[lbl(a[0])]
		if !ok || path.Dir(lbl(a[1])) != vfsDir {
			return noFile(w, "rename "+lbl(a[0]))
		}
		delete(w.vfs, lbl(a[0]))
		w.vfs[lbl(a[1])] = d
		return Iface{}
	})
	reg("os.IsNotExist", func(w *W, fr *frame, a []Value) Value {
		e := a[0].(Iface)
		if e.T == nil {
			return w.ctx.False
		}
		s, ok := w.invoke(e, "Error", nil, fr).(*Str)
		return w.ctx.Bool(ok && s.B == nil && strings.HasSuffix(s.S, "no such file or directory"))
	})
	reg("os.WriteFile", wf)
	reg("io/ioutil.WriteFile", wf)
}

// blocked packages must not be interpreted on zero-valued stand-ins.
var blocked = map[string]bool{
	"os": true, "syscall": true, "reflect": true, "encoding/json": true, "time": true, "runtime": true,
	"internal/poll": true, "fmt": true, "sync": true, "sync/atomic": true, "math/rand": true, "log": true,
	"internal/reflectlite": true, "encoding/gob": true,
}

// ---------- encoding/binary ----------

func regEnc(reg func(string, intrinsic)) {
	reg("encoding/binary.Read", func(w *W, fr *frame, a []Value) Value { return w.binaryRead(fr, a[0], a[1].(Iface), a[2].(Iface)) })
	reg("encoding/binary.Size", func(w *W, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return w.ctx.Const(64, ^uint64(0))
		}
		n, ok := w.binSize(i.T, i.V)
		if !ok {
			return w.ctx.Const(64, ^uint64(0))
		}
		return w.ctx.Const(64, uint64(n))
	})
	reg("encoding/json.Unmarshal", func(w *W, fr *frame, a []Value) Value {
		data := w.concBytes(a[0].([]Value))
		return w.jsonInto(data, a[1].(Iface))
	})
	reg("encoding/json.NewDecoder", func(w *W, fr *frame, a []Value) Value {
		p := new(Value)
		*p = w.zero(w.pkgType("encoding/json", "Decoder"))
		w.jdec(p).nd = json.NewDecoder(&jreader{w, a[0].(Iface)})
		return p
	})
	reg("encoding/json.Valid", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Bool(json.Valid(w.concBytes(a[0].([]Value))))
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(w *W, fr *frame, a []Value) Value {
		w.jdec(a[0].(*Value)).strict = true
		return nil
	})
	reg("(*encoding/json.Decoder).Decode", func(w *W, fr *frame, a []Value) Value {
		d := w.jdec(a[0].(*Value))
		var raw json.RawMessage
		if err := d.nd.Decode(&raw); err != nil {
			return w.jsonErr(err)
		}
		return w.jsonInto2(raw, a[1].(Iface), d.strict)
	})
	reg("(*encoding/json.Decoder).More", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Bool(w.jdec(a[0].(*Value)).nd.More())
	})
	reg("(*encoding/json.Decoder).InputOffset", func(w *W, fr *frame, a []Value) Value {
		return w.ctx.Const(64, uint64(w.jdec(a[0].(*Value)).nd.InputOffset()))
	})
	reg("(*encoding/json.Decoder).Token", func(w *W, fr *frame, a []Value) Value {
		t, err := w.jdec(a[0].(*Value)).nd.Token()
		if err != nil {
			return Tuple{Iface{}, w.jsonErr(err)}
		}
		if d, ok := t.(json.Delim); ok {
			return Tuple{Iface{T: w.pkgType("encoding/json", "Delim"), V: w.ctx.Const(32, uint64(d))}, Iface{}}
		}
		return Tuple{w.jsonAny(t), Iface{}}
	})
	reg("(*encoding/json.Decoder).Buffered", func(w *W, fr *frame, a []Value) Value {
		bs, _ := io.ReadAll(w.jdec(a[0].(*Value)).nd.Buffered())
		s := make([]Value, len(bs))
		for i := range s {
			s[i] = w.ctx.Const(8, uint64(bs[i]))
		}
		f := w.pkgFunc("bytes", "NewReader")
		p := w.callFn(f, []Value{s}, fr)
		return Iface{T: f.Signature.Results().At(0).Type(), V: p}
	})
	reg("(*encoding/json.Decoder).UseNumber", func(w *W, fr *frame, a []Value) Value {
		panic(unsupported("json.Decoder.UseNumber"))
	})
}

func (w *W) binSize(t types.Type, v Value) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := typeInfo(t)
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return 0, false
		}
		switch ti.k {
		case kBool:
			return 1, true
		case kInt, kUint, kFloat:
			return int(ti.w) / 8, true
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k, ok := w.binSize(u.Field(i).Type(), nil)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case *types.Array:
		k, ok := w.binSize(u.Elem(), nil)
		return k * int(u.Len()), ok
	case *types.Slice:
		s, ok := v.([]Value)
		if !ok {
			return 0, false
		}
		k, ok := w.binSize(u.Elem(), nil)
		return k * len(s), ok
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return 0, false
		}
		return w.binSize(u.Elem(), *p)
	}
	return 0, false
}

func (w *W) binaryRead(fr *frame, r Value, order Iface, dst Iface) Value {
	if order.T == nil || dst.T == nil {
		panic(unsupported("binary.Read with nil"))
	}
	big := false
	switch order.T.String() {
	case "encoding/binary.littleEndian":
	case "encoding/binary.bigEndian":
		big = true
	default:
		panic(unsupported("byte order " + order.T.String()))
	}
	n, ok := w.binSize(dst.T, dst.V)
	if !ok {
		return w.errorValue("binary.Read: invalid type " + dst.T.String())
	}
	w.allocs += int64(n) / 8
	if w.allocs > maxAlloc*2 {
		w.end("alloc", "too much memory")
	}
	buf := w.newSlice(types.Typ[types.Uint8], n, n)
	rf := w.e.Prog.ImportedPackage("io").Func("ReadFull")
	res := w.callFn(rf, []Value{r, buf}, fr).(Tuple)
	if e := res[1].(Iface); e.T != nil {
		return e
	}
	off := 0
	switch u := dst.T.Underlying().(type) {
	case *types.Pointer:
		p := dst.V.(*Value)
		if s, isS := (*p).([]Value); isS {
			el := u.Elem().Underlying().(*types.Slice).Elem()
			for i := range s {
				w.raceAccess(&s[i], true)
				w.storeInto(&s[i], w.binDecode(el, buf, &off, big))
			}
		} else {
			w.raceAccess(p, true)
			w.storeInto(p, w.binDecode(u.Elem(), buf, &off, big))
		}
	case *types.Slice:
		s := dst.V.([]Value)
		for i := range s {
			w.raceAccess(&s[i], true)
			w.storeInto(&s[i], w.binDecode(u.Elem(), buf, &off, big))
		}
	default:
		return w.errorValue("binary.Read: invalid type " + dst.T.String())
	}
	return Iface{}
}

func (w *W) binDecode(t types.Type, buf []Value, off *int, big bool) Value {
	c := w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := typeInfo(t)
		if ti.k == kBool {
			b := buf[*off].(*smt.Term)
			*off++
			return c.Not(c.Eq(b, c.Const(8, 0)))
		}
		k := int(ti.w) / 8
		bs := buf[*off : *off+k]
		*off += k
		r := bs[0].(*smt.Term)
		for i := 1; i < k; i++ {
			b := bs[i].(*smt.Term)
			if big {
				r = c.Concat(r, b)
			} else {
				r = c.Concat(b, r)
			}
		}
		return r
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.binDecode(u.Field(i).Type(), buf, off, big)
			if u.Field(i).Name() == "_" {
				s[i] = w.zero(u.Field(i).Type())
			}
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = w.binDecode(u.Elem(), buf, off, big)
		}
		return a
	}
	panic(unsupported("binary decode of " + t.String()))
}

// ---------- encoding/json ----------

// jdecState is the twin of one json.Decoder: a native decoder that reads through the program's reader.
type jdecState struct {
	nd     *json.Decoder
	strict bool
}

type jreader struct {
	w *W
	r Iface
}

// progErr carries an error value of the program through native code.
type progErr struct{ e Iface }

func (e progErr) Error() string { return "error of the program's reader" }

func (j *jreader) Read(p []byte) (int, error) {
	w := j.w
	chunk := w.newSlice(types.Typ[types.Uint8], len(p), len(p))
	res := w.invoke(j.r, "Read", []Value{chunk}, nil).(Tuple)
	n := int(w.concInt(res[0].(*smt.Term), true))
	if n < 0 || n > len(p) {
		panic(unsupported("bad Read count"))
	}
	copy(p, w.concBytes(chunk[:n]))
	e := res[1].(Iface)
	if e.T == nil {
		return n, nil
	}
	eof := w.pkgVar("io", "EOF").(Iface)
	if types.Identical(e.T, eof.T) && w.equal(e, eof).IsTrue() {
		return n, io.EOF
	}
	return n, progErr{e}
}

// jsonErr is the program's value of an error of the native decoder.
func (w *W) jsonErr(err error) Iface {
	var pe progErr
	switch {
	case err == nil:
		return Iface{}
	case errors.As(err, &pe):
		return pe.e
	case err == io.EOF:
		return w.pkgVar("io", "EOF").(Iface)
	case err == io.ErrUnexpectedEOF:
		return w.pkgVar("io", "ErrUnexpectedEOF").(Iface)
	}
	return w.errorValue(err.Error())
}

func (w *W) jdec(p *Value) *jdecState {
	if w.jdecs == nil {
		w.jdecs = map[*Value]*jdecState{}
	}
	d := w.jdecs[p]
	if d == nil {
		d = &jdecState{}
		w.jdecs[p] = d
	}
	return d
}

func (w *W) concBytes(s []Value) []byte {
	b := make([]byte, len(s))
	for i := range s {
		b[i] = byte(w.concretize(s[i].(*smt.Term)))
	}
	return b
}

func (w *W) jsonInto(data []byte, dst Iface) Value { return w.jsonInto2(data, dst, false) }

func (w *W) jsonInto2(data []byte, dst Iface, strict bool) Value {
	p, ok := dst.V.(*Value)
	if dst.T == nil || !ok || p == nil {
		return w.errorValue("json: Unmarshal(non-pointer)")
	}
	el := dst.T.Underlying().(*types.Pointer).Elem()
	rt := w.reflType(el, 0)
	rv := reflect.New(rt)
	w.toRefl(*p, el, rv.Elem())
	var err error
	if strict {
		d := json.NewDecoder(bytes.NewReader(data))
		d.DisallowUnknownFields()
		err = d.Decode(rv.Interface())
	} else {
		err = json.Unmarshal(data, rv.Interface())
	}
	bad := ""
	nv := w.fromRefl(rv.Elem(), el, *p, &bad)
	w.storeInto(p, nv)
	if err == nil && bad != "" {
		return w.errorValue("json: cannot unmarshal number " + bad + " into Go value")
	}
	if err != nil {
		return w.errorValue(err.Error())
	}
	return Iface{}
}

// reflType builds the native twin of a program type.
func (w *W) reflType(t types.Type, depth int) reflect.Type {
	if depth > 8 {
		panic(unsupported("recursive json type " + t.String()))
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json/jsontext" && n.Obj().Name() == "Value" {
			return reflect.TypeOf(json.RawMessage(nil))
		}
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" {
			switch n.Obj().Name() {
			case "RawMessage":
				return reflect.TypeOf(json.RawMessage(nil))
			case "Number":
				return reflect.TypeOf(json.Number(""))
			}
		}
		if m := w.methodByName(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			panic(unsupported("UnmarshalJSON method of " + t.String()))
		}
		if m := w.methodByName(types.NewPointer(t), "UnmarshalText"); m != nil {
			panic(unsupported("UnmarshalText method of " + t.String()))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.TypeOf(false)
		case types.Int:
			return reflect.TypeOf(int(0))
		case types.Int8:
			return reflect.TypeOf(int8(0))
		case types.Int16:
			return reflect.TypeOf(int16(0))
		case types.Int32:
			return reflect.TypeOf(int32(0))
		case types.Int64:
			return reflect.TypeOf(int64(0))
		case types.Uint:
			return reflect.TypeOf(uint(0))
		case types.Uint8:
			return reflect.TypeOf(uint8(0))
		case types.Uint16:
			return reflect.TypeOf(uint16(0))
		case types.Uint32:
			return reflect.TypeOf(uint32(0))
		case types.Uint64:
			return reflect.TypeOf(uint64(0))
		case types.Float32:
			return reflect.TypeOf(float32(0))
		case types.Float64:
			return reflect.TypeOf(float64(0))
		case types.String:
			return reflect.TypeOf("")
		}
	case *types.Slice:
		return reflect.SliceOf(w.reflType(u.Elem(), depth+1))
	case *types.Array:
		return reflect.ArrayOf(int(u.Len()), w.reflType(u.Elem(), depth+1))
	case *types.Map:
		return reflect.MapOf(w.reflType(u.Key(), depth+1), w.reflType(u.Elem(), depth+1))
	case *types.Pointer:
		return reflect.PtrTo(w.reflType(u.Elem(), depth+1))
	case *types.Interface:
		if u.NumMethods() == 0 {
			return reflect.TypeOf((*interface{})(nil)).Elem()
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Anonymous() {
				panic(unsupported("embedded field in json type"))
			}
			if !f.Exported() {
				// invisible to encoding/json
				continue
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: w.reflType(f.Type(), depth+1), Tag: reflect.StructTag(u.Tag(i))})
		}
		return reflect.StructOf(fs)
	}
	panic(unsupported("json into " + t.String()))
}

// toRefl copies the present contents (so that merging semantics are kept).
func (w *W) toRefl(v Value, t types.Type, r reflect.Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *smt.Term:
			if x.Op != smt.OpConst {
				panic(unsupported("json into symbolic target"))
			}
			switch r.Kind() {
			case reflect.Bool:
				r.SetBool(x.C == 1)
			case reflect.Float64, reflect.Float32:
				r.SetFloat(f64of(x))
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				r.SetInt(x.SVal())
			default:
				r.SetUint(x.C)
			}
		case *Str:
			if x.B != nil {
				panic(unsupported("json into symbolic target"))
			}
			r.SetString(x.S)
		}
	case *types.Struct:
		s := v.(Struct)
		k := 0
		for i := range s {
			if !u.Field(i).Exported() {
				continue
			}
			w.toRefl(s[i], u.Field(i).Type(), r.Field(k))
			k++
		}
	case *types.Slice:
		if s := v.([]Value); len(s) > 0 {
			r.Set(reflect.MakeSlice(r.Type(), len(s), len(s)))
			for i := range s {
				w.toRefl(s[i], u.Elem(), r.Index(i))
			}
		}
	case *types.Array:
		for i, x := range v.(Array) {
			w.toRefl(x, u.Elem(), r.Index(i))
		}
	case *types.Map:
		if m := v.(*MapV); m != nil && m.n > 0 {
			panic(unsupported("json into non-empty map"))
		} else if m != nil {
			r.Set(reflect.MakeMap(r.Type()))
		}
	case *types.Pointer:
		if p := v.(*Value); p != nil {
			r.Set(reflect.New(r.Type().Elem()))
			w.toRefl(*p, u.Elem(), r.Elem())
		}
	case *types.Interface:
		if v.(Iface).T != nil {
			panic(unsupported("json into non-nil interface"))
		}
	}
}

// fromRefl converts back, replacing number literals of tokens by their terms.
func (w *W) fromRefl(r reflect.Value, t types.Type, old Value, bad *string) Value {
	c := w.ctx
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch r.Kind() {
		case reflect.Bool:
			return c.Bool(r.Bool())
		case reflect.String:
			return mkStr(r.String())
		case reflect.Float64, reflect.Float32:
			f := r.Float()
			if isTokFloat(f) {
				if tk, ok := w.tokForInt(int64(f)); ok {
					return w.tokFloat(tk)
				}
			}
			if r.Kind() == reflect.Float32 {
				return c.Const(32, f32bits(f))
			}
			return c.F64(f)
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			wd := typeInfo(t).w
			if tk, ok := w.tokForInt(r.Int()); ok {
				return w.tokInt(tk, wd, true, bad)
			}
			return c.Const(wd, uint64(r.Int()))
		default:
			wd := typeInfo(t).w
			if tk, ok := w.tokForInt(int64(r.Uint())); ok {
				return w.tokInt(tk, wd, false, bad)
			}
			return c.Const(wd, r.Uint())
		}
	case *types.Struct:
		os, _ := old.(Struct)
		s := make(Struct, u.NumFields())
		k := 0
		for i := range s {
			if !u.Field(i).Exported() {
				s[i] = os[i]
				continue
			}
			s[i] = w.fromRefl(r.Field(k), u.Field(i).Type(), os[i], bad)
			k++
		}
		return s
	case *types.Slice:
		if r.IsNil() {
			return []Value(nil)
		}
		if r.Type().Elem().Kind() == reflect.Uint8 {
			bs := r.Bytes()
			s := make([]Value, len(bs))
			for i := range s {
				s[i] = c.Const(8, uint64(bs[i]))
			}
			return s
		}
		s := make([]Value, r.Len())
		for i := range s {
			s[i] = w.fromRefl(r.Index(i), u.Elem(), w.zero(u.Elem()), bad)
		}
		return s
	case *types.Array:
		a := make(Array, r.Len())
		for i := range a {
			a[i] = w.fromRefl(r.Index(i), u.Elem(), w.zero(u.Elem()), bad)
		}
		return a
	case *types.Map:
		if r.IsNil() {
			return (*MapV)(nil)
		}
		m := w.newMap()
		for _, k := range r.MapKeys() {
			w.mapSet(m, w.fromRefl(k, u.Key(), w.zero(u.Key()), bad), w.fromRefl(r.MapIndex(k), u.Elem(), w.zero(u.Elem()), bad), tinfo{})
		}
		return m
	case *types.Pointer:
		if r.IsNil() {
			return (*Value)(nil)
		}
		p := new(Value)
		*p = w.fromRefl(r.Elem(), u.Elem(), w.zero(u.Elem()), bad)
		return p
	case *types.Interface:
		if r.IsNil() {
			return Iface{}
		}
		return w.jsonAny(r.Interface())
	}
	panic(unsupported("json result"))
}

func (w *W) tokFloat(tk tok) Value {
	if tk.float {
		return tk.t
	}
	if !smallTok(tk.t) {
		panic(unsupported("integer literal of unbounded size parsed as a float"))
	}
	return w.ctx.Conv(smt.OpS64toF64, tk.t)
}

func (w *W) tokInt(tk tok, wd uint8, signed bool, bad *string) Value {
	c := w.ctx
	if tk.float {
		*bad = "float"
		return c.Const(wd, 0)
	}
	if wd < 64 {
		var in *smt.Term
		if signed {
			in = c.Eq(c.SExt(c.Extract(tk.t, wd-1, 0), 64), tk.t)
		} else {
			in = c.Eq(c.ZExt(c.Extract(tk.t, wd-1, 0), 64), tk.t)
		}
		if !w.branch(in) {
			*bad = "out of range"
			return c.Const(wd, 0)
		}
		return c.Extract(tk.t, wd-1, 0)
	}
	if !signed && !w.branch(c.Cmp(smt.OpSLe, c.Const(64, 0), tk.t)) {
		*bad = "negative"
		return c.Const(wd, 0)
	}
	return tk.t
}

func (w *W) jsonAny(x interface{}) Iface {
	anyT := types.NewInterfaceType(nil, nil)
	switch v := x.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{T: types.Typ[types.Bool], V: w.ctx.Bool(v)}
	case float64:
		if isTokFloat(v) {
			if tk, ok := w.tokForInt(int64(v)); ok {
				return Iface{T: types.Typ[types.Float64], V: w.tokFloat(tk)}
			}
		}
		return Iface{T: types.Typ[types.Float64], V: w.ctx.F64(v)}
	case string:
		return Iface{T: types.Typ[types.String], V: mkStr(v)}
	case []interface{}:
		s := make([]Value, len(v))
		for i := range v {
			s[i] = w.jsonAny(v[i])
		}
		return Iface{T: types.NewSlice(anyT), V: s}
	case map[string]interface{}:
		m := w.newMap()
		for k, e := range v {
			w.mapSet(m, mkStr(k), w.jsonAny(e), tinfo{})
		}
		return Iface{T: types.NewMap(types.Typ[types.String], anyT), V: m}
	}
	panic(unsupported(fmt.Sprintf("json value %T", x)))
}
