// Package kproto is an independent, schema driven codec for the Kafka wire
// protocol. It is written from the public protocol guide and shares no code
// with the system under test: it is the oracle the monitors decode with.
package kproto

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// M is a decoded message (or nested struct).
//
//	int8..int64 -> int64, bool -> bool, string -> string (nil when null),
//	bytes -> []byte (untyped nil when null), arrays -> []any (untyped nil when null)
type M map[string]any

// Tag is one tagged field.
type Tag struct {
	ID   uint64
	Data []byte
}

const TagsKey = "_tags"

type ftype struct {
	kind     string // int8,int16,int32,int64,bool,string,bytes,array
	nullable bool
	elem     *ftype  // array of primitives
	fields   []field // array of structs
}

type field struct {
	name     string
	t        ftype
	min, max int
}

// Schema is a message schema.
type Schema struct {
	fields []field
	flex   int // first flexible version, or -1
}

type parser struct {
	toks []string
	i    int
}

func tokenize(s string) []string {
	var out []string
	cur := ""
	fl := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for _, r := range s {
		switch {
		case unicode.IsSpace(r):
			fl()
		case strings.ContainsRune("[]{};", r):
			fl()
			out = append(out, string(r))
		default:
			cur += string(r)
		}
	}
	fl()
	return out
}

func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.i++; return t }

func (p *parser) fields() []field {
	var fs []field
	for p.peek() != "" && p.peek() != "}" {
		if p.peek() == ";" {
			p.next()
			continue
		}
		f := field{name: p.next(), min: 0, max: 1 << 20}
		f.t = p.typ()
		if strings.HasPrefix(p.peek(), "@") {
			v := p.next()[1:]
			switch {
			case strings.HasSuffix(v, "+"):
				f.min, _ = strconv.Atoi(v[:len(v)-1])
			case strings.Contains(v, "-"):
				a, b, _ := strings.Cut(v, "-")
				f.min, _ = strconv.Atoi(a)
				f.max, _ = strconv.Atoi(b)
			default:
				f.min, _ = strconv.Atoi(v)
				f.max = f.min
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func (p *parser) typ() ftype {
	t := p.next()
	var f ftype
	if t == "n" || (len(t) > 1 && t[0] == '?') {
		f.nullable = true
		if t == "n" {
			t = p.next()
		} else {
			t = t[1:]
		}
	}
	if t == "?" {
		f.nullable = true
		t = p.next()
	}
	if t == "[" {
		f.kind = "array"
		if p.peek() == "{" {
			p.next()
			f.fields = p.fields()
			if p.next() != "}" {
				panic("schema: expected }")
			}
		} else {
			e := p.typ()
			f.elem = &e
		}
		if p.next() != "]" {
			panic("schema: expected ]")
		}
		return f
	}
	f.kind = t
	switch t {
	case "int8", "int16", "int32", "int64", "bool", "string", "bytes":
	default:
		panic("schema: unknown type " + t)
	}
	return f
}

// Parse builds a schema; flex is the first flexible version (-1: never).
func Parse(s string, flex int) *Schema {
	p := &parser{toks: tokenize(s)}
	return &Schema{fields: p.fields(), flex: flex}
}

func (s *Schema) Flexible(v int) bool { return s.flex >= 0 && v >= s.flex }

// ---- encoding

type Enc struct{ B []byte }

func (e *Enc) I8(v int64)  { e.B = append(e.B, byte(v)) }
func (e *Enc) I16(v int64) { e.B = binary.BigEndian.AppendUint16(e.B, uint16(v)) }
func (e *Enc) I32(v int64) { e.B = binary.BigEndian.AppendUint32(e.B, uint32(v)) }
func (e *Enc) I64(v int64) { e.B = binary.BigEndian.AppendUint64(e.B, uint64(v)) }
func (e *Enc) UV(v uint64) { e.B = binary.AppendUvarint(e.B, v) }
func (e *Enc) V(v int64)   { e.B = binary.AppendVarint(e.B, v) }

func (e *Enc) Tags(ts []Tag) {
	e.UV(uint64(len(ts)))
	for _, t := range ts {
		e.UV(t.ID)
		e.UV(uint64(len(t.Data)))
		e.B = append(e.B, t.Data...)
	}
}

func num(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case int:
		return int64(x)
	case int32:
		return int64(x)
	case int16:
		return int64(x)
	case int8:
		return int64(x)
	case uint16:
		return int64(x)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("kproto: not a number: %T", v))
}

func (e *Enc) value(t *ftype, v any, ver int, flex bool) {
	switch t.kind {
	case "int8":
		e.I8(num(v))
	case "int16":
		e.I16(num(v))
	case "int32":
		e.I32(num(v))
	case "int64":
		e.I64(num(v))
	case "bool":
		if b, _ := v.(bool); b {
			e.I8(1)
		} else {
			e.I8(0)
		}
	case "string":
		s, ok := v.(string)
		if p, isp := v.(*string); isp {
			if p != nil {
				s, ok = *p, true
			}
		}
		if !ok && t.nullable {
			if flex {
				e.UV(0)
			} else {
				e.I16(-1)
			}
			return
		}
		if flex {
			e.UV(uint64(len(s)) + 1)
		} else {
			e.I16(int64(len(s)))
		}
		e.B = append(e.B, s...)
	case "bytes":
		b, ok := v.([]byte)
		if (!ok || b == nil) && t.nullable {
			if flex {
				e.UV(0)
			} else {
				e.I32(-1)
			}
			return
		}
		if flex {
			e.UV(uint64(len(b)) + 1)
		} else {
			e.I32(int64(len(b)))
		}
		e.B = append(e.B, b...)
	case "array":
		a, ok := v.([]any)
		if (!ok || a == nil) && t.nullable {
			if flex {
				e.UV(0)
			} else {
				e.I32(-1)
			}
			return
		}
		if flex {
			e.UV(uint64(len(a)) + 1)
		} else {
			e.I32(int64(len(a)))
		}
		for _, x := range a {
			if t.elem != nil {
				e.value(t.elem, x, ver, flex)
			} else {
				e.strct(t.fields, x.(M), ver, flex)
			}
		}
	}
}

func (e *Enc) strct(fs []field, m M, ver int, flex bool) {
	for i := range fs {
		f := &fs[i]
		if ver < f.min || ver > f.max {
			continue
		}
		e.value(&f.t, m[f.name], ver, flex)
	}
	if flex {
		ts, _ := m[TagsKey].([]Tag)
		e.Tags(ts)
	}
}

// Encode encodes the body of a message.
func (s *Schema) Encode(m M, ver int) []byte {
	e := &Enc{}
	e.strct(s.fields, m, ver, s.Flexible(ver))
	return e.B
}

// ---- decoding

var ErrShort = errors.New("not enough bytes")

type Dec struct {
	B   []byte
	Off int
	Err error
}

func (d *Dec) Need(n int) []byte { return d.need(n) }

func (d *Dec) need(n int) []byte {
	if d.Err != nil {
		return nil
	}
	if n < 0 || d.Off+n > len(d.B) {
		d.Err = fmt.Errorf("%w: need %d at %d of %d", ErrShort, n, d.Off, len(d.B))
		return nil
	}
	b := d.B[d.Off : d.Off+n]
	d.Off += n
	return b
}
func (d *Dec) fail(f string, a ...any) {
	if d.Err == nil {
		d.Err = fmt.Errorf(f, a...)
	}
}
func (d *Dec) I8() int64 {
	b := d.need(1)
	if b == nil {
		return 0
	}
	return int64(int8(b[0]))
}
func (d *Dec) I16() int64 {
	b := d.need(2)
	if b == nil {
		return 0
	}
	return int64(int16(binary.BigEndian.Uint16(b)))
}
func (d *Dec) I32() int64 {
	b := d.need(4)
	if b == nil {
		return 0
	}
	return int64(int32(binary.BigEndian.Uint32(b)))
}
func (d *Dec) I64() int64 {
	b := d.need(8)
	if b == nil {
		return 0
	}
	return int64(binary.BigEndian.Uint64(b))
}
func (d *Dec) UV() uint64 {
	if d.Err != nil {
		return 0
	}
	v, n := binary.Uvarint(d.B[d.Off:])
	if n <= 0 {
		d.fail("bad uvarint at %d", d.Off)
		return 0
	}
	d.Off += n
	return v
}
func (d *Dec) V() int64 {
	if d.Err != nil {
		return 0
	}
	v, n := binary.Varint(d.B[d.Off:])
	if n <= 0 {
		d.fail("bad varint at %d", d.Off)
		return 0
	}
	d.Off += n
	return v
}
func (d *Dec) Tags() []Tag {
	n := d.UV()
	if n > 1000 {
		d.fail("absurd tagged field count %d", n)
		return nil
	}
	var ts []Tag
	last := int64(-1)
	for i := uint64(0); i < n && d.Err == nil; i++ {
		id := d.UV()
		if int64(id) <= last {
			d.fail("tagged fields out of order: %d after %d", id, last)
		}
		last = int64(id)
		l := d.UV()
		ts = append(ts, Tag{id, append([]byte(nil), d.need(int(l))...)})
	}
	return ts
}

func (d *Dec) value(t *ftype, ver int, flex bool, path string) any {
	switch t.kind {
	case "int8":
		return d.I8()
	case "int16":
		return d.I16()
	case "int32":
		return d.I32()
	case "int64":
		return d.I64()
	case "bool":
		v := d.I8()
		if v != 0 && v != 1 {
			d.fail("%s: bool byte is %d", path, v)
		}
		return v == 1
	case "string":
		var l int64
		if flex {
			l = int64(d.UV()) - 1
		} else {
			l = d.I16()
		}
		if d.Err != nil {
			return nil
		}
		if l < 0 {
			if l != -1 || !t.nullable {
				d.fail("%s: string length %d", path, l)
			}
			return nil
		}
		return string(d.need(int(l)))
	case "bytes":
		var l int64
		if flex {
			l = int64(d.UV()) - 1
		} else {
			l = d.I32()
		}
		if d.Err != nil {
			return nil
		}
		if l < 0 {
			if l != -1 || !t.nullable {
				d.fail("%s: bytes length %d", path, l)
			}
			return nil
		}
		return append([]byte{}, d.need(int(l))...)
	case "array":
		var l int64
		if flex {
			l = int64(d.UV()) - 1
		} else {
			l = d.I32()
		}
		if d.Err != nil {
			return nil
		}
		if l < 0 {
			if l != -1 || !t.nullable {
				d.fail("%s: array length %d", path, l)
			}
			return nil
		}
		if l > int64(len(d.B)) {
			d.fail("%s: array length %d exceeds message", path, l)
			return nil
		}
		a := make([]any, 0, l)
		for i := int64(0); i < l && d.Err == nil; i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			if t.elem != nil {
				a = append(a, d.value(t.elem, ver, flex, p))
			} else {
				a = append(a, d.strct(t.fields, ver, flex, p))
			}
		}
		return a
	}
	return nil
}

func (d *Dec) strct(fs []field, ver int, flex bool, path string) M {
	m := M{}
	for i := range fs {
		f := &fs[i]
		if ver < f.min || ver > f.max {
			continue
		}
		m[f.name] = d.value(&f.t, ver, flex, path+"."+f.name)
		if d.Err != nil {
			return m
		}
	}
	if flex {
		if ts := d.Tags(); ts != nil {
			m[TagsKey] = ts
		}
	}
	return m
}

// Decode decodes a body strictly: every byte must be consumed.
func (s *Schema) Decode(b []byte, ver int) (M, error) {
	d := &Dec{B: b}
	m := d.strct(s.fields, ver, s.Flexible(ver), "")
	if d.Err == nil && d.Off != len(b) {
		d.Err = fmt.Errorf("%d trailing bytes after a complete message of %d bytes", len(b)-d.Off, d.Off)
	}
	return m, d.Err
}

// ---- accessors

func (m M) I(k string) int64 { v, _ := m[k].(int64); return v }
func (m M) S(k string) string {
	v, _ := m[k].(string)
	return v
}
func (m M) B(k string) []byte { v, _ := m[k].([]byte); return v }
func (m M) Bool(k string) bool {
	v, _ := m[k].(bool)
	return v
}
func (m M) A(k string) []any { v, _ := m[k].([]any); return v }
func (m M) Ms(k string) []M {
	var r []M
	for _, x := range m.A(k) {
		r = append(r, x.(M))
	}
	return r
}

// Arr converts a slice to []any.
func Arr[T any](xs ...T) []any {
	r := make([]any, 0, len(xs))
	for _, x := range xs {
		r = append(r, any(x))
	}
	return r
}

// Ints converts int32 values to the array representation.
func Ints(xs []int32) []any {
	r := make([]any, 0, len(xs))
	for _, x := range xs {
		r = append(r, int64(x))
	}
	return r
}
