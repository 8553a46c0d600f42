package kproto

import "math/rand"

// GenOpt steers the random message generator.
type GenOpt struct {
	// Over overrides the value of a field (path is dotted, without indices).
	Over func(path string, kind string) (any, bool)
	// MaxElems bounds arrays.
	MaxElems int
	// MaxBytes bounds strings and byte strings.
	MaxBytes int
	// Tags adds random tagged fields to flexible structures.
	Tags bool
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-:/ é世"

// RandString is a random printable string.
func RandString(r *rand.Rand, n int) string {
	rs := []rune(alphabet)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	return string(out)
}

// RandName is a random legal topic/group name, never empty.
func RandName(r *rand.Rand, n int) string {
	const a = "abcdefghijklmnopqrstuvwxyz0123456789._-"
	b := make([]byte, 1+r.Intn(n))
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

// RandBytes returns n random bytes.
func RandBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// RandLen prefers the lengths around encoding boundaries.
func RandLen(r *rand.Rand, max int) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return min(max, 1)
	case 2:
		return min(max, []int{62, 63, 64, 65, 126, 127, 128, 129, 255, 256}[r.Intn(10)])
	case 3:
		return r.Intn(max + 1)
	}
	return r.Intn(min(max, 20) + 1)
}

// RandInt of the given width, edges preferred.
func RandInt(r *rand.Rand, bits uint) int64 {
	lim := int64(1)<<(bits-1) - 1
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return lim
	case 3:
		return -lim - 1
	case 4:
		return r.Int63() & lim
	case 5:
		return -(r.Int63() & lim)
	}
	return r.Int63n(1000) & lim
}

func genTags(r *rand.Rand) []Tag {
	if r.Intn(3) != 0 {
		return nil
	}
	var ts []Tag
	id := uint64(r.Intn(3))
	for i := 0; i < 1+r.Intn(2); i++ {
		ts = append(ts, Tag{ID: id, Data: RandBytes(r, RandLen(r, 40))})
		id += 1 + uint64(r.Intn(200))
	}
	return ts
}

// GenTags makes random header tags.
func GenTags(r *rand.Rand) []Tag { return genTags(r) }

func genVal(r *rand.Rand, t *ftype, ver int, flex bool, path string, o *GenOpt) any {
	if o.Over != nil {
		if v, ok := o.Over(path, t.kind); ok {
			return v
		}
	}
	if t.nullable && r.Intn(4) == 0 {
		return nil
	}
	switch t.kind {
	case "int8":
		return RandInt(r, 8)
	case "int16":
		return RandInt(r, 16)
	case "int32":
		return RandInt(r, 32)
	case "int64":
		return RandInt(r, 64)
	case "bool":
		return r.Intn(2) == 0
	case "string":
		return RandString(r, RandLen(r, o.MaxBytes))
	case "bytes":
		return RandBytes(r, RandLen(r, o.MaxBytes))
	}
	n := r.Intn(o.MaxElems + 1)
	out := []any{}
	for i := 0; i < n; i++ {
		if t.elem != nil {
			out = append(out, genVal(r, t.elem, ver, flex, path+"[]", o))
		} else {
			out = append(out, genStruct(r, t.fields, ver, flex, path, o))
		}
	}
	return out
}

func genStruct(r *rand.Rand, fs []field, ver int, flex bool, path string, o *GenOpt) M {
	m := M{}
	for i := range fs {
		f := &fs[i]
		if ver < f.min || ver > f.max {
			continue
		}
		p := f.name
		if path != "" {
			p = path + "." + f.name
		}
		m[f.name] = genVal(r, &f.t, ver, flex, p, o)
	}
	if flex && o.Tags {
		if ts := genTags(r); ts != nil {
			m[TagsKey] = ts
		}
	}
	return m
}

// Gen makes a random message of the schema.
func (s *Schema) Gen(r *rand.Rand, ver int, o GenOpt) M {
	if o.MaxElems == 0 {
		o.MaxElems = 4
	}
	if o.MaxBytes == 0 {
		o.MaxBytes = 300
	}
	return genStruct(r, s.fields, ver, s.Flexible(ver), "", &o)
}

// Fields lists the names of the top level fields at a version.
func (s *Schema) Fields(ver int) []string {
	var out []string
	for _, f := range s.fields {
		if ver >= f.min && ver <= f.max {
			out = append(out, f.name)
		}
	}
	return out
}

// FieldPaths lists the dotted paths of the scalar fields at a version.
func (s *Schema) FieldPaths(ver int) []string {
	var out []string
	var walk func(fs []field, p string)
	walk = func(fs []field, p string) {
		for _, f := range fs {
			if ver < f.min || ver > f.max {
				continue
			}
			q := f.name
			if p != "" {
				q = p + "." + f.name
			}
			if f.t.kind == "array" && f.t.elem == nil {
				walk(f.t.fields, q)
			} else {
				out = append(out, q)
			}
		}
	}
	walk(s.fields, "")
	return out
}

// StripTags removes the tagged fields of a value tree in place.
func StripTags(v any) {
	switch x := v.(type) {
	case M:
		delete(x, TagsKey)
		for _, e := range x {
			StripTags(e)
		}
	case []any:
		for _, e := range x {
			StripTags(e)
		}
	}
}
