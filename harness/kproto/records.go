package kproto

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"

	"github.com/golang/snappy"
	"github.com/pierrec/lz4/v4"
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// Header is a record header.
type Header struct {
	Key   string
	Value []byte
}

// Rec is one log record.
type Rec struct {
	Offset  int64
	Ts      int64
	Key     []byte // nil: null
	Value   []byte // nil: null
	Headers []Header
}

const (
	None   = 0
	Gzip   = 1
	Snappy = 2
	Lz4    = 3
)

// SnappyFramed selects the xerial framing for snappy.
const SnappyFramed = 102

// CodecBits returns the attribute bits of a codec.
func CodecBits(c int) int64 {
	if c == SnappyFramed {
		return Snappy
	}
	return int64(c)
}

var xerialMagic = []byte{130, 83, 78, 65, 80, 80, 89, 0}

// Compress compresses b.
func Compress(codec int, b []byte) []byte {
	var buf bytes.Buffer
	switch codec {
	case Gzip:
		w := gzip.NewWriter(&buf)
		w.Write(b)
		w.Close()
	case Snappy:
		return snappy.Encode(nil, b)
	case SnappyFramed:
		buf.Write(xerialMagic)
		binary.Write(&buf, binary.BigEndian, int32(1))
		binary.Write(&buf, binary.BigEndian, int32(1))
		for len(b) > 0 {
			n := min(len(b), 32*1024)
			c := snappy.Encode(nil, b[:n])
			binary.Write(&buf, binary.BigEndian, int32(len(c)))
			buf.Write(c)
			b = b[n:]
		}
	case Lz4:
		w := lz4.NewWriter(&buf)
		w.Write(b)
		w.Close()
	default:
		return b
	}
	return buf.Bytes()
}

// Decompress is the inverse of Compress by attribute bits.
func Decompress(bits int64, b []byte) ([]byte, error) {
	switch bits {
	case None:
		return b, nil
	case Gzip:
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case Snappy:
		if len(b) >= 16 && bytes.Equal(b[:8], xerialMagic) {
			b = b[16:]
			var out []byte
			for len(b) > 0 {
				if len(b) < 4 {
					return nil, ErrShort
				}
				n := int(binary.BigEndian.Uint32(b))
				if n > len(b)-4 {
					return nil, ErrShort
				}
				c, err := snappy.Decode(nil, b[4:4+n])
				if err != nil {
					return nil, err
				}
				out = append(out, c...)
				b = b[4+n:]
			}
			return out, nil
		}
		return snappy.Decode(nil, b)
	case Lz4:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return nil, fmt.Errorf("unknown compression %d", bits)
}

// BatchOpt tunes the encoding of a record batch.
type BatchOpt struct {
	Codec         int
	BaseOffset    int64
	LastOffset    int64 // offset of the last record slot (compaction may have removed it)
	LeaderEpoch   int32
	BaseTs        int64
	Transactional bool
	Control       bool
	ProducerID    int64
	ProducerEpoch int64
	BaseSeq       int64
	AppendTs      int64 // if not 0: the broker has set this time for the whole batch (LogAppendTime)
}

// EncodeBatch encodes a magic 2 batch.
func EncodeBatch(recs []Rec, o BatchOpt) []byte {
	body := &Enc{}
	maxTs := o.BaseTs
	for _, r := range recs {
		e := &Enc{}
		e.I8(0)
		e.V(r.Ts - o.BaseTs)
		if r.Ts > maxTs {
			maxTs = r.Ts
		}
		e.V(r.Offset - o.BaseOffset)
		vb := func(b []byte) {
			if b == nil {
				e.V(-1)
				return
			}
			e.V(int64(len(b)))
			e.B = append(e.B, b...)
		}
		vb(r.Key)
		vb(r.Value)
		e.V(int64(len(r.Headers)))
		for _, h := range r.Headers {
			e.V(int64(len(h.Key)))
			e.B = append(e.B, h.Key...)
			vb(h.Value)
		}
		body.V(int64(len(e.B)))
		body.B = append(body.B, e.B...)
	}
	payload := body.B
	if o.Codec != None {
		payload = Compress(o.Codec, payload)
	}
	attr := CodecBits(o.Codec)
	if o.Transactional {
		attr |= 0x10
	}
	if o.Control {
		attr |= 0x20
	}
	if o.AppendTs != 0 {
		attr |= 8
		maxTs = o.AppendTs
	}
	t := &Enc{} // from attributes on
	t.I16(attr)
	t.I32(o.LastOffset - o.BaseOffset)
	t.I64(o.BaseTs)
	t.I64(maxTs)
	t.I64(o.ProducerID)
	t.I16(o.ProducerEpoch)
	t.I32(o.BaseSeq)
	t.I32(int64(len(recs)))
	t.B = append(t.B, payload...)
	e := &Enc{}
	e.I64(o.BaseOffset)
	e.I32(int64(len(t.B) + 9))
	e.I32(int64(o.LeaderEpoch))
	e.I8(2)
	e.B = binary.BigEndian.AppendUint32(e.B, crc32.Checksum(t.B, castagnoli))
	e.B = append(e.B, t.B...)
	return e.B
}

// Batch is a decoded batch.
type Batch struct {
	BaseOffset, LeaderEpoch, Attr, LastDelta, BaseTs, MaxTs, PID, PEpoch, Seq int64
	Recs                                                                      []Rec
	Deltas                                                                    []int64
}

// DecodeBatches strictly decodes a concatenation of magic 2 batches.
func DecodeBatches(b []byte) ([]Batch, error) {
	var out []Batch
	for len(b) > 0 {
		d := &Dec{B: b}
		var bt Batch
		bt.BaseOffset = d.I64()
		l := d.I32()
		if d.Err != nil {
			return out, d.Err
		}
		if l < 49 || int(l) > len(b)-12 {
			return out, fmt.Errorf("batch length %d does not fit %d remaining bytes", l, len(b)-12)
		}
		whole := b[:12+l]
		b = b[12+l:]
		d.B = whole
		bt.LeaderEpoch = d.I32()
		if m := d.I8(); m != 2 {
			return out, fmt.Errorf("batch magic %d", m)
		}
		crc := uint32(d.I32())
		if got := crc32.Checksum(whole[21:], castagnoli); got != crc {
			return out, fmt.Errorf("batch crc %08x, computed %08x", crc, got)
		}
		bt.Attr = d.I16()
		bt.LastDelta = d.I32()
		bt.BaseTs = d.I64()
		bt.MaxTs = d.I64()
		bt.PID = d.I64()
		bt.PEpoch = d.I16()
		bt.Seq = d.I32()
		n := d.I32()
		if d.Err != nil {
			return out, d.Err
		}
		payload, err := Decompress(bt.Attr&7, whole[d.Off:])
		if err != nil {
			return out, fmt.Errorf("decompress records (codec %d): %w", bt.Attr&7, err)
		}
		r := &Dec{B: payload}
		for i := int64(0); i < n; i++ {
			rl := r.V()
			if r.Err != nil {
				return out, fmt.Errorf("record %d of %d: %w", i, n, r.Err)
			}
			rb := r.need(int(rl))
			if r.Err != nil {
				return out, fmt.Errorf("record %d of %d: %w", i, n, r.Err)
			}
			e := &Dec{B: rb}
			var rec Rec
			if a := e.I8(); a != 0 {
				return out, fmt.Errorf("record %d attributes %d", i, a)
			}
			rec.Ts = bt.BaseTs + e.V()
			delta := e.V()
			bt.Deltas = append(bt.Deltas, delta)
			rec.Offset = bt.BaseOffset + delta
			vb := func() []byte {
				l := e.V()
				if l < 0 {
					if l != -1 {
						e.fail("negative length %d", l)
					}
					return nil
				}
				return append([]byte{}, e.need(int(l))...)
			}
			rec.Key = vb()
			rec.Value = vb()
			hn := e.V()
			if hn < 0 || hn > int64(len(rb)) {
				e.fail("header count %d", hn)
			}
			for j := int64(0); j < hn && e.Err == nil; j++ {
				k := vb()
				rec.Headers = append(rec.Headers, Header{string(k), vb()})
			}
			if e.Err != nil {
				return out, fmt.Errorf("record %d of %d: %w", i, n, e.Err)
			}
			if e.Off != len(rb) {
				return out, fmt.Errorf("record %d of %d: %d bytes after the record content", i, n, len(rb)-e.Off)
			}
			bt.Recs = append(bt.Recs, rec)
		}
		if r.Off != len(payload) {
			return out, fmt.Errorf("%d bytes after the last of %d records", len(payload)-r.Off, n)
		}
		out = append(out, bt)
	}
	return out, nil
}

// EncodeMessage encodes one magic 0/1 message entry.
func EncodeMessage(magic int, r Rec, attr int64) []byte {
	t := &Enc{}
	t.I8(int64(magic))
	t.I8(attr)
	if magic == 1 {
		t.I64(r.Ts)
	}
	wb := func(b []byte) {
		if b == nil {
			t.I32(-1)
			return
		}
		t.I32(int64(len(b)))
		t.B = append(t.B, b...)
	}
	wb(r.Key)
	wb(r.Value)
	e := &Enc{}
	e.I64(r.Offset)
	e.I32(int64(len(t.B) + 4))
	e.B = binary.BigEndian.AppendUint32(e.B, crc32.ChecksumIEEE(t.B))
	e.B = append(e.B, t.B...)
	return e.B
}

// EncodeMessageSet encodes records as an old format message set; with a codec
// they become one wrapper message (magic 1: relative inner offsets). With
// appendTs (not 0, magic 1) that is the time the broker has set.
func EncodeMessageSet(magic, codec int, recs []Rec, appendTs int64) []byte {
	var out []byte
	attr := CodecBits(codec)
	if appendTs != 0 {
		attr |= 8
	}
	if codec == None {
		for _, r := range recs {
			if appendTs != 0 {
				r.Ts = appendTs
			}
			out = append(out, EncodeMessage(magic, r, attr)...)
		}
		return out
	}
	last := recs[len(recs)-1]
	for _, r := range recs {
		if magic == 1 {
			r.Offset -= recs[0].Offset
		}
		out = append(out, EncodeMessage(magic, r, 0)...)
	}
	ts := last.Ts
	if appendTs != 0 {
		ts = appendTs
	}
	return EncodeMessage(magic, Rec{Offset: last.Offset, Ts: ts, Value: Compress(codec, out)}, attr)
}
