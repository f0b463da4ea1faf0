//go:build go1.21

// Package vzstd reuses the encoders and decoders of the real zstd package:
// creating one clears megabytes, which dominates the cost of small executions.
package vzstd

import (
	"bytes"
	"encoding/binary"
	"io"
	"sync"

	"github.com/klauspost/compress/zstd"
)

var mu sync.Mutex
var encs []*zstd.Encoder
var decs []*zstd.Decoder

// Chunk, when not 0, makes encoders write a frame whenever that many bytes have
// accumulated, otherwise every megabyte. The real encoder writes, and the real decoder
// reads, from its own goroutines, which are not under control of the scheduler; here the
// calling goroutine does. As with the real one, errors are sticky.
var Chunk int

// Encoder wraps a pooled encoder.
type Encoder struct {
	*zstd.Encoder
	closed bool

	chunk int
	w     io.Writer
	buf   []byte
	err   error
}

// Write implements io.Writer.
func (e *Encoder) Write(p []byte) (int, error) {
	if e.chunk == 0 {
		return e.Encoder.Write(p)
	}
	if e.err != nil {
		return 0, e.err
	}
	e.buf = append(e.buf, p...)
	for len(e.buf) >= e.chunk && e.err == nil {
		e.frame(e.chunk)
	}
	if e.err != nil {
		return 0, e.err
	}
	return len(p), nil
}

func (e *Encoder) frame(n int) {
	out := e.Encoder.EncodeAll(e.buf[:n], nil)
	e.buf = append(e.buf[:0], e.buf[n:]...)
	var m int
	m, e.err = e.w.Write(out)
	if e.err == nil && m != len(out) {
		e.err = io.ErrShortWrite
	}
}

// Flush writes everything.
func (e *Encoder) Flush() error {
	if e.chunk == 0 {
		return e.Encoder.Flush()
	}
	if e.err == nil && len(e.buf) > 0 {
		e.frame(len(e.buf))
	}
	return e.err
}

// NewWriter is zstd.NewWriter.
func NewWriter(w io.Writer, opts ...zstd.EOption) (*Encoder, error) {
	if len(opts) == 0 {
		chunk := Chunk
		if chunk <= 0 {
			chunk = 1 << 20
		}
		mu.Lock()
		defer mu.Unlock()
		var enc *zstd.Encoder
		if n := len(encs); n > 0 {
			enc, encs = encs[n-1], encs[:n-1]
		} else {
			var err error
			if enc, err = zstd.NewWriter(nil); err != nil {
				return nil, err
			}
		}
		return &Encoder{Encoder: enc, chunk: chunk, w: w}, nil
	}
	e, err := zstd.NewWriter(w, opts...)
	if err != nil {
		return nil, err
	}
	return &Encoder{Encoder: e}, nil
}

// Close finishes the stream.
func (e *Encoder) Close() error {
	if e.chunk > 0 {
		if e.closed {
			return e.err
		}
		e.closed = true
		_ = e.Flush()
		mu.Lock()
		encs = append(encs, e.Encoder)
		mu.Unlock()
		return e.err
	}
	return e.Encoder.Close()
}

// Decoder reads a stream.
type Decoder struct {
	dec  *zstd.Decoder
	r    io.Reader // source of further frames
	data []byte
	err  error
}

var scratch []byte

// decode decodes complete frames.
func decode(b []byte) ([]byte, error) {
	mu.Lock()
	defer mu.Unlock()
	var dec *zstd.Decoder
	if n := len(decs); n > 0 {
		dec, decs = decs[n-1], decs[:n-1]
	} else {
		var err error
		dec, err = zstd.NewReader(nil)
		if err != nil {
			return nil, err
		}
	}
	if scratch == nil {
		scratch = make([]byte, 0, 1<<20)
	}
	dst, err := dec.DecodeAll(b, scratch[:0])
	if err == nil {
		decs = append(decs, dec)
	}
	return append([]byte{}, dst...), err
}

// NewReader is zstd.NewReader.
func NewReader(r io.Reader, opts ...zstd.DOption) (*Decoder, error) {
	if bb, ok := r.(*bytes.Buffer); ok && bb.Len() < 1<<20 {
		// The decoder decodes these at once as well.
		data, err := decode(bb.Bytes())
		if err == nil {
			err = io.EOF
		}
		return &Decoder{data: data, err: err}, nil
	}
	if r != nil && len(opts) == 0 {
		return &Decoder{r: r}, nil
	}
	dec, err := zstd.NewReader(r, opts...)
	if err != nil {
		return nil, err
	}
	return &Decoder{dec: dec}, nil
}

// next reads and decodes a frame. If it cannot be read completely the complete blocks are returned.
func (d *Decoder) next() ([]byte, error) {
	var buf []byte
	read := func(n int) ([]byte, error) {
		a := len(buf)
		buf = append(buf, make([]byte, n)...)
		m, err := io.ReadFull(d.r, buf[a:])
		buf = buf[:a+m]
		if err == io.EOF && a > 0 {
			err = io.ErrUnexpectedEOF
		}
		return buf[a:], err
	}
	b, err := read(4)
	if err != nil {
		return nil, err
	}
	if b[0]&0xf0 == 0x50 && b[1] == 0x2a && b[2] == 0x4d && b[3] == 0x18 {
		if b, err = read(4); err == nil {
			_, err = read(int(binary.LittleEndian.Uint32(b)))
		}
		return nil, err
	}
	if binary.LittleEndian.Uint32(b) != 0xfd2fb528 {
		return nil, zstd.ErrMagicMismatch
	}
	if b, err = read(1); err != nil {
		return nil, err
	}
	fd := b[0]
	n := []int{0, 1, 2, 4}[fd&3] + []int{0, 2, 4, 8}[fd>>6]
	if fd&0x20 == 0 || fd>>6 == 0 {
		// The window size, or the size of a single segment.
		n++
	}
	if _, err = read(n); err != nil {
		return nil, err
	}
	// Positions of the blocks and the end of the last one.
	pos := []int{len(buf)}
	for last := false; !last; {
		if b, err = read(3); err != nil {
			break
		}
		bh := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		last = bh&1 != 0
		n := bh >> 3
		if bh>>1&3 == 1 {
			n = 1
		}
		if _, err = read(n); err != nil {
			break
		}
		pos = append(pos, len(buf))
	}
	if err == nil && fd&4 != 0 {
		_, err = read(4)
	}
	if err == nil {
		var out []byte
		if out, err = decode(buf); err == nil {
			return out, nil
		}
	}
	for k := len(pos) - 1; k > 0; k-- {
		p := append([]byte{}, buf[:pos[k]]...)
		p[4] &^= 4
		p[pos[k-1]] |= 1
		if out, e := decode(p); e == nil {
			return out, err
		}
	}
	return nil, err
}

// Read implements io.Reader.
func (d *Decoder) Read(p []byte) (int, error) {
	if d.dec != nil {
		return d.dec.Read(p)
	}
	for len(d.data) == 0 && d.err == nil && d.r != nil && len(p) > 0 {
		d.data, d.err = d.next()
	}
	n := copy(p, d.data)
	d.data = d.data[n:]
	if len(d.data) > 0 {
		return n, nil
	}
	return n, d.err
}

// Close the decoder.
func (d *Decoder) Close() {
	if d.dec != nil {
		d.dec.Close()
	}
}
