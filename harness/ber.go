package main

import (
	"errors"
	"io"
)

// Own BER encoding and decoding, independent of the server's library.

const (
	clsUniversal = 0x00
	clsApp       = 0x40
	clsCtx       = 0x80
	constructed  = 0x20
)

func berLen(n int) []byte {
	switch {
	case n < 128:
		return []byte{byte(n)}
	case n < 256:
		return []byte{0x81, byte(n)}
	case n < 65536:
		return []byte{0x82, byte(n >> 8), byte(n)}
	default:
		return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
}

func tlv(tag byte, content ...[]byte) []byte {
	n := 0
	for _, c := range content {
		n += len(c)
	}
	out := append([]byte{tag}, berLen(n)...)
	for _, c := range content {
		out = append(out, c...)
	}
	return out
}

func berInt(tag byte, v int64) []byte {
	n := 1
	for x := v; x > 127 || x < -128; x >>= 8 {
		n++
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return tlv(tag, b)
}

func berStr(s string) []byte { return tlv(0x04, []byte(s)) }
func berBool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}
func berSeq(c ...[]byte) []byte { return tlv(0x30, c...) }
func berSet(c ...[]byte) []byte { return tlv(0x31, c...) }

func message(id int64, op []byte, controls []byte) []byte {
	if controls != nil {
		return berSeq(berInt(2, id), op, controls)
	}
	return berSeq(berInt(2, id), op)
}

type node struct {
	tag  byte
	data []byte
	kids []*node
}

var errBER = errors.New("malformed BER")

// parseTLV parses one element of b and returns the rest.
func parseTLV(b []byte) (*node, []byte, error) {
	if len(b) < 2 {
		return nil, nil, errBER
	}
	n := &node{tag: b[0]}
	if n.tag&0x1f == 0x1f {
		return nil, nil, errBER
	}
	l := int(b[1])
	off := 2
	if l >= 128 {
		k := l & 0x7f
		if k == 0 || k > 4 || len(b) < 2+k {
			return nil, nil, errBER
		}
		l = 0
		for i := 0; i < k; i++ {
			l = l<<8 | int(b[2+i])
		}
		off += k
	}
	if len(b) < off+l {
		return nil, nil, errBER
	}
	n.data = b[off : off+l]
	if n.tag&constructed != 0 {
		c := n.data
		for len(c) > 0 {
			k, rest, err := parseTLV(c)
			if err != nil {
				return nil, nil, err
			}
			n.kids = append(n.kids, k)
			c = rest
		}
	}
	return n, b[off+l:], nil
}

func (n *node) int() int64 {
	var v int64
	for i, b := range n.data {
		if i == 0 && b&0x80 != 0 {
			v = -1
		}
		v = v<<8 | int64(b)
	}
	return v
}

// readMessage reads one complete top level element.
func readMessage(r io.Reader) ([]byte, error) {
	h := make([]byte, 2)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	l := int(h[1])
	buf := h
	if l >= 128 {
		k := l & 0x7f
		if k == 0 || k > 4 {
			return nil, errBER
		}
		e := make([]byte, k)
		if _, err := io.ReadFull(r, e); err != nil {
			return nil, err
		}
		l = 0
		for _, b := range e {
			l = l<<8 | int(b)
		}
		buf = append(buf, e...)
	}
	if l > 1<<24 {
		return nil, errBER
	}
	b := make([]byte, l)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return append(buf, b...), nil
}
