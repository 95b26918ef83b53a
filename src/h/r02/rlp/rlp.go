// Package rlp stands in for the RLP runtime that generated code is written
// against: the repository does not contain it. It offers the calls of the
// go-ethereum package with their documented behaviour.
package rlp

import (
	"errors"
	"io"
	"math/big"
)

type Kind int8

const (
	Byte Kind = iota
	String
	List
)

type RawValue []byte

type Encoder interface {
	EncodeRLP(io.Writer) error
}

type Decoder interface {
	DecodeRLP(*Stream) error
}

var (
	EmptyString = []byte{0x80}
	EmptyList   = []byte{0xC0}

	ErrNegativeBigInt = errors.New("rlp: cannot encode negative big.Int")
	ErrExpectedString = errors.New("rlp: expected String or Byte")
	ErrExpectedList   = errors.New("rlp: expected List")
	ErrCanonInt       = errors.New("rlp: non-canonical integer format")
	ErrCanonSize      = errors.New("rlp: non-canonical size information")
	ErrElemTooLarge   = errors.New("rlp: element is larger than containing list")
	ErrValueTooLarge  = errors.New("rlp: value size exceeds available input length")
	ErrUintOverflow   = errors.New("rlp: uint overflow")
	ErrNotAtEOL       = errors.New("rlp: call of ListEnd not positioned at EOL")
	ErrNotInList      = errors.New("rlp: call of ListEnd outside of any list")
	ErrSize           = errors.New("rlp: input string has the wrong size")
	ErrBool           = errors.New("rlp: invalid boolean value")

	EOL = errors.New("rlp: end of list")
)

// ---- encoding ----

type encBuffer struct {
	parts [][]byte // one per open list, the first is the top level
}

// EncoderBuffer collects the encoding. A buffer made for another buffer adds
// to it and its Flush does nothing.
type EncoderBuffer struct {
	buf *encBuffer
	dst io.Writer
}

func NewEncoderBuffer(dst io.Writer) EncoderBuffer {
	if w, ok := dst.(EncoderBuffer); ok {
		return EncoderBuffer{buf: w.buf}
	}
	return EncoderBuffer{buf: &encBuffer{parts: [][]byte{nil}}, dst: dst}
}

func (w EncoderBuffer) add(b []byte) {
	p := &w.buf.parts[len(w.buf.parts)-1]
	*p = append(*p, b...)
}

func (w EncoderBuffer) Write(b []byte) (int, error) {
	w.add(b)
	return len(b), nil
}

func (w EncoderBuffer) WriteBool(b bool) {
	if b {
		w.add([]byte{1})
	} else {
		w.add(EmptyString)
	}
}

func (w EncoderBuffer) WriteUint64(i uint64) {
	w.WriteBytes(new(big.Int).SetUint64(i).Bytes())
}

func (w EncoderBuffer) WriteBigInt(i *big.Int) { w.WriteBytes(i.Bytes()) }

func header(small byte, n int) []byte {
	if n < 56 {
		return []byte{small + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{small + 55 + byte(len(l))}, l...)
}

func (w EncoderBuffer) WriteBytes(b []byte) {
	if len(b) == 1 && b[0] < 0x80 {
		w.add(b)
		return
	}
	w.add(header(0x80, len(b)))
	w.add(b)
}

func (w EncoderBuffer) WriteString(s string) { w.WriteBytes([]byte(s)) }

// List opens a list.
func (w EncoderBuffer) List() int {
	w.buf.parts = append(w.buf.parts, nil)
	return len(w.buf.parts) - 1
}

// ListEnd closes the list that List returned index for.
func (w EncoderBuffer) ListEnd(index int) {
	if index != len(w.buf.parts)-1 {
		panic("rlp: ListEnd of a list that is not the innermost one")
	}
	p := w.buf.parts[index]
	w.buf.parts = w.buf.parts[:index]
	w.add(header(0xC0, len(p)))
	w.add(p)
}

func (w EncoderBuffer) ToBytes() []byte { return append([]byte{}, w.buf.parts[0]...) }

func (w EncoderBuffer) AppendToBytes(dst []byte) []byte { return append(dst, w.buf.parts[0]...) }

func (w EncoderBuffer) Flush() error {
	if w.dst == nil {
		return nil
	}
	if len(w.buf.parts) != 1 {
		panic("rlp: Flush inside a list")
	}
	_, err := w.dst.Write(w.buf.parts[0])
	w.buf.parts[0] = nil
	return err
}

// ---- decoding ----

// Stream reads from a byte slice.
type Stream struct {
	in    []byte
	pos   int
	limit []int // ends of the open lists
}

func NewStreamBytes(b []byte) *Stream { return &Stream{in: b} }

// Pos is the number of bytes consumed.
func (s *Stream) Pos() int { return s.pos }

func (s *Stream) end() int {
	if n := len(s.limit); n > 0 {
		return s.limit[n-1]
	}
	return len(s.in)
}

// head reads the header of the next item without consuming it.
func (s *Stream) head() (kind Kind, hlen, size int, err error) {
	if s.pos == s.end() {
		if len(s.limit) > 0 {
			return 0, 0, 0, EOL
		}
		return 0, 0, 0, io.EOF
	}
	rest := s.in[s.pos:s.end()]
	b := rest[0]
	tooLarge := ErrElemTooLarge
	if len(s.limit) == 0 {
		tooLarge = ErrValueTooLarge
	}
	long := 0
	switch {
	case b < 0x80:
		return Byte, 0, 1, nil
	case b < 0xB8:
		kind, size = String, int(b-0x80)
	case b < 0xC0:
		kind, long = String, int(b-0xB7)
	case b < 0xF8:
		kind, size = List, int(b-0xC0)
	default:
		kind, long = List, int(b-0xF7)
	}
	hlen = 1 + long
	if long > 0 {
		if len(rest) < hlen {
			return 0, 0, 0, tooLarge
		}
		if rest[1] == 0 {
			return 0, 0, 0, ErrCanonSize
		}
		n := new(big.Int).SetBytes(rest[1:hlen])
		if n.Cmp(big.NewInt(56)) < 0 {
			return 0, 0, 0, ErrCanonSize
		}
		if n.Cmp(big.NewInt(int64(len(rest)))) > 0 {
			return 0, 0, 0, tooLarge
		}
		size = int(n.Int64())
	}
	if hlen+size > len(rest) {
		return 0, 0, 0, tooLarge
	}
	return kind, hlen, size, nil
}

// Kind tells what comes next. The size of a single byte is zero.
func (s *Stream) Kind() (Kind, uint64, error) {
	k, _, size, err := s.head()
	if k == Byte {
		size = 0
	}
	return k, uint64(size), err
}

func (s *Stream) Bytes() ([]byte, error) {
	k, hlen, size, err := s.head()
	if err != nil {
		return nil, err
	}
	if k == List {
		return nil, ErrExpectedString
	}
	b := append([]byte{}, s.in[s.pos+hlen:s.pos+hlen+size]...)
	if k == String && size == 1 && b[0] < 0x80 {
		return nil, ErrCanonSize
	}
	s.pos += hlen + size
	return b, nil
}

func (s *Stream) String() (string, error) {
	b, err := s.Bytes()
	return string(b), err
}

// ReadBytes fills b, which must be as long as the string.
func (s *Stream) ReadBytes(b []byte) error {
	k, _, size, err := s.head()
	if err != nil {
		return err
	}
	if k == List {
		return ErrExpectedString
	}
	if size != len(b) {
		return ErrSize
	}
	v, err := s.Bytes()
	copy(b, v)
	return err
}

func (s *Stream) Raw() ([]byte, error) {
	_, hlen, size, err := s.head()
	if err != nil {
		return nil, err
	}
	b := append([]byte{}, s.in[s.pos:s.pos+hlen+size]...)
	s.pos += hlen + size
	return b, nil
}

func (s *Stream) uint(max int) (uint64, error) {
	save := s.pos
	b, err := s.Bytes()
	if err != nil {
		return 0, err
	}
	if len(b) > 0 && b[0] == 0 {
		s.pos = save
		return 0, ErrCanonInt
	}
	if len(b) > max {
		s.pos = save
		return 0, ErrUintOverflow
	}
	return new(big.Int).SetBytes(b).Uint64(), nil
}

func (s *Stream) Uint64() (uint64, error) { return s.uint(8) }

func (s *Stream) Uint32() (uint32, error) {
	i, err := s.uint(4)
	return uint32(i), err
}

func (s *Stream) Uint16() (uint16, error) {
	i, err := s.uint(2)
	return uint16(i), err
}

func (s *Stream) Uint8() (uint8, error) {
	i, err := s.uint(1)
	return uint8(i), err
}

func (s *Stream) Bool() (bool, error) {
	i, err := s.uint(1)
	if err == nil && i > 1 {
		err = ErrBool
	}
	return i == 1, err
}

func (s *Stream) BigInt() (*big.Int, error) {
	i := new(big.Int)
	return i, s.ReadBigInt(i)
}

func (s *Stream) ReadBigInt(i *big.Int) error {
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) > 0 && b[0] == 0 {
		return ErrCanonInt
	}
	i.SetBytes(b)
	return nil
}

func (s *Stream) List() (uint64, error) {
	k, hlen, size, err := s.head()
	if err != nil {
		return 0, err
	}
	if k != List {
		return 0, ErrExpectedList
	}
	s.pos += hlen
	s.limit = append(s.limit, s.pos+size)
	return uint64(size), nil
}

func (s *Stream) ListEnd() error {
	n := len(s.limit)
	if n == 0 {
		return ErrNotInList
	}
	if s.pos != s.limit[n-1] {
		return ErrNotAtEOL
	}
	s.limit = s.limit[:n-1]
	return nil
}

func (s *Stream) MoreDataInList() bool {
	n := len(s.limit)
	return n > 0 && s.pos < s.limit[n-1]
}
