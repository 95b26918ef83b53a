// Package ext is a second package that tested types refer to.
package ext

import (
	"errors"
	"io"

	"rlp"
)

type Num uint16
type Text string
type Hash [2]byte
type Blob []byte
type Rec struct{ A uint8 }
type Nums []uint16

// Cust has its own encoding: two strings 0xCC and its value, no list.
type Cust struct{ X uint8 }

var ErrCust = errors.New("custom")

func (c *Cust) EncodeRLP(w io.Writer) error {
	if c == nil {
		_, err := w.Write([]byte{0xC0})
		return err
	}
	if c.X == 0xEE {
		return ErrCust
	}
	_, err := w.Write([]byte{0x82, 0xCC, c.X})
	return err
}

func (c *Cust) DecodeRLP(s *rlp.Stream) error {
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) != 2 || b[0] != 0xCC || b[1] == 0xEE {
		return ErrCust
	}
	c.X = b[1]
	return nil
}
