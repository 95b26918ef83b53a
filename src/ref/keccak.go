package ref

// Keccak computes the original Keccak digest (pad10*1 without a domain
// suffix) bit for bit as in the reference pseudo-code.
func Keccak(msg []byte, outBytes int) []byte {
	rate := 200 - 2*outBytes
	p := append([]byte{}, msg...)
	p = append(p, 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [5][5]uint64
	for len(p) > 0 {
		for i := 0; i < rate; i++ {
			l := i / 8
			a[l%5][l/5] ^= uint64(p[i]) << uint(8*(i%8))
		}
		p = p[rate:]
		keccakF(&a)
	}
	out := make([]byte, outBytes)
	for i := range out {
		l := i / 8
		out[i] = byte(a[l%5][l/5] >> uint(8*(i%8)))
	}
	return out
}

func rol(x uint64, n uint) uint64 {
	n %= 64
	if n == 0 {
		return x
	}
	return x<<n | x>>(64-n)
}

func keccakF(a *[5][5]uint64) {
	lfsr := byte(1)
	bit := func() uint64 {
		r := lfsr & 1
		if lfsr&0x80 != 0 {
			lfsr = lfsr<<1 ^ 0x71
		} else {
			lfsr <<= 1
		}
		return uint64(r)
	}
	for round := 0; round < 24; round++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ rol(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d[x]
			}
		}
		x, y := 1, 0
		cur := a[x][y]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x][y] = a[x][y], rol(cur, uint((t+1)*(t+2)/2))
		}
		for y := 0; y < 5; y++ {
			var row [5]uint64
			for x := 0; x < 5; x++ {
				row[x] = a[x][y]
			}
			for x := 0; x < 5; x++ {
				a[x][y] = row[x] ^ ^row[(x+1)%5]&row[(x+2)%5]
			}
		}
		var rc uint64
		for j := uint(0); j <= 6; j++ {
			rc |= bit() << (1<<j - 1)
		}
		a[0][0] ^= rc
	}
}

// EIP55 is the checksummed text of a 20-byte address.
func EIP55(a []byte) string {
	h := Hex(a)
	k := Hex(Keccak([]byte(h), 32))
	out := []byte("0x")
	for i := 0; i < len(h); i++ {
		c := h[i]
		if c >= 'a' && c <= 'f' && k[i] >= '8' {
			c -= 'a' - 'A'
		}
		out = append(out, c)
	}
	return string(out)
}
