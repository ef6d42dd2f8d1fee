B="net/h264/bits.go"
seed("c12-skip-align","C12",[(B,"""	bits := 8 - r.bitn
	for n > bits {
		// No check here as we already know there is enough data from AvailableBits().
		r.byten++
		bits += 8
	}
	r.bitn = 8 - (bits - n)
""","""	r.byten += n / 8
	if r.bitn += n % 8; r.bitn > 8 {
		r.byten++
		r.bitn &= 7
	}
	if r.bitn == 8 && r.byten+1 < r.count {
		r.byten, r.bitn = r.byten+1, 1
	}
""")],"net/h264","""
package h264

import "testing"

func TestDemo(t *testing.T) {
	for start := uint(0); start < 8; start++ {
		for n := uint(0); n <= 32; n++ {
			r := NewBitReader([]byte{0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde})
			if _, err := r.ReadBits(start); err != nil {
				t.Fatal(err)
			}
			before := r.Available()
			if err := r.SkipBits(n); err != nil {
				t.Fatal(err)
			}
			if got := before - r.Available(); got != n {
				t.Errorf("skip of %d bits from bit %d moved by %d", n, start, got)
			}
		}
	}
}
""","a skip that ends exactly at a byte boundary from a position that is not aligned","Skipping bits moves one bit too far when it ends at a byte boundary that is not the end of the buffer.")
seed("c12-refused","C12",[(B,"""	if n > 32 || n > r.Available() {
		return io.ErrUnexpectedEOF
	}
	bits := 8 - r.bitn
	for n > bits {
		// No check here as we already know there is enough data from AvailableBits().
		r.byten++
""","""	if n > 32 || r.Available() == 0 && n > 0 {
		return io.ErrUnexpectedEOF
	}
	bits := 8 - r.bitn
	for n > bits {
		if r.byten+1 >= r.count {
			return io.ErrUnexpectedEOF
		}
		r.byten++
""")],"net/h264","""
package h264

import "testing"

func TestDemo(t *testing.T) {
	r := NewBitReader([]byte{0x12, 0x34})
	if _, err := r.ReadBits(3); err != nil {
		t.Fatal(err)
	}
	before := r.Available()
	if err := r.SkipBits(20); err == nil {
		t.Fatal("skip beyond the end succeeds")
	}
	if r.Available() != before {
		t.Errorf("refused skip moved from %d to %d bits left", before, r.Available())
	}
}
""","a skip of more bits than are left that crosses a byte boundary","A refused skip moves the position.")
seed("c13-signed","C13",[(B,"return int32((uval + 1) / 2), nil","return int32(uval+1) / 2, nil")],"net/h264","""
package h264

import "testing"

func TestDemo(t *testing.T) {
	// 31 zeros, 1, and a suffix of 31 zeros: unsigned value 2^31-1, signed 2^30.
	r := NewBitReader([]byte{0, 0, 0, 1, 0, 0, 0, 0})
	v, err := r.ReadSignedGolomb()
	if err != nil || v != 1<<30 {
		t.Errorf("got %d, %v", v, err)
	}
}
""","a signed code with 31 leading zeros","The value of a signed code with 31 leading zeros overflows.")
seed("c13-cut","C13",[(B,"""	val, err = r.ReadBits(zeroes)
	if err != nil {
		return
	}
""","""	if zeroes > r.Available() {
		zeroes = r.Available()
	}
	val, err = r.ReadBits(zeroes)
	if err != nil {
		return
	}
""")],"net/h264","""
package h264

import "testing"

func TestDemo(t *testing.T) {
	r := NewBitReader([]byte{0x04}) // five zeros and 1, only two of five bits of suffix
	if v, err := r.ReadUnsignedGolomb(); err == nil {
		t.Errorf("a code that is cut off reads as %d", v)
	}
}
""","a code whose suffix is cut off by the end of the buffer","A code that is cut off by the end of the buffer is read as if it were shorter.")
