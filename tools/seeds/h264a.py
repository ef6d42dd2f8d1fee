seed("c09-epb-tail","C09",[("net/h264/annexb.go","if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {","if size-off > 1 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {")],
"net/h264",'''
package h264

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"", "\\x00", "\\x00\\x00", "a\\x00\\x00", "\\x00\\x00\\x03\\x00\\x00"} {
		EBSPToRaw([]byte(s))
		RBSPToEncapsulated([]byte(s))
		SplitAnnexB([]byte(s))
	}
}
''',"input that ends with two zero bytes","removal of emulation bytes reads past the end")
seed("c11-skip-guard","C11",[("net/h264/bits.go","""func (r *BitReader) SkipBits(n uint) (err error) {
	if n > 32 || n > r.Available() {""","""func (r *BitReader) SkipBits(n uint) (err error) {
	if n > 32 || r.byten > r.count || (r.byten == r.count && n > 0) {""")],
"net/h264",'''
package h264

import "testing"

func TestDemo(t *testing.T) {
	r := NewBitReader([]byte{0x10, 0})
	r.ReadBits(7)
	if err := r.SkipBits(30); err == nil {
		t.Fatal("skipped", r.Available())
	}
}
''',"a skip that reaches past the end","the position leaves the buffer and the available count underflows")
seed("c11-golomb-err","C11",[("net/h264/bits.go","""	for val, err = r.ReadBits(1); val == 0; val, err = r.ReadBits(1) {
		if err != nil {
			// Reached end of stream while all the read bits are zeroes
			return
		}
		zeroes++
	}
	// Last read bit was 1.  Read (zeroes) more.
	return r.SkipBits(zeroes)""","""	for val, err = r.ReadBits(1); val == 0; val, _ = r.ReadBits(1) {
		if err != nil {
			// Reached end of stream while all the read bits are zeroes
			return
		}
		zeroes++
	}
	// Last read bit was 1.  Read (zeroes) more.
	return r.SkipBits(zeroes)""")],
"net/h264",'''
package h264

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := make(chan error, 1)
	go func() {
		c <- NewBitReader([]byte{0}).SkipGolomb()
	}()
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		t.Fatal("does not return")
	}
}
''',"a code cut off by the end of the buffer after a zero bit","skipping a code never returns")
