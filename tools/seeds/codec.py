A="net/h264/annexb.go"
def codec(id,prop,edits,cases,needs,breaks):
    body="""
package h264

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	long := append(bytes.Repeat([]byte{7}, 1022), 0, 0, 0, 1)
	_ = long
"""+cases+"}\n"
    seed(id,prop,edits,"net/h264",body,needs,breaks)
ENC="""	if e := RBSPToEncapsulated(%s); !bytes.Equal(e, %s) {
		t.Fatalf("encapsulated: %%x", e)
	}
"""
DEC="""	if r := EBSPToRaw(%s); !bytes.Equal(r, %s) {
		t.Fatalf("raw: %%x", r)
	}
"""
def b(*v): return "[]byte{"+", ".join(map(str,v))+"}"

codec("c10-run","C10",[(A,"""			off += 2
		} else {""","""			if off += 2; buf[off] == 0 {
				ebsp = append(ebsp, zero)
				off++
			}
		} else {""")],
  ENC%(b(5,0,0,0,0,1),b(5,0,0,3,0,0,3,1)),"a run of four zero bytes followed by a byte of at most 3","A start code prefix appears in the encapsulated bytes.")
codec("c10-block","C10",[(A,"""	for off := 0; off < size; {
		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {""","""	for off := 0; off < size; {
		if off&1023 < 1023 && size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {"""),(A,"	ebsp := make([]byte, 0, size*2)\n","	ebsp := make([]byte, 0, size+size/2+1)\n")],
  """	long = append(bytes.Repeat([]byte{7}, 1023), 0, 0, 1)
	if e := RBSPToEncapsulated(long); bytes.Contains(e, []byte{0, 0, 1}) {
		t.Fatal("start code")
	}
""","two zero bytes of which the first is the last of a block of 1024 bytes","The bytes at the boundary of a block are not protected.")
codec("c10-byte","C10",[(A,"	epb := byte(3)\n","	epb, last := byte(3), byte(3)\n"),(A,"buf[off+1] == 0 && buf[off+2] <= 3 {\n			// Add emulation prevention bytes.\n","buf[off+1] == 0 && buf[off+2] <= last {\n			// Add emulation prevention bytes.\n			last = 1\n")],
  ENC%(b(0,0,1,0,0,2),b(0,0,3,1,0,0,3,2)),"a second sequence 0 0 2 after a first sequence that has been protected","Only the first sequence of each kind is protected.")
codec("c43-tail","C43",[(A,"	return ebsp\n","""	if n := len(ebsp); n > 2 && ebsp[n-1] == 0 && ebsp[n-2] == 0 {
		ebsp = append(ebsp, epb)
	}
	return ebsp
""")],
  ENC%(b(9,0,0),b(9,0,0)),"data that ends with two zero bytes","Encapsulation inserts a byte after the end.")
codec("c43-end","C43",[(A,"		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {","		if size-off > 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {")],
  DEC%(b(9,0,0,3),b(9,0,0)),"an emulation prevention byte at the very end","The last emulation prevention byte is not removed.")
codec("c43-sum","C43",[(A,"	zero := byte(0)\n	size := len(buf)\n	rbsp","	size := len(buf)\n	rbsp"),(A,"buf[off] == 0 && buf[off+1] == 0 && buf[off+2] == 3 {","buf[off]+buf[off+1] == 0 && buf[off+2] == 3 {"),(A,"			rbsp = append(rbsp, zero, zero)\n","			rbsp = append(rbsp, buf[off], buf[off+1])\n")],
  DEC%(b(0x80,0x80,3,1),b(0x80,0x80,3,1)),"two bytes before a 3 whose sum is 256","A 3 that does not follow zeros is removed.")
codec("c43-again","C43",[(A,"			off += 3\n		} else {\n			rbsp","			for off += 3; off < size && buf[off] == 3; {\n				off++\n			}\n		} else {\n			rbsp")],
  DEC%(b(0,0,3,3),b(0,0,3)),"an emulation prevention byte in front of a 3","A 3 of the payload is lost.")
codec("c43-restart","C43",[(A,"			ebsp = append(ebsp, zero, zero, epb)\n			off += 2\n","			ebsp = append(ebsp, zero, zero, epb)\n			if off += 2; off+1 < size && buf[off] == 0 && buf[off+1] <= 3 {\n				ebsp = append(ebsp, zero, epb)\n				off++\n			}\n")],
  ENC%(b(0,0,0,1),b(0,0,3,0,1)),"three zero bytes in front of a byte of at most 3","A byte is inserted after one zero byte: the count does not start anew after an insertion.")
