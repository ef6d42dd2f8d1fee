P="net/h264/packet.go"
A="net/h264/annexb.go"
HEAD="""
package h264

import (
	"bytes"
	"testing"
	"time"
)

func pushed(t *testing.T, s *NALSink, ts uint32, b ...byte) {
	if err := s.Push(b, ts); err != nil {
		t.Fatal(err)
	}
}

func has(t *testing.T, s *NALSink, want ...string) {
	if len(s.Units) != len(want) {
		t.Fatalf("%d units instead of %d", len(s.Units), len(want))
	}
	for i, u := range s.Units {
		if !bytes.Equal(append([]byte{u.Header}, u.Data...), []byte(want[i])) {
			t.Fatalf("unit %d is %x %x instead of %x", i, u.Header, u.Data, want[i])
		}
	}
}

var _ = time.Second

func TestDemo(t *testing.T) {
	s := NewNALSink()
"""
def nal(id,prop,edits,body,needs,breaks): seed(id,prop,edits,"net/h264",HEAD+body+"}\n",needs,breaks)

nal("c04-don","C04",[(P,"""	if len(buf) < 2 {
		return errPacketTooShort
	}
	s.Don = be.Uint16(buf)
""","""	if len(buf) == 0 {
		return errPacketTooShort
	}
	s.Don = be.Uint16(buf)
""")],"""	if err := s.Push([]byte{26, 0}, 1); err == nil {
		t.Fatal("accepted")
	}
	has(t, s)
""","an MTAP payload that is cut off within its base order number","Push panics on a two byte MTAP payload.")
nal("c04-empty","C04",[(P,"""			data = append(data, frag.Data...)
""","""			for i := 0; i < len(frag.Data); {
				n := bytes16(frag.Data[i:])
				data = append(data, frag.Data[i:i+n]...)
				i += n
			}
"""),(P,"""// DonDiff may""","""// bytes16 limits the size of copied blocks to 16 bits.
func bytes16(b []byte) int {
	return int(uint16(len(b)))
}

// DonDiff may""")],"""	done := make(chan bool)
	go func() {
		s.Push(append([]byte{28, 0xC5}, make([]byte, 65536)...), 1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("push does not return")
	}
""".replace("time.","time.") ,"a fragment with exactly 65536 bytes of data","Push never returns since the copied block has size 0.")
nal("c05-sign","C05",[(P,"""		dond := uint16(buf[2])
""","""		dond := uint16(int8(buf[2])) // difference to base
""")],"""	s.Push([]byte{26, 0, 5, 0, 2, 200, 0, 1, 0x65, 7}, 10)
	has(t, s, "\\x65\\x07")
	if s.Units[0].Don != 205 {
		t.Fatal("order number is", s.Units[0].Don)
	}
""","an MTAP unit whose order number difference is 128 or more","The unsigned difference of decoding order numbers is taken for a signed one.")
nal("c05-offset","C05",[(P,"""		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
""","""		tsoff := uint32(buf[3])<<8 | uint32(buf[4])
		if typ == typeMtap16 && tsoff >= 1<<15 {
			tsoff -= 1 << 16 // unit precedes the packet
		}
""")],"""	s.Push([]byte{26, 0, 5, 0, 2, 0, 0x90, 1, 0x65, 7}, 10)
	has(t, s, "\\x65\\x07")
	if s.Units[0].TS != 0x900b {
		t.Fatal("timestamp is", s.Units[0].TS)
	}
""","an MTAP16 unit with a timestamp offset of 32768 or more","The unsigned timestamp offset is taken for a signed one.")
nal("c05-order","C05",[(P,"""		s.Don++
		buf = buf[size+2:]
""","""		if buf = buf[size+2:]; len(buf) > 0 || typ == typeStapA {
			s.Don++
			continue
		}
		s.Don += uint16(len(s.Units))
		for i := range s.Units {
			s.Units[i].Don = s.Don - uint16(len(s.Units)-i)
		}
""")],"""	s.Push([]byte{25, 0, 5, 0, 2, 0x65, 7, 0, 2, 0x65, 8}, 10)
	has(t, s, "\\x65\\x07", "\\x65\\x08")
	if s.Units[0].Don != 5 || s.Units[1].Don != 6 {
		t.Fatal("order numbers are", s.Units[0].Don, s.Units[1].Don)
	}
""","a STAP-B payload with two or more units","Order numbers of units of a STAP-B packet do not start with that of the packet.")
nal("c06-whole","C06",[(P,"""	if (header & 0x40) != 0 {
		// TODO""","""	if (header & 0xC0) == 0x40 {
		// TODO""")],"""	pushed(t, s, 1, 28|0x60, 0xC5, 1, 2)
	has(t, s, "\\x65\\x01\\x02")
""","a fragment with both the start and the end flag","A unit in a single fragment is never delivered.")
nal("c06-restart","C06",[(P,"""	if (header & 0x80) != 0 {
		s.Fragments = s.Fragments[:0]
""","""	if (header & 0x80) != 0 {
		if n := len(s.Fragments); n == 0 || s.Fragments[n-1].TS != ts {
			s.Fragments = s.Fragments[:0]
		}
""")],"""	pushed(t, s, 1, 28|0x60, 0x85, 1)
	// The end of the first slice of the picture has been lost.
	pushed(t, s, 1, 28|0x60, 0x85, 2)
	pushed(t, s, 1, 28|0x60, 0x45, 3)
	has(t, s, "\\x65\\x02\\x03")
""","loss of the end of one fragmented slice followed by the start of another slice of the same picture","Fragments of two units are combined into one.")
nal("c06-reserved","C06",[(P,"""			data = append(data, frag.Data...)
""","""			if frag.Flags&0x20 == 0 {
				data = append(data, frag.Data...)
			}
""")],"""	pushed(t, s, 1, 28|0x60, 0x85, 1)
	pushed(t, s, 1, 28|0x60, 0x25, 2)
	pushed(t, s, 1, 28|0x60, 0x45, 3)
	has(t, s, "\\x65\\x01\\x02\\x03")
""","a fragment with the reserved bit, which receivers must ignore","The data of the fragment are missing in the unit.")
nal("c07-repeat","C07",[(P,"""	for _, nal := range SplitAnnexB(buf) {
""","""	for _, nal := range SplitAnnexB(buf) {
		if n := len(s.Units); n > 1 && len(nal) > 0 && s.Units[n-1].Header == nal[0] && nal[0]&0x1F >= typeSEI {
			continue // repeated parameter set
		}
""")],"""	pushed(t, s, 1, 0, 0, 1, 0x67, 1, 0, 0, 1, 0x68, 2, 0, 0, 1, 0x68, 3, 0, 0, 1, 0x65, 4, 4)
	has(t, s, "\\x67\\x01", "\\x68\\x02", "\\x68\\x03", "\\x65\\x04\\x04")
""","a payload with two picture parameter sets in a row","The second of two adjacent parameter sets of the same kind is dropped.")
nal("c07-header","C07",[(P,"""		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})
		s.Don++
""","""		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})
		if s.Don++; s.Don == 0 {
			s.Units = s.Units[:len(s.Units)-1]
		}
""")],"""	for i := 0; i < 70000; i++ {
		pushed(t, s, 1, 0x65, 4)
		has(t, s, "\\x65\\x04")
	}
""","the 65536th unit, when decoding order numbers wrap around","One unit in 65536 is lost.")
nal("c08-share","C08",[(A,"""	rbsp := make([]byte, 0, size)
""","""	if !bytes.Contains(buf, []byte{0, 0, 3}) {
		return buf
	}
	rbsp := make([]byte, 0, size)
"""),(A,"package h264\n","package h264\n\nimport \"bytes\"\n")],"""	b := []byte{0x65, 1, 2}
	pushed(t, s, 1, b...)
	b[1] = 9
	has(t, s, "\\x65\\x01\\x02")
""","a payload without emulation prevention bytes whose buffer is reused after the push","Delivered units share memory with the receive buffer.")
nal("c08-encapsulated","C08",[(A,"""	ebsp := make([]byte, 0, size*2)
""","""	ebsp := make([]byte, 0, size*2)
	if size < 3 {
		return buf
	}
""")],"""	b := []byte{1, 2}
	r := RBSPToEncapsulated(b)
	b[0] = 9
	if r[0] != 1 {
		t.Fatal("result changes with argument")
	}
	has(t, s)
""","a byte sequence of less than three bytes","The result of encapsulation is the argument itself.")
