BITS='''
type bw struct {
	b []byte
	n uint
}

func (w *bw) put(n uint, v uint64) *bw {
	for ; n > 0; n-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>(n-1)&1) << (7 - w.n%8)
		w.n++
	}
	return w
}

func (w *bw) ue(v ...uint64) *bw {
	for _, x := range v {
		n := uint(0)
		for (x+1)>>(n+1) > 0 {
			n++
		}
		w.put(n, 0)
		w.put(n+1, x+1)
	}
	return w
}

func (w *bw) end() []byte {
	w.put(1, 1)
	return w.b
}
'''
def h264(body,imports=""):
    return '\npackage h264\n\nimport (\n\t"testing"\n'+imports+')\n'+BITS+'\nfunc TestDemo(t *testing.T) {\n'+body+'}\n'

seed("c15-list-size","C15",[("net/h264/spspps.go","""sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {
						return
					}
				}
				off += size
				if i >= 5 {""","""sps.UseDefaultScalingMatrix[i], err = br.ReadScalingList(sps.ScalingList[off : off+size]); err != nil {
						return
					}
				}
				off += size
				if i > 5 {""")],"net/h264",h264('''
	w := (&bw{}).put(8, 100).put(8, 0).put(8, 30).ue(4, 1, 0, 0).put(2, 1)
	w.put(6, 0).put(1, 1)
	for i := 0; i < 64; i++ {
		w.ue(1) // +1
	}
	w.put(1, 0)
	w.ue(0, 2, 1).put(1, 0).ue(7, 5).put(4, 0xC)
	p := NewParameterSets()
	if err := p.ParseSPS(w.end()); err != nil {
		t.Fatal(err)
	}
	s, ok := p.GetSPS(4)
	if !ok || s.PicWidthInMbsMinus1 != 7 || s.PicHeightInMapUnitsMinus1 != 5 || s.Width != 128 {
		t.Fatalf("%+v", s)
	}
'''),"a high profile stream with an explicit 8x8 scaling list","the first 8x8 scaling list is read with 16 entries and every later element is misread")

seed("c15-poc-cycle","C15",[("net/h264/spspps.go","""		for i := uint32(0); i < sps.NumRefFramesInPicOrderCntCycle; i++ {""","""		for i := uint32(1); i < sps.NumRefFramesInPicOrderCntCycle; i++ {""")],"net/h264",h264('''
	w := (&bw{}).put(8, 66).put(8, 0).put(8, 30).ue(4, 0, 1).put(1, 0).ue(3, 4, 2, 6, 8, 1).put(1, 0).ue(7, 5).put(4, 0xC)
	p := NewParameterSets()
	if err := p.ParseSPS(w.end()); err != nil {
		t.Fatal(err)
	}
	s, ok := p.GetSPS(4)
	if !ok || s.MaxNumRefFrames != 1 || s.PicWidthInMbsMinus1 != 7 || s.PicHeightInMapUnitsMinus1 != 5 {
		t.Fatalf("%+v", s)
	}
'''),"picture order count type 1 with a cycle of at least one frame","the last offset of the cycle is taken for the number of reference frames")

seed("c16-wrong-sps","C16",[("net/h264/spspps.go","if sps, ok := s.spset[pps.SpsID]; ok {","if sps, ok := s.spset[pps.PpsID]; ok {")],"net/h264",h264('''
	p := NewParameterSets()
	sps := func(id, chroma uint64) {
		w := (&bw{}).put(8, 100).put(8, 0).put(8, 30).ue(id, chroma)
		if chroma == 3 {
			w.put(1, 0)
		}
		w.ue(0, 0).put(2, 0)
		w.ue(0, 2, 1).put(1, 0).ue(7, 5).put(4, 0xC)
		if err := p.ParseSPS(w.end()); err != nil {
			t.Fatal(err)
		}
	}
	sps(0, 3)
	sps(1, 1)
	w := (&bw{}).ue(0, 1).put(2, 0).ue(0, 0, 0).put(3, 0).ue(0, 0, 0).put(3, 0).put(2, 3).put(8, 0).ue(4)
	if err := p.ParsePPS(w.end()); err != nil {
		t.Fatal(err)
	}
	s, ok := p.GetPPS(0)
	if !ok || s.SecondChromaQpIndexOffset != -2 {
		t.Fatalf("%+v", s)
	}
'''),"two sequence sets with different chroma formats and a picture set that refers to the other one by id","the number of scaling lists is taken from the wrong sequence set")

seed("c16-slice-bits","C16",[("net/h264/spspps.go","bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))","bits := uint(math.Floor(math.Log2(float64(pps.NumSliceGroupsMinus1)))) + 1\n\t\t\tif pps.NumSliceGroupsMinus1 == 3 {\n\t\t\t\tbits++\n\t\t\t}")],"net/h264",h264('''
	p := NewParameterSets()
	w := (&bw{}).ue(3, 1).put(2, 0).ue(3, 6, 3).put(8, 0x1B).ue(5, 0).put(3, 0).ue(0, 0, 0).put(3, 0)
	if err := p.ParsePPS(w.end()); err != nil {
		t.Fatal(err)
	}
	s, ok := p.GetPPS(3)
	if !ok || len(s.SliceGroupID) != 4 || s.SliceGroupID[3] != 3 || s.NumRefIdxL0DefaultActiveMinus1 != 5 {
		t.Fatalf("%+v", s)
	}
'''),"explicit slice group map with exactly four groups","slice group identifiers are read with three bits instead of two")

seed("c18-crop-422","C18",[("net/h264/spspps.go","if sps.ChromaFormatIdc == 1 || sps.ChromaFormatIdc == 2 {","if sps.ChromaFormatIdc == 1 {")],"net/h264",h264('''
	w := (&bw{}).put(8, 122).put(8, 0).put(8, 30).ue(4, 2, 0, 0).put(2, 0)
	w.ue(0, 2, 1).put(1, 0).ue(7, 5).put(2, 3).put(1, 1).ue(1, 2, 3, 4).put(1, 0)
	p := NewParameterSets()
	if err := p.ParseSPS(w.end()); err != nil {
		t.Fatal(err)
	}
	s, ok := p.GetSPS(4)
	if !ok || s.Width != 128-6 || s.Height != 96-7 {
		t.Fatalf("%+v", s)
	}
'''),"a cropped 4:2:2 stream","horizontal cropping of 4:2:2 is counted in single samples")

seed("c14-empty-sprop","C14",[("net/h264/spspps.go","	if buf == nil || len(buf) == 0 {\n","	if buf == nil {\n")],"net/h264",h264('''
	p := NewParameterSets()
	p.ParseSprop(nil)
	p.ParseSprop([]byte{})
'''),"an empty value among the sprop parameter sets (an empty slice, not nil)","the header of an empty parameter set is read")

seed("c14-cycle-work","C14",[("net/h264/spspps.go","""			if _, err = br.ReadSignedGolomb(); err != nil {
				return
			}
		}""","""			if _, err = br.ReadSignedGolomb(); err != nil {
				continue
			}
		}""")],"net/h264",h264('''
	w := (&bw{}).put(8, 66).put(8, 0).put(8, 30).ue(4, 0, 1).put(1, 0).ue(3, 4, 1<<32-2)
	c := make(chan error, 1)
	go func() { c <- NewParameterSets().ParseSPS(w.end()) }()
	select {
	case err := <-c:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(time.Second):
		t.Fatal("still parsing")
	}
''',imports='\t"time"\n'),"a hostile number of frames in the picture order count cycle in a short SPS","four thousand million failing reads for twenty bytes of input")

seed("c17-early-store","C17",[("net/h264/spspps.go","""		if pps.SecondChromaQpIndexOffset, err = br.ReadSignedGolomb(); err != nil {
			return
		}
	}
	s.ppset[pps.PpsID] = pps
	return""","""		s.ppset[pps.PpsID] = pps
		pps.SecondChromaQpIndexOffset, err = br.ReadSignedGolomb()
		return
	}
	s.ppset[pps.PpsID] = pps
	return""")],"net/h264",h264('''
	p := NewParameterSets()
	w := (&bw{}).ue(3, 1).put(2, 0).ue(0, 5, 0).put(3, 0).ue(0, 0, 0).put(3, 0).put(2, 0).put(8, 0).put(1, 1)
	if p.ParsePPS(w.b) == nil {
		t.Skip()
	}
	if _, ok := p.GetPPS(3); ok {
		t.Fatal("visible")
	}
'''),"a picture set cut off within its last element","the truncated set replaces the one that was stored")

seed("c45-type-mask","C45",[("net/h264/spspps.go","	typ := buf[0] & 0x1F\n	if typ == typeSPS {","	typ := buf[0] & 0x0F\n	if typ == typeSPS {")],"net/h264",h264('''
	p := NewParameterSets()
	if err := p.ParseSprop([]byte{24, 0}); err != nil {
		t.Fatal(err)
	}
	p.ParseSprop([]byte{24, 0xee, 0x3c, 0x30, 0x00})
	if _, ok := p.GetPPS(0); ok {
		t.Fatal("an aggregation packet is taken for a parameter set")
	}
'''),"a unit of type 23 or 24","units of other types are parsed as parameter sets")

seed("c41-half","C41",[("net/h264/packet.go","""	diff = int(don2) - int(don1)
	if diff >= 32768 {
		diff = diff - 65536
	} else if diff <= -32768 {
		diff = diff + 65536
	}
	return
""","""	return int(int16(don2 - don1))
""")],"net/h264",'''
package h264

import "testing"

func TestDemo(t *testing.T) {
	for _, c := range [][3]int{{0, 32768, -32768}, {32768, 0, 32768}, {65535, 0, 1}, {0, 65535, -1}, {1, 32768, 32767}} {
		if d := DonDiff(uint16(c[0]), uint16(c[1])); d != c[2] {
			t.Fatal(c, d)
		}
	}
}
''',"two numbers exactly 32768 apart, the first being larger","the distance has the wrong sign")
seed("c40-run-length","C40",[("net/h264/spspps.go","				if pps.RunLengthMinus1[i], err = br.ReadUnsignedGolomb(); err != nil {\n					return\n				}","				if pps.RunLengthMinus1[i], err = br.ReadUnsignedGolomb(); err != nil {\n					break\n				}")],"net/h264",r"""
package h264

import "testing"

func TestDemo(t *testing.T) {
	// ids, flags, one more slice group, map type 0, runs: one valid, one too long, then the rest.
	bits := "1" + "1" + "0" + "0" + "010" + "1" + "1" + "0000000000000000000000000000000000000001"
	for len(bits) < 800 {
		bits += "1"
	}
	var buf []byte
	for i := 0; i+8 <= len(bits); i += 8 {
		b := byte(0)
		for _, c := range bits[i : i+8] {
			b = b<<1 | byte(c-'0')
		}
		buf = append(buf, b)
	}
	if err := NewParameterSets().ParsePPS(buf); err == nil {
		t.Fatal("malformed run length is accepted")
	}
}
""","a PPS with slice group map type 0 and a malformed run length","the error is overwritten by later reads and a bogus set is stored")
