From 7d495316777fcd28f1c908ca8d9f665a8442afd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 01/53] fix: reject truncated RTP packets instead of panicking

---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..bbcb1ee 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("Packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +49,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +64,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf)-off < int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +74,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf)-off < 4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf)-off < int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From d097a1927ea3dda8d98f2956a2e00922cd50ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 02/53] fix: exclude padding from RTP payload

---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index bbcb1ee..2a4943e 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -15,6 +15,7 @@ const (
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
 	errPacketTooShort = errors.New("Packet is too short")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 )
 
 var be = binary.BigEndian
@@ -90,6 +91,18 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	packet.PL = buf[off:]
+	if packet.P() {
+		// Last byte of padding holds the number of padding bytes including itself.
+		size := len(packet.PL)
+		if size == 0 {
+			return nil, errPacketTooShort
+		}
+		pad := int(packet.PL[size-1])
+		if pad == 0 || pad > size {
+			return nil, errInvalidPadding
+		}
+		packet.PL = packet.PL[:size-pad]
+	}
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From 296d390b5f9603d01a07f627c0ff36af2afc3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 03/53] fix: reject RTCP packets shorter than the header

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 5f220eb00fed4c559459d960b6b392b525567854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 04/53] fix: validate unit size in STAP packets

---
 net/h264/packet.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..f664d03 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -166,8 +166,11 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < 2 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		size := int(be.Uint16(buf))
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
+		if len(buf) < size+2 {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
-- 
2.43.0


From aa3280fb3e24f4dfac74fbb7ed2a5fc4759b02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 05/53] fix: validate unit size in MTAP packets

---
 net/h264/packet.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index f664d03..b904de6 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -185,22 +185,25 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
 	for {
-		if len(buf) < int(off) {
+		if len(buf) < off {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		size := int(be.Uint16(buf))
 		dond := uint16(buf[2])
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
+		if len(buf) < size+off {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-- 
2.43.0


From b8cbd0c471daba4285322d0f330ecef997d871fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 06/53] fix: compute 24-bit timestamp offset of MTAP24 units

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index b904de6..9002c05 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -198,7 +198,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if size == 0 {
 			return errInvalidPayloadHeader
-- 
2.43.0


From cc90678db1c2a4e092fbb96f4e2a7c30353ad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 07/53] fix: keep decoding order number base constant within
 MTAP packet

---
 net/h264/packet.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 9002c05..2a5ffbe 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -207,7 +207,6 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-		s.Don++
 		buf = buf[size+off:]
 	}
 }
-- 
2.43.0


From 6ca1f9f546a00a0d0369628f4b86994c87ba9b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 08/53] fix: reset unit queue once per payload, not per unit

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 2a5ffbe..9d2ee3a 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -213,6 +213,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
+	s.Units = s.Units[:0]
 	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
@@ -223,7 +224,6 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
-- 
2.43.0


From b3a79a0dee6be6766fbfa635590f6d31740b8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 09/53] fix: do not assemble NAL fragments that have no start

---
 net/h264/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 9d2ee3a..372ddc3 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -133,6 +133,9 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 {
+		// Start of the unit has been lost, there is nothing to complete.
+		return
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -151,6 +154,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			data = append(data, frag.Data...)
 		}
 		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
-- 
2.43.0


From 107305f32fcbf65b25a61c2e1803054187f3c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 10/53] fix: preserve forbidden bit of fragmented NAL units

---
 net/h264/packet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 372ddc3..688217c 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -243,13 +243,13 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 	case typeMtap24:
 		return s.parseMTAP(typ, buf[1:], ts)
 	case typeFuA:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 2 {
 			return errPacketTooShort
 		}
 		s.AddFragment(nri+(buf[1]&0x1F), buf[1], s.Don, ts, buf[2:])
 	case typeFuB:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 4 {
 			return errPacketTooShort
 		}
-- 
2.43.0


From 4f40afb7d3169bbf578a04f65dde634237fc242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 11/53] fix: do not read past the end adding emulation
 prevention bytes

---
 net/h264/annexb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..77f905f 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -58,7 +58,7 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
+		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
 			// Add emulation prevention bytes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
-- 
2.43.0


From 2c21ca10c29ae8df1e8e70094fc319b25056c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 12/53] fix: add emulation prevention bytes within long runs of
 zeros

---
 net/h264/annexb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 77f905f..cac1e53 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -62,9 +62,10 @@ func RBSPToEncapsulated(buf []byte) []byte {
 			// Add emulation prevention bytes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+		} else {
+			ebsp = append(ebsp, buf[off])
+			off++
 		}
-		ebsp = append(ebsp, buf[off])
-		off++
 	}
 	return ebsp
 }
-- 
2.43.0


From 79f3363949154412d493e4cef5b99fa6f6c38f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 13/53] fix: do not touch the buffer reading zero bits

---
 net/h264/bits.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..359531d 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,6 +33,9 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
+	if n == 0 {
+		return 0, nil
+	}
 	val = uint32(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
-- 
2.43.0


From 8da2c38ad797cab1e6cd143bdd3122170dd41808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 14/53] fix: keep all bits of wide unaligned reads

---
 net/h264/bits.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 359531d..738cf09 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -36,16 +36,17 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n == 0 {
 		return 0, nil
 	}
-	val = uint32(r.buffer[r.byten])
+	// Up to 5 bytes have to be combined to get 32 bits that are not aligned.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32((acc >> (bits - n)) & ((1 << n) - 1))
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From d1662c39b0e9bfb88ae42eb5afd520c3bf520bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 15/53] fix: reject PPS with too many slice groups

---
 net/h264/spspps.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..ea5b12a 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,9 +1,14 @@
 package h264
 
 import (
+	"errors"
 	"math"
 )
 
+var (
+	errInvalidParameterSet = errors.New("Invalid or malformed parameter set")
+)
+
 type (
 	// SPSInfo holds Sequence Parameter Set information parsed from out-of-band or in-band data in the stream.
 	// Most of the information here is unused but parsed anyway.  VUI parameters are no parsed at all.
@@ -291,6 +296,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 >= uint32(len(pps.RunLengthMinus1)) {
+		return errInvalidParameterSet
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
-- 
2.43.0


From 4209dec99a0921b98c61fe971048de8f40879c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 16/53] fix: limit slice group map to the size of PPS

---
 net/h264/spspps.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index ea5b12a..56b3cc5 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -335,6 +335,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
+			if uint(pps.PicSizeInMapUnitsMinus1) >= br.Available() {
+				return errInvalidParameterSet
+			}
 			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
-- 
2.43.0


From 920ff62c43283abcf3578691d49c97177dd05d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 17/53] fix: parse slice group change parameters for map types
 3 and 4

---
 net/h264/spspps.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 56b3cc5..474241f 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -321,9 +321,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
-- 
2.43.0


From 602a2e10c126bb3a07fd91e2acbc6763013c03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 18/53] fix: picture order count type 2 has no parameters

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 474241f..0b23515 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -179,7 +179,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From a9eab8ff543891b037b9e84713c3fabcc679fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 19/53] fix: frame_mbs_only_flag is a single bit and excludes
 field coding

---
 net/h264/spspps.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 0b23515..328b139 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -210,13 +210,13 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
 	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
 		sps.FrameMbsOnly = 1
 	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
@@ -260,7 +260,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	// Macroblock width is 16 for luma.
 	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From f6e3314f4f2f667d6a9aa6769d1e7ac01dbabc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 20/53] fix: do not override frame_mbs_only_flag depending on
 reserved bits

---
 net/h264/spspps.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 328b139..318e952 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -213,9 +213,6 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
-	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
-		sps.FrameMbsOnly = 1
-	}
 	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
-- 
2.43.0


From ae078d1892a4c5918328294756f8af1411135042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 21/53] fix: recognize all profiles that have chroma format in
 SPS

---
 net/h264/spspps.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 318e952..69effa7 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -125,7 +125,8 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	}
 	if sps.ProfileIdc == 100 || sps.ProfileIdc == 110 || sps.ProfileIdc == 122 || sps.ProfileIdc == 244 ||
 		sps.ProfileIdc == 44 || sps.ProfileIdc == 83 || sps.ProfileIdc == 86 || sps.ProfileIdc == 118 ||
-		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 {
+		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 || sps.ProfileIdc == 139 || sps.ProfileIdc == 134 ||
+		sps.ProfileIdc == 135 {
 		if sps.ChromaFormatIdc, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-- 
2.43.0


From 200ee59edff142231dedbc4bd9ede3ca07f12b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 22/53] fix: do not take trailing bits of PPS for optional
 parameters

---
 net/h264/bits.go   | 12 ++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 738cf09..8f43609 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -3,6 +3,7 @@ package h264
 import (
 	"errors"
 	"io"
+	"math/bits"
 )
 
 var (
@@ -27,6 +28,17 @@ func (r *BitReader) Available() uint {
 	return (r.count-r.byten)*8 - r.bitn
 }
 
+// MoreData checks if there is anything left to read besides trailing stop and align bits.
+func (r *BitReader) MoreData() bool {
+	for n := r.count; n > 0; n-- {
+		if b := r.buffer[n-1]; b != 0 {
+			// The last bit set in the buffer is a stop bit.
+			return r.byten*8+r.bitn < n*8-1-uint(bits.TrailingZeros8(b))
+		}
+	}
+	return false
+}
+
 // ReadBits attempts to read requested number of bits from the bit stream.
 // Returns an error if running into end of stream prematurely.
 func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 69effa7..3fe7eb1 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -373,7 +373,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.MoreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 8bf8afcd3faa0efc59c9cfcd90a01786432903ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 23/53] fix: remove emulation prevention bytes from sprop
 parameter sets

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 3fe7eb1..c7a8102 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -422,9 +422,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From b4cbf3bad02d3b006ee0c3d6fc5667abad52a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 24/53] fix: do not panic on media description without
 parameters

---
 net/sdp/packet.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..14fcd26 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,9 +49,11 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							m.PayloadType, _ = strconv.Atoi(mfields[2])
+						if len(fields) > 1 {
+							mfields := strings.Split(fields[1], " ")
+							if len(mfields) >= 3 {
+								m.PayloadType, _ = strconv.Atoi(mfields[2])
+							}
 						}
 					default:
 						m = nil
-- 
2.43.0


From 2424082ca030ed41982cbd4ebcf0e08f1c2bf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 25/53] fix: wrap start of the playlist ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From c8538eb85d630001357fad6e4a564e2e1d8bc389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 26/53] fix: reject playlists without segments

---
 net/hls/playlist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 94e4b6c..5f440a7 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -2,6 +2,7 @@ package hls
 
 import (
 	"bytes"
+	"errors"
 	"net/url"
 	"path"
 	"path/filepath"
@@ -15,6 +16,10 @@ const (
 	SegmentTypeFMP4
 )
 
+var (
+	errInvalidSegmentCount = errors.New("Playlist requires at least one segment")
+)
+
 type (
 	// Segment describes a chunk of streaming media.
 	Segment struct {
@@ -40,6 +45,9 @@ type (
 
 // NewPlaylist verifies that file exists and accessible for reading then instantiates Playlist.
 func NewPlaylist(uri string, name string, nseg int, size float64) (*Playlist, error) {
+	if nseg < 1 {
+		return nil, errInvalidSegmentCount
+	}
 	base := filepath.Base(name)
 	u, err := url.Parse(uri)
 	if err != nil {
-- 
2.43.0


From 4f9a181e5cac62c8f5739e003254ee4e958819c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 27/53] fix: do not hash session key again with every md5-sess
 response

---
 net/rtsp/digest.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..194e8a8 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -149,12 +149,13 @@ func (d *Digest) response(verb string, body []byte) string {
 		d.ha2 = md5hex(colonnade(verb, d.uri))
 	}
 	out := strings.Builder{}
+	ha1 := d.ha1
 	if d.qop == "" {
 		out.WriteString(", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.ha2)))
 	} else {
 		if d.algorithm == "md5-sess" {
-			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
+			ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
 		out.WriteString(d.qop)
@@ -163,7 +164,7 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", cnonce=\"")
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
 	}
 	out.WriteByte('"')
 	return out.String()
-- 
2.43.0


From 65dd5f0e3b88e1da3d6e5abcbf73de00ef2f7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 28/53] fix: do not reuse nonce count in digest responses

---
 net/rtsp/digest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 194e8a8..bf88181 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -126,7 +126,9 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	auth := out.String()
 	d.Next()
 	return func(verb string, body []byte) string {
-		return auth + d.response(verb, body)
+		resp := d.response(verb, body)
+		d.Next()
+		return auth + resp
 	}
 }
 
-- 
2.43.0


From 52199b77d1338872b2b76f08d88f33eace2256aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 29/53] fix: remember that parsed transport is interleaved

---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..46b5806 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -184,6 +184,7 @@ func (t *Transport) Parse(value string) (err error) {
 			}
 		case "interleaved":
 			t.IsMulticast = false
+			t.IsInterleaved = true
 			if len(keyval) > 1 {
 				t.Interleave, err = ParsePair(keyval[1])
 			} else {
-- 
2.43.0


From 57802d2946ee3327e12be16458f40bd8241bd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 30/53] fix: do not disclose credentials in error about
 malformed URI

---
 net/rtsp/connection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..26ef53e 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -57,7 +57,8 @@ func isTimeoutOrTemp(err error) bool {
 func Dial(uri string, proto int) (*Conn, error) {
 	url1, err := url.Parse(uri)
 	if err != nil {
-		return nil, err
+		// Original error includes URI together with user credentials.
+		return nil, errInvalidParameter
 	}
 
 	if _, _, err = net.SplitHostPort(url1.Host); err != nil {
-- 
2.43.0


From a8b603ad43d8fe8a1d8abd40e02cae1f87c27392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 31/53] fix: close connection if RTSP over HTTP cannot be
 established

---
 net/rtsp/connection.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 26ef53e..6af1586 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -93,10 +93,12 @@ func Dial(uri string, proto int) (*Conn, error) {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
 		if _, err := c.conn.Write(cmd); err != nil {
+			c.close()
 			return nil, err
 		}
 		// Read response but only headers and prepare to receive content stream of unknown length.
 		if err := ReceiveHTTP(c); err != nil {
+			c.close()
 			return nil, err
 		}
 	}
@@ -104,6 +106,14 @@ func Dial(uri string, proto int) (*Conn, error) {
 	return c, nil
 }
 
+// close releases network connections.
+func (c *Conn) close() {
+	c.conn.Close()
+	if c.post != nil {
+		c.post.Close()
+	}
+}
+
 func (c *Conn) Write(p []byte) (n int, err error) {
 	if c.Proto == ProtoHTTP {
 		if c.Timeout > 0 {
-- 
2.43.0


From fed085f1a921a03ffd040e5f56edd94221639ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 32/53] fix: open POST connection of RTSP over HTTP

---
 net/rtsp/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 6af1586..1dc8d82 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -101,6 +101,10 @@ func Dial(uri string, proto int) (*Conn, error) {
 			c.close()
 			return nil, err
 		}
+		if c.post, err = net.DialTCP("tcp", nil, addr); err != nil {
+			c.close()
+			return nil, err
+		}
 	}
 
 	return c, nil
-- 
2.43.0


From acf442647d7d430ed48dd5576f713842640f984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 33/53] fix: report failure to flush base64 encoded command

---
 net/rtsp/connection.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 1dc8d82..abb3be8 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -132,8 +132,11 @@ func (c *Conn) Write(p []byte) (n int, err error) {
 			c.connected = true
 		}
 		w := base64.NewEncoder(base64.StdEncoding, c.post)
-		defer w.Close()
-		return w.Write(p)
+		if n, err = w.Write(p); err != nil {
+			return n, err
+		}
+		// Flushes what has not been encoded yet.
+		return n, w.Close()
 	}
 	if c.Timeout > 0 {
 		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
-- 
2.43.0


From c80613c34244f0145fbf5bf58f5d1a5c69208856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 34/53] fix: limit time to send GET of RTSP over HTTP

---
 net/rtsp/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index abb3be8..48e96ac 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -92,6 +92,7 @@ func Dial(uri string, proto int) (*Conn, error) {
 	if c.Proto == ProtoHTTP {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
+		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
 		if _, err := c.conn.Write(cmd); err != nil {
 			c.close()
 			return nil, err
-- 
2.43.0


From fa607891242d79890fb9d4fc9f916aa5e1b0372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 35/53] fix: accept interleaved frames of any size

---
 net/rtsp/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 48e96ac..d519825 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -44,6 +44,9 @@ type (
 	}
 )
 
+// maxFrameSize is the largest size of interleaved frame.  The frame has to fit into the read buffer.
+const maxFrameSize = 65536
+
 var be = binary.BigEndian
 
 func isTimeoutOrTemp(err error) bool {
@@ -79,7 +82,7 @@ func Dial(uri string, proto int) (*Conn, error) {
 
 	c := &Conn{
 		conn:      conn,
-		rdr:       bufio.NewReaderSize(conn, 2048),
+		rdr:       bufio.NewReaderSize(conn, maxFrameSize),
 		connected: false,
 		Data:      make(chan RawPacket, 20),
 		guid:      fmt.Sprintf("%016x", rand.Uint64()),
-- 
2.43.0


From 2bf553f677563f15adad0933643f14dc9ccc8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 36/53] fix: do not resume reading in the middle of a message
 after timeout

---
 net/rtsp/session.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..42d713f 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -169,6 +169,10 @@ func (s *Session) receive() error {
 	var buf []byte
 	b, err := s.Peek(1)
 	if err != nil {
+		if isTimeoutOrTemp(err) {
+			// Nothing has been received yet, it is safe to try again.
+			return nil
+		}
 		return err
 	}
 	if b[0] == '$' {
@@ -201,7 +205,7 @@ func (s *Session) process() {
 			if err := s.KeepAlive(); err != nil && s.stage == StageDone {
 				return
 			}
-			if err := s.receive(); err != nil && !isTimeoutOrTemp(err) {
+			if err := s.receive(); err != nil {
 				log.Println(err)
 				return
 			}
-- 
2.43.0


From d5bc22c646948c2f31b648b6e5a44c992398f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 37/53] fix: stop session when keep-alive request cannot be
 sent

---
 net/rtsp/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 42d713f..86383b3 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -202,7 +202,8 @@ func (s *Session) process() {
 		case <-s.done:
 			return
 		default:
-			if err := s.KeepAlive(); err != nil && s.stage == StageDone {
+			if err := s.KeepAlive(); err != nil {
+				log.Println(err)
 				return
 			}
 			if err := s.receive(); err != nil {
-- 
2.43.0


From 390650a9c242d4e9dbc582e824b53244fb23dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 38/53] fix: release connections when session ends

---
 net/rtsp/connection.go | 6 ++++++
 net/rtsp/session.go    | 1 +
 2 files changed, 7 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index d519825..9460e97 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -244,6 +244,12 @@ func (c *Conn) Start() {
 	}
 }
 
+// release stops UDP listeners and closes network connections.
+func (c *Conn) release() {
+	c.Stop()
+	c.close()
+}
+
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 86383b3..42d7e4d 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -197,6 +197,7 @@ func (s *Session) receive() error {
 }
 
 func (s *Session) process() {
+	defer s.Conn.release()
 	for {
 		select {
 		case <-s.done:
-- 
2.43.0


From 1931b3b4cc2286248ba5c9efab4e1cc65a899f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 39/53] fix: read from UDP listeners without waiting for stop
 signal

---
 net/rtsp/connection.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 9460e97..aa4c926 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -223,22 +223,20 @@ func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
-			var buf [2048]byte
+			defer sink.Close()
+			var buf [65536]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
+					case <-sink.done:
+						return
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					return
 				}
 			}
-			sink.Close()
 			// TODO: Notify caller about closed connection.
 		}(s)
 	}
@@ -253,9 +251,9 @@ func (c *Conn) release() {
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		// Interrupts pending read.
+		sink.Close()
 	}
 	c.sinks = c.sinks[:0]
 }
-- 
2.43.0


From 7e8cd00ceb46ba889c4f3e32a082e3faae72ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 40/53] fix: listen on the address the camera can reach

---
 net/rtsp/connection.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index aa4c926..1fe5d9b 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -199,13 +199,14 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
-		var err error
-		if c.addr, err = net.ResolveIPAddr("ip", "127.0.0.1"); err != nil {
-			return err
+		local, ok := c.conn.LocalAddr().(*net.TCPAddr)
+		if !ok {
+			return errNoConnection
 		}
+		c.addr = &net.IPAddr{IP: local.IP, Zone: local.Zone}
 	}
 
-	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: ""})
+	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: c.addr.Zone})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1d30404f30540ebbee82f1f6debe6993985bd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 41/53] fix: listen on client ports for unicast

---
 net/rtsp/session.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 42d7e4d..f78f16a 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -304,10 +304,15 @@ func (s *Session) handleSetup(rsp *Response) (err error) {
 				}
 				if !f.transp.IsTCP {
 					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					// Unicast data comes to the ports that we have offered.
+					ports := f.transp.ClientPort
+					if f.transp.IsMulticast {
+						ports = f.transp.Port
+					}
+					if err := s.AddSink(ch, ports.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, ports.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 639c542d6a6233e140a54d5374e123267308a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 42/53] fix: return an error from commands issued without
 connection

---
 net/rtsp/session.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index f78f16a..a118f16 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -108,14 +108,22 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	return nil
 }
 
+// base returns URI for commands that apply to the whole presentation.
+func (s *Session) base() string {
+	if s.Conn == nil {
+		return ""
+	}
+	return s.BaseURI
+}
+
 // Options handles client OPTIONS request in RTSP.
 func (s *Session) Options() error {
-	return s.command(VerbOptions, s.BaseURI, nil)
+	return s.command(VerbOptions, s.base(), nil)
 }
 
 // Describe handles DESCRIBE request in RTSP and parses SDP data in response.
 func (s *Session) Describe() error {
-	return s.command(VerbDescribe, s.BaseURI, Headers{HeaderAccept: "application/sdp"})
+	return s.command(VerbDescribe, s.base(), Headers{HeaderAccept: "application/sdp"})
 }
 
 // Setup issues SETUP command for all playable media.
@@ -137,24 +145,24 @@ func (s *Session) Setup() error {
 
 // Play handles client PLAY request in RTSP.
 func (s *Session) Play() error {
-	return s.command(VerbPlay, s.BaseURI, nil)
+	return s.command(VerbPlay, s.base(), nil)
 }
 
 // Pause handles client PAUSE request in RTSP.
 func (s *Session) Pause() error {
-	return s.command(VerbPause, s.BaseURI, nil)
+	return s.command(VerbPause, s.base(), nil)
 }
 
 // Teardown handles client TEARDOWN request in RTSP.
 func (s *Session) Teardown() error {
 	// s.notify(StageDone)
-	return s.command(VerbTeardown, s.BaseURI, nil)
+	return s.command(VerbTeardown, s.base(), nil)
 }
 
 // KeepAlive executes OPTIONS on a regular basis to keep connection alive.
 // RTP over TCP does not need keep-alive messages according to RFC.
 func (s *Session) KeepAlive() error {
-	if s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
+	if s.Conn != nil && s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
-- 
2.43.0


From 34175d529b7c931effd0f2386c08dd9127f32315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 43/53] fix: retransmit challenged request with its own CSeq

---
 net/rtsp/session.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index a118f16..dd09d0f 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -70,7 +70,6 @@ func (s *Session) authorize(challenge string) error {
 func (s *Session) enqueue(req *Request) {
 	s.Lock()
 	defer s.Unlock()
-	req.Cseq = s.cseq
 	req.Session = s.session
 	s.queue[req.Cseq] = req
 }
@@ -97,6 +96,7 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	s.cseq++
+	req.Cseq = s.cseq
 	s.enqueue(req)
 	buf := req.Pack()
 
@@ -251,8 +251,7 @@ func (s *Session) handleRtsp() (err error) {
 		}
 		req.Auth = s.auth(req.Verb, nil)
 		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
+		// Responses to transport setup commands are matched based on CSeq, so it has to remain the same.
 		s.enqueue(req)
 		buf := req.Pack()
 
-- 
2.43.0


From b2c5906ac6e99feccdc12e049dc953f00cda7ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 44/53] fix: give up when server keeps rejecting credentials

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..a59178f 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -134,6 +134,7 @@ var (
 	errNoConnection      = errors.New("Connection to RTSP source is required")
 	errPacketTooShort    = errors.New("Packet is too short")
 	errInvalidParameter  = errors.New("Invalid parameter")
+	errUnauthorized      = errors.New("Credentials have been rejected")
 )
 
 const (
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..c7d5930 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retries int // Number of times the request has been retransmitted with new authorization
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index dd09d0f..99aed76 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -13,6 +13,9 @@ var (
 	keepAliveTimeout = time.Second * 2
 )
 
+// maxAuthRetries limits retransmission of the same request with updated authorization.
+const maxAuthRetries = 2
+
 type (
 	// Session maintains RTSP session and workflow.
 	Session struct {
@@ -246,6 +249,10 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		if req.retries >= maxAuthRetries {
+			return errUnauthorized
+		}
+		req.retries++
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-- 
2.43.0


From a1b72a68f094107fcd1e8bb3d03b47d9023975fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 45/53] fix: do not log authorization

---
 net/rtsp/message.go | 8 ++++++++
 net/rtsp/session.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index c7d5930..f120314 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -109,6 +109,14 @@ func (r *Request) Pack() []byte {
 	return buf.Bytes()
 }
 
+// logged formats request for logging without disclosing credentials.
+func (r Request) logged() string {
+	if r.Auth != "" {
+		r.Auth = "(hidden)"
+	}
+	return string(r.Pack())
+}
+
 // Unpack RTSP message into response structure.
 func Unpack(rdr *Conn) (*Response, error) {
 	line, err := rdr.ReadLine()
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 99aed76..552c396 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -103,7 +103,7 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	s.enqueue(req)
 	buf := req.Pack()
 
-	log.Println(string(buf))
+	log.Println(req.logged())
 
 	if _, err := s.Write(buf); err != nil {
 		return err
@@ -262,7 +262,7 @@ func (s *Session) handleRtsp() (err error) {
 		s.enqueue(req)
 		buf := req.Pack()
 
-		log.Println(string(buf))
+		log.Println(req.logged())
 
 		_, err = s.Write(buf)
 		return err
-- 
2.43.0


From 0ee864b98eea03fdaf29f3e4cbcd32db0fdffbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 46/53] fix: protect session state shared by commands and
 receiver

---
 net/rtsp/session.go | 93 ++++++++++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 31 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 552c396..9fb103c 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -66,15 +66,33 @@ func (s *Session) authorize(challenge string) error {
 	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
+	s.Lock()
 	s.auth = digest.Authenticate(username, password)
+	s.Unlock()
 	return nil
 }
 
-func (s *Session) enqueue(req *Request) {
+// enqueue authorizes request, registers it as pending and formats it for sending.
+// New request is assigned next CSeq and retransmitted one keeps what it has.
+func (s *Session) enqueue(req *Request, feed *Feed) []byte {
 	s.Lock()
 	defer s.Unlock()
+	if req.Cseq == 0 {
+		s.cseq++
+		req.Cseq = s.cseq
+	}
+	if s.auth != nil {
+		req.Auth = s.auth(req.Verb, nil)
+	}
+	if feed != nil {
+		feed.cseq = req.Cseq
+	}
 	req.Session = s.session
 	s.queue[req.Cseq] = req
+
+	log.Println(req.logged())
+
+	return req.Pack()
 }
 
 func (s *Session) dequeue(seq int) (req *Request, ok bool) {
@@ -88,6 +106,10 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 }
 
 func (s *Session) command(verb, uri string, headers Headers) error {
+	return s.commandFeed(verb, uri, headers, nil)
+}
+
+func (s *Session) commandFeed(verb, uri string, headers Headers, feed *Feed) error {
 	if s.Conn == nil {
 		return errNoConnection
 	}
@@ -95,17 +117,7 @@ func (s *Session) command(verb, uri string, headers Headers) error {
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
-	if s.auth != nil {
-		req.Auth = s.auth(req.Verb, nil)
-	}
-	s.cseq++
-	req.Cseq = s.cseq
-	s.enqueue(req)
-	buf := req.Pack()
-
-	log.Println(req.logged())
-
-	if _, err := s.Write(buf); err != nil {
+	if _, err := s.Write(s.enqueue(req, feed)); err != nil {
 		return err
 	}
 	return nil
@@ -131,17 +143,22 @@ func (s *Session) Describe() error {
 
 // Setup issues SETUP command for all playable media.
 func (s *Session) Setup() error {
-	for i := range s.feeds {
+	s.Lock()
+	feeds := s.feeds
+	s.Unlock()
+	for _, f := range feeds {
 		// Setup is done on a different URI that accounts for Control in media.
-		uri := s.feeds[i].Control
+		uri := f.Control
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		s.Lock()
+		transport := f.TransportHeader()
+		s.Unlock()
+		err := s.commandFeed(VerbSetup, uri, Headers{HeaderTransport: transport}, f)
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
 	}
 	return nil
 }
@@ -165,11 +182,17 @@ func (s *Session) Teardown() error {
 // KeepAlive executes OPTIONS on a regular basis to keep connection alive.
 // RTP over TCP does not need keep-alive messages according to RFC.
 func (s *Session) KeepAlive() error {
-	if s.Conn != nil && s.Proto != ProtoHTTP && s.Proto != ProtoTCP && s.stage > StageInit && s.stage < StageDone {
-		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
+	if s.Conn != nil && s.Proto != ProtoHTTP && s.Proto != ProtoTCP {
+		s.Lock()
+		session := s.session
+		due := s.stage > StageInit && s.stage < StageDone && (s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout)
+		if due {
 			s.last = time.Now()
+		}
+		s.Unlock()
+		if due {
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
-			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
+			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: session})
 		}
 	}
 	return nil
@@ -228,7 +251,9 @@ func (s *Session) process() {
 
 // Notify about stage change.
 func (s *Session) notify(stage int) {
+	s.Lock()
 	s.stage = stage
+	s.Unlock()
 	select {
 	case s.State <- stage:
 	}
@@ -256,21 +281,17 @@ func (s *Session) handleRtsp() (err error) {
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-		req.Auth = s.auth(req.Verb, nil)
 		// Treat this as retransmit of the same message.
 		// Responses to transport setup commands are matched based on CSeq, so it has to remain the same.
-		s.enqueue(req)
-		buf := req.Pack()
-
-		log.Println(req.logged())
-
-		_, err = s.Write(buf)
+		_, err = s.Write(s.enqueue(req, nil))
 		return err
 	}
 
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
+			s.Lock()
 			s.session = fields[0]
+			s.Unlock()
 		}
 	}
 
@@ -284,9 +305,13 @@ func (s *Session) handleRtsp() (err error) {
 		}
 	case VerbDescribe:
 		if rsp.Body != nil {
-			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
+			feeds, err := ParseFeeds(s.Proto, rsp.Body)
+			if err != nil {
 				return err
 			}
+			s.Lock()
+			s.feeds = feeds
+			s.Unlock()
 			return s.Setup()
 		}
 	case VerbPause:
@@ -311,11 +336,17 @@ func (s *Session) handleRtsp() (err error) {
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
 		for _, f := range s.feeds {
-			if f.cseq == rsp.Cseq {
+			s.Lock()
+			match := f.cseq == rsp.Cseq
+			if match {
 				s.feedidx++
-				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
-					return err
-				}
+				err = f.TransportSetup(rsp.Header.Get(HeaderTransport))
+			}
+			s.Unlock()
+			if err != nil {
+				return err
+			}
+			if match {
 				if !f.transp.IsTCP {
 					ch := byte(s.feedidx) * 2
 					// Unicast data comes to the ports that we have offered.
-- 
2.43.0


From 106b568a546ec7729cec361f60c1340f9079bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 47/53] fix: take decoding order number of fragmented unit from
 its start

---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 688217c..d6b96c8 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -153,7 +153,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
 		s.Fragments = s.Fragments[:0]
 	}
 }
-- 
2.43.0


From a08ea737acf7bbb867face8397c47214f93534f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 48/53] fix: reject exponential golomb codes that do not fit 32
 bits

---
 net/h264/bits.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 8f43609..50fed16 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -7,6 +7,7 @@ import (
 )
 
 var (
+	errInvalidGolomb       = errors.New("Exponential golomb code is too long")
 	errMissingTrailingBits = errors.New("RBSP is missing trailing stop and align bits")
 )
 
@@ -93,6 +94,10 @@ func (r *BitReader) ReadUnsignedGolomb() (val uint32, err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		// Longer codes do not encode 32-bit values.
+		return 0, errInvalidGolomb
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	val, err = r.ReadBits(zeroes)
 	if err != nil {
-- 
2.43.0


From 009ec1b9a872b0fe4b33e02ecb72ac511133166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 49/53] fix: commas inside of quoted values do not separate
 parameters of authentication challenge

---
 net/rtsp/digest.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index bf88181..3b165be 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -53,14 +53,15 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
-	for i := 0; i < len(parts); i++ {
-		parts[i] = strings.TrimSpace(parts[i])
-		if len(parts[i]) == 0 {
+	for challenge != "" {
+		var part string
+		part, challenge = cutParam(challenge)
+		part = strings.TrimSpace(part)
+		if len(part) == 0 {
 			continue
 		}
 
-		attr, val := parts[i], ""
+		attr, val := part, ""
 		if j := strings.Index(attr, "="); j > 0 {
 			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
 			val = strings.Trim(val, "\"")
@@ -95,6 +96,20 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	return d, nil
 }
 
+// cutParam returns the first of comma separated parameters and the rest.  Quoted value may contain commas.
+func cutParam(list string) (param, rest string) {
+	skip, comma := 0, strings.IndexByte(list, ',')
+	if i := strings.IndexByte(list, '"'); i >= 0 && i < comma {
+		if j := strings.IndexByte(list[i+1:], '"'); j >= 0 {
+			skip = i + j + 2
+		}
+	}
+	if comma = strings.IndexByte(list[skip:], ','); comma < 0 {
+		return list, ""
+	}
+	return list[:skip+comma], list[skip+comma+1:]
+}
+
 // Authenticate creates value for Authorization header.
 func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out := strings.Builder{}
-- 
2.43.0


From 8772532a568dbdd0c941f07bdac625ff3aab90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 50/53] fix: arm read deadline before discarding bytes that may
 not have arrived

---
 net/rtsp/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 1fe5d9b..ead955f 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -176,6 +176,9 @@ func (c *Conn) ReadUint16() (data uint16, err error) {
 
 // Discard skips the next n bytes, returning the number of bytes discarded.
 func (c *Conn) Discard(n int) (discarded int, err error) {
+	if c.Timeout > 0 {
+		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+	}
 	return c.rdr.Discard(n)
 }
 
-- 
2.43.0


From 702eaff9d090adf66857559ffa9057c2ecf333cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 51/53] fix: serialize writes of caller and receiver to the
 connection

---
 net/rtsp/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index ead955f..306d117 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -8,6 +8,7 @@ import (
 	"math/rand"
 	"net"
 	"net/url"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,7 @@ type (
 		post      *net.TCPConn   // POST connection in RTSP over HTTP
 		rdr       *bufio.Reader  // For line-oriented text protocol
 		connected bool           // Indicates that POST has been issued for RTSP over HTTP connection
+		writing   sync.Mutex     // Keeps requests of caller and receiver apart
 		Data      chan RawPacket // Channel to feed incoming data and control packet to for further processing
 		guid      string
 		Proto     int
@@ -123,6 +125,8 @@ func (c *Conn) close() {
 }
 
 func (c *Conn) Write(p []byte) (n int, err error) {
+	c.writing.Lock()
+	defer c.writing.Unlock()
 	if c.Proto == ProtoHTTP {
 		if c.Timeout > 0 {
 			c.post.SetWriteDeadline(time.Now().Add(c.Timeout))
-- 
2.43.0


From f5a8680bc4214ccd9d3426e87f34a65c1471b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 52/53] fix: count answered setups anew when presentation is
 described again

---
 net/rtsp/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 9fb103c..def0575 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -311,6 +311,7 @@ func (s *Session) handleRtsp() (err error) {
 			}
 			s.Lock()
 			s.feeds = feeds
+			s.feedidx = 0
 			s.Unlock()
 			return s.Setup()
 		}
-- 
2.43.0


From a8000d7fd91d8f36ae99e8ffb833c7571665cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 53/53] fix: unescape aggregated and fragmented units only
 after they have been delimited

Sizes of aggregation packets count encapsulated bytes, and emulation prevention
bytes may be split between fragments, so neither must be unescaped beforehand;
their fields may also look like start codes.
---
 net/h264/packet.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index d6b96c8..ac57270 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -153,7 +153,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: EBSPToRaw(data)})
 		s.Fragments = s.Fragments[:0]
 	}
 }
@@ -177,7 +177,7 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < size+2 {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
+		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: EBSPToRaw(buf[3 : size+2])})
 		s.Don++
 		buf = buf[size+2:]
 	}
@@ -210,7 +210,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < size+off {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
+		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: EBSPToRaw(buf[off+1 : size+off])})
 		buf = buf[size+off:]
 	}
 }
@@ -218,6 +218,12 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
 	s.Units = s.Units[:0]
+	if len(buf) > 0 {
+		if typ := buf[0] & 0x1F; typ >= typeStapA && typ <= typeFuB {
+			// Sizes and fragments refer to encapsulated bytes, units in there have no start codes.
+			return s.parseNAL(append([]byte{}, buf...), ts)
+		}
+	}
 	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
 	for _, nal := range SplitAnnexB(buf) {
 		if err := s.parseNAL(nal, ts); err != nil {
-- 
2.43.0

