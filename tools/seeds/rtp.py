seed("c01-sr-guard","C01",[("net/rtcp/packet.go","if len(buf) < (28 + int(packet.C())*24) {","if len(buf)-HeaderSize < int(packet.C())*24 {")],
"net/rtcp",'''
package rtcp

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n <= 60; n++ {
		for c := 0; c < 32; c++ {
			buf := make([]byte, n)
			if n > 1 {
				buf[0], buf[1] = 0x80|byte(c), 200
			}
			Unpack(buf)
		}
	}
}
''',"a sender report whose report count is small while the sender info is cut off","decoder panics on a truncated sender report")
seed("c01-ext-bound","C01",[("net/rtp/packet.go","packet.XD = buf[off : off+int(packet.XL)*4]\n\t\t\toff += int(packet.XL) * 4","packet.XD = buf[off : off+int(packet.XL)*4 : off+int(packet.XL+1)*4]\n\t\t\toff += int(packet.XL) * 4")],
"net/rtp",'''
package rtp

import "testing"

func TestDemo(t *testing.T) {
	for xl := 0; xl < 4; xl++ {
		for n := 12; n < 40; n++ {
			buf := make([]byte, n)
			buf[0] = 0x90
			if n > 15 {
				buf[15] = byte(xl)
			}
			Unpack(buf)
		}
	}
}
''',"a header extension that ends exactly at the end of the packet","slice capacity bound beyond the buffer panics")
seed("c02-cc-mask","C02",[("net/rtp/packet.go","return p.VPXCC & 0x0F","return p.VPXCC & 0x07")],
"net/rtp",'''
package rtp

import "testing"

func TestDemo(t *testing.T) {
	buf := make([]byte, 12+15*4+1)
	buf[0] = 0x8f
	p, err := Unpack(buf)
	if err != nil || len(p.CSRC) != 15 || len(p.PL) != 1 {
		t.Fatal(p, err)
	}
}
''',"a packet with eight or more contributing sources","contributing sources are taken for payload")
seed("c03-ntp-sign","C03",[("net/rtcp/packet.go","data.NTPTS = be.Uint64(buf[off+4:])","data.NTPTS = uint64(int32(be.Uint32(buf[off+4:])))<<32 + uint64(int32(be.Uint32(buf[off+8:])))")],
"net/rtcp",'''
package rtcp

import "testing"

func TestDemo(t *testing.T) {
	buf := make([]byte, 28)
	buf[0], buf[1] = 0x80, 200
	buf[11], buf[12] = 5, 0x90
	p, err := Unpack(buf)
	if err != nil || p.DSR.NTPTS != 0x590000000 {
		t.Fatal(p, err)
	}
}
''',"a sender report whose NTP fraction is above one half","the NTP timestamp is a second too early")
seed("c03-count-mask","C03",[("net/rtcp/packet.go","if len(buf) < (28 + int(packet.C())*24) {","if len(buf) < (28 + int(packet.C()&0x0F)*24) {")],
"net/rtcp",'''
package rtcp

import "testing"

func TestDemo(t *testing.T) {
	buf := make([]byte, 28)
	buf[0], buf[1] = 0x90, 200
	if _, err := Unpack(buf); err == nil {
		t.Fatal("accepted")
	}
}
''',"a sender report with sixteen or more report blocks that are missing","a truncated sender report is accepted")
