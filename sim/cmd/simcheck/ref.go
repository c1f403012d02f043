package main

import (
	"encoding/hex"
	"strings"
)

// Independent reference of the wire formats.

func refCRC(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func refLRC(b []byte) byte {
	var s byte
	for _, x := range b {
		s += x
	}
	return -s
}

func u16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }

func be(vs ...uint16) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func mbap(tid, pid uint16, length int, unit byte, pdu []byte) []byte {
	return cat(be(tid, pid, uint16(length)), []byte{unit}, pdu)
}

func tcpADU(tid uint16, unit byte, pdu []byte) []byte {
	return mbap(tid, 0, len(pdu)+1, unit, pdu)
}

func rtuADU(unit byte, pdu []byte) []byte {
	b := cat([]byte{unit}, pdu)
	c := refCRC(b)
	return append(b, byte(c), byte(c>>8))
}

func asciiADU(unit byte, pdu []byte) []byte {
	b := cat([]byte{unit}, pdu)
	b = append(b, refLRC(b))
	return []byte(":" + strings.ToUpper(hex.EncodeToString(b)) + "\r\n")
}

func serialADU(ascii bool, unit byte, pdu []byte) []byte {
	if ascii {
		return asciiADU(unit, pdu)
	}
	return rtuADU(unit, pdu)
}

// salted bytes that identify one reply
func payload(salt uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(mix(salt*131+uint64(i)) >> 16)
	}
	return b
}

// okReply is a well-formed positive reply to a request.
func okReply(req []byte, salt uint64) []byte {
	fc := req[0]
	switch fc {
	case 1, 2:
		n := (int(u16(req[3:])) + 7) / 8
		return cat([]byte{fc, byte(n)}, payload(salt, n))
	case 3, 4, 23:
		n := int(u16(req[3:])) * 2
		return cat([]byte{fc, byte(n)}, payload(salt, n))
	case 5, 6, 15, 16:
		return append([]byte(nil), req[:5]...)
	case 22:
		return append([]byte(nil), req...)
	case 24:
		n := clamp(int(mix(salt^24)%40), 0, 31) // full ones often
		return cat([]byte{fc}, be(uint16(2+2*n), uint16(n)), payload(salt, 2*n))
	}
	return cat([]byte{fc}, payload(salt, 1+int(mix(salt)%40)))
}

// shapeOK tells whether rsp is a positive reply of exactly the shape req calls for.
func shapeOK(req, rsp []byte) bool {
	if len(rsp) < 2 || rsp[0] != req[0] {
		return false
	}
	switch req[0] {
	case 1, 2:
		n := (int(u16(req[3:])) + 7) / 8
		return len(rsp) == 2+n && int(rsp[1]) == n
	case 3, 4, 23:
		n := int(u16(req[3:])) * 2
		return len(rsp) == 2+n && int(rsp[1]) == n
	case 5, 6, 15, 16:
		return string(rsp) == string(req[:5])
	case 22:
		return string(rsp) == string(req)
	case 24:
		if len(rsp) < 5 {
			return false
		}
		n := int(u16(rsp[3:]))
		return n <= 31 && int(u16(rsp[1:])) == 2+2*n && len(rsp) == 5+2*n
	}
	return true
}

func typedFC(fc byte) bool {
	switch fc {
	case 1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24:
		return true
	}
	return false
}
