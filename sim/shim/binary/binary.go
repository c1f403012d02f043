// Package binary is encoding/binary with yield points between the elements
// that Read and Write transfer.
package binary

import (
	b "encoding/binary"
	"io"
	"reflect"

	"verif.local/sim/simrt"
)

type (
	ByteOrder       = b.ByteOrder
	AppendByteOrder = b.AppendByteOrder
)

const (
	MaxVarintLen16 = b.MaxVarintLen16
	MaxVarintLen32 = b.MaxVarintLen32
	MaxVarintLen64 = b.MaxVarintLen64
)

var (
	BigEndian    = b.BigEndian
	LittleEndian = b.LittleEndian
	NativeEndian = b.NativeEndian
)

func split(data interface{}) (reflect.Value, bool) {
	v := reflect.ValueOf(data)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice || v.Len() < 2 {
		return v, false
	}
	return v, true
}

// Read is binary.Read: like the original it takes all the bytes first.
func Read(r io.Reader, order ByteOrder, data interface{}) error {
	simrt.P()
	v, ok := split(data)
	if !ok {
		return b.Read(r, order, data)
	}
	n := b.Size(data)
	if n < 0 {
		return b.Read(r, order, data)
	}
	buf := make([]byte, n)
	if _, err := io.ReadFull(r, buf); err != nil {
		return err
	}
	each := n / v.Len()
	for i := 0; i < v.Len(); i++ {
		if _, err := b.Decode(buf[i*each:(i+1)*each], order, v.Slice(i, i+1).Interface()); err != nil {
			return err
		}
		simrt.P()
	}
	return nil
}

// Write is binary.Write.
func Write(w io.Writer, order ByteOrder, data interface{}) error {
	simrt.P()
	buf, err := Append(nil, order, data)
	if err != nil {
		return err
	}
	_, err = w.Write(buf)
	return err
}

func Append(buf []byte, order ByteOrder, data interface{}) ([]byte, error) {
	v, ok := split(data)
	if !ok {
		return b.Append(buf, order, data)
	}
	var err error
	for i := 0; i < v.Len(); i++ {
		if buf, err = b.Append(buf, order, v.Slice(i, i+1).Interface()); err != nil {
			return nil, err
		}
		simrt.P()
	}
	return buf, nil
}

func Decode(buf []byte, order ByteOrder, data interface{}) (int, error) {
	return b.Decode(buf, order, data)
}
func Encode(buf []byte, order ByteOrder, data interface{}) (int, error) {
	return b.Encode(buf, order, data)
}
func Size(v interface{}) int                      { return b.Size(v) }
func PutUvarint(buf []byte, x uint64) int         { return b.PutUvarint(buf, x) }
func PutVarint(buf []byte, x int64) int           { return b.PutVarint(buf, x) }
func Uvarint(buf []byte) (uint64, int)            { return b.Uvarint(buf) }
func Varint(buf []byte) (int64, int)              { return b.Varint(buf) }
func AppendUvarint(buf []byte, x uint64) []byte   { return b.AppendUvarint(buf, x) }
func AppendVarint(buf []byte, x int64) []byte     { return b.AppendVarint(buf, x) }
func ReadUvarint(r io.ByteReader) (uint64, error) { return b.ReadUvarint(r) }
func ReadVarint(r io.ByteReader) (int64, error)   { return b.ReadVarint(r) }
