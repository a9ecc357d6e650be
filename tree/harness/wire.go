package main

// The harness's own SECS-II / HSMS encoder and decoder, written from SEMI E5/E37 and
// independent of the code under test.

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

const (
	fList = 0o00
	fBin  = 0o10
	fBool = 0o11
	fAsc  = 0o20
	fI8   = 0o30
	fI1   = 0o31
	fI2   = 0o32
	fI4   = 0o34
	fF8   = 0o40
	fF4   = 0o44
	fU8   = 0o50
	fU1   = 0o51
	fU2   = 0o52
	fU4   = 0o54
)

// Item is a SECS-II data item: a list, or a format code with raw big-endian data bytes.
type Item struct {
	F byte
	L []*Item
	D []byte
}

func L(v ...*Item) *Item { return &Item{F: fList, L: v} }
func A(s string) *Item   { return &Item{F: fAsc, D: []byte(s)} }
func B(b ...byte) *Item  { return &Item{F: fBin, D: b} }
func Bo(b ...byte) *Item { return &Item{F: fBool, D: b} }
func num(f byte, w int, v ...uint64) *Item {
	it := &Item{F: f}
	for _, x := range v {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], x)
		it.D = append(it.D, b[8-w:]...)
	}
	return it
}
func U1(v ...uint64) *Item { return num(fU1, 1, v...) }
func U2(v ...uint64) *Item { return num(fU2, 2, v...) }
func U4(v ...uint64) *Item { return num(fU4, 4, v...) }
func U8(v ...uint64) *Item { return num(fU8, 8, v...) }
func I1(v ...int64) *Item  { return numi(fI1, 1, v...) }
func I2(v ...int64) *Item  { return numi(fI2, 2, v...) }
func I4(v ...int64) *Item  { return numi(fI4, 4, v...) }
func I8(v ...int64) *Item  { return numi(fI8, 8, v...) }
func numi(f byte, w int, v ...int64) *Item {
	var u []uint64
	for _, x := range v {
		u = append(u, uint64(x))
	}
	return num(f, w, u...)
}
func F4(v ...float32) *Item {
	var u []uint64
	for _, x := range v {
		u = append(u, uint64(math.Float32bits(x)))
	}
	return num(fF4, 4, u...)
}
func F8(v ...float64) *Item {
	var u []uint64
	for _, x := range v {
		u = append(u, math.Float64bits(x))
	}
	return num(fF8, 8, u...)
}

func width(f byte) int {
	switch f {
	case fI8, fF8, fU8:
		return 8
	case fI4, fF4, fU4:
		return 4
	case fI2, fU2:
		return 2
	}
	return 1
}

// Enc appends the item's encoding; a nil item is an absent one.
func (it *Item) Enc(b []byte) []byte {
	if it == nil {
		return b
	}
	n := len(it.D)
	if it.F == fList {
		n = len(it.L)
	}
	switch {
	case n < 1<<8:
		b = append(b, it.F<<2|1, byte(n))
	case n < 1<<16:
		b = append(b, it.F<<2|2, byte(n>>8), byte(n))
	default:
		b = append(b, it.F<<2|3, byte(n>>16), byte(n>>8), byte(n))
	}
	if it.F == fList {
		for _, x := range it.L {
			b = x.Enc(b)
		}
		return b
	}
	return append(b, it.D...)
}

// dec decodes one item, strictly.
func dec(b []byte, depth int) (*Item, []byte, error) {
	if len(b) < 2 {
		return nil, nil, fmt.Errorf("item header truncated")
	}
	if depth > 200 {
		return nil, nil, fmt.Errorf("too deep")
	}
	nl := int(b[0] & 3)
	it := &Item{F: b[0] >> 2}
	if nl == 0 || len(b) < 1+nl {
		return nil, nil, fmt.Errorf("bad length bytes")
	}
	n := 0
	for i := 0; i < nl; i++ {
		n = n<<8 | int(b[1+i])
	}
	b = b[1+nl:]
	switch it.F {
	case fList:
		for i := 0; i < n; i++ {
			x, r, err := dec(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			it.L = append(it.L, x)
			b = r
		}
		return it, b, nil
	case fBin, fBool, fAsc, fI1, fI2, fI4, fI8, fF4, fF8, fU1, fU2, fU4, fU8:
	default:
		return nil, nil, fmt.Errorf("unknown format %o", it.F)
	}
	if len(b) < n || n%width(it.F) != 0 {
		return nil, nil, fmt.Errorf("item body of %d bytes is wrong", n)
	}
	it.D = append([]byte(nil), b[:n]...)
	return it, b[n:], nil
}

// Dec decodes message text: nil for an empty text.
func Dec(b []byte) (*Item, error) {
	if len(b) == 0 {
		return nil, nil
	}
	it, r, err := dec(b, 0)
	if err == nil && len(r) > 0 {
		err = fmt.Errorf("%d bytes after the item", len(r))
	}
	return it, err
}

func (it *Item) Equal(o *Item) bool { return string(it.Enc(nil)) == string(o.Enc(nil)) }

// Uint gives the k-th value of a numeric item.
func (it *Item) Uint(k int) (uint64, bool) {
	if it == nil || it.F == fList || it.F == fAsc {
		return 0, false
	}
	w := width(it.F)
	if len(it.D) < (k+1)*w {
		return 0, false
	}
	var v uint64
	for _, x := range it.D[k*w : (k+1)*w] {
		v = v<<8 | uint64(x)
	}
	return v, true
}

// At walks into lists.
func (it *Item) At(idx ...int) *Item {
	for _, i := range idx {
		if it == nil || it.F != fList || i >= len(it.L) {
			return nil
		}
		it = it.L[i]
	}
	return it
}
func (it *Item) Str() string {
	if it == nil {
		return ""
	}
	return string(it.D)
}
func (it *Item) String() string {
	if it == nil {
		return "-"
	}
	if it.F == fList {
		var s []string
		for i, x := range it.L {
			if i > 8 {
				s = append(s, fmt.Sprintf("..%d", len(it.L)))
				break
			}
			s = append(s, x.String())
		}
		return "<" + strings.Join(s, " ") + ">"
	}
	if len(it.D) > 48 {
		return fmt.Sprintf("%o[%d]%x..", it.F, len(it.D), it.D[:16])
	}
	if it.F == fAsc {
		return fmt.Sprintf("%q", it.D)
	}
	if v, ok := it.Uint(0); ok && len(it.D) == width(it.F) {
		return fmt.Sprintf("%o:%d", it.F, v)
	}
	return fmt.Sprintf("%o:%x", it.F, it.D)
}

// ToAST builds the code under test's representation of the item.
func (it *Item) ToAST() ast.ItemNode {
	if it == nil {
		return ast.NewEmptyItemNode()
	}
	w := width(it.F)
	n := len(it.D) / w
	var v []interface{}
	val := func(i int) uint64 { x, _ := it.Uint(i); return x }
	sx := func(i int) int64 {
		x := val(i)
		s := uint(64 - 8*w)
		return int64(x<<s) >> s
	}
	switch it.F {
	case fList:
		for _, x := range it.L {
			v = append(v, x.ToAST())
		}
		return ast.NewListNode(v...)
	case fAsc:
		return ast.NewASCIINode(string(it.D))
	case fBin:
		for _, x := range it.D {
			v = append(v, x)
		}
		return ast.NewBinaryNode(v...)
	case fBool:
		for _, x := range it.D {
			v = append(v, x != 0)
		}
		return ast.NewBooleanNode(v...)
	case fU1, fU2, fU4, fU8:
		for i := 0; i < n; i++ {
			v = append(v, val(i))
		}
		return ast.NewUintNode(w, v...)
	case fI1, fI2, fI4, fI8:
		for i := 0; i < n; i++ {
			v = append(v, sx(i))
		}
		return ast.NewIntNode(w, v...)
	case fF4:
		for i := 0; i < n; i++ {
			v = append(v, math.Float32frombits(uint32(val(i))))
		}
		return ast.NewFloatNode(4, v...)
	case fF8:
		for i := 0; i < n; i++ {
			v = append(v, math.Float64frombits(val(i)))
		}
		return ast.NewFloatNode(8, v...)
	}
	panic("bad item")
}

// FromAST reads an item out of the code under test's representation, through its
// accessors (not through its encoder).
func FromAST(n ast.ItemNode) *Item {
	if n == nil {
		return nil
	}
	ty := n.Type()
	w := 0
	if len(ty) == 2 {
		w = int(ty[1] - '0')
	}
	switch x := n.Values().(type) {
	case []ast.ItemNode:
		it := &Item{F: fList}
		for _, e := range x {
			it.L = append(it.L, FromAST(e))
		}
		return it
	case []bool:
		it := &Item{F: fBool}
		for _, e := range x {
			if e {
				it.D = append(it.D, 1)
			} else {
				it.D = append(it.D, 0)
			}
		}
		return it
	case []uint64:
		return num(map[int]byte{1: fU1, 2: fU2, 4: fU4, 8: fU8}[w], w, x...)
	case []int64:
		return numi(map[int]byte{1: fI1, 2: fI2, 4: fI4, 8: fI8}[w], w, x...)
	case []float64:
		if w == 4 {
			var f []float32
			for _, e := range x {
				f = append(f, float32(e))
			}
			return F4(f...)
		}
		return F8(x...)
	case []int:
		it := &Item{F: fBin}
		for _, e := range x {
			it.D = append(it.D, byte(e))
		}
		return it
	case []byte:
		return B(x...)
	case string:
		if ty == "empty" || ty == "" {
			return nil
		}
		return A(x)
	}
	panic(fmt.Sprintf("FromAST: %s %T", ty, n.Values()))
}

// Frame is one HSMS message.
type Frame struct {
	Sess       uint16
	B2, B3     byte
	PType, Typ byte
	Sys        uint32
	Text       []byte
}

const (
	tData   = 0
	tSelReq = 1
	tSelRsp = 2
	tDesReq = 3
	tDesRsp = 4
	tLnkReq = 5
	tLnkRsp = 6
	tReject = 7
	tSepReq = 9
)

func (f *Frame) S() int  { return int(f.B2 & 0x7f) }
func (f *Frame) F() int  { return int(f.B3) }
func (f *Frame) W() bool { return f.B2&0x80 != 0 }
func (f *Frame) Header() []byte {
	h := []byte{byte(f.Sess >> 8), byte(f.Sess), f.B2, f.B3, f.PType, f.Typ, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(h[6:], f.Sys)
	return h
}
func (f *Frame) Bytes() []byte {
	b := make([]byte, 4, 14+len(f.Text))
	binary.BigEndian.PutUint32(b, uint32(10+len(f.Text)))
	b = append(b, f.Header()...)
	return append(b, f.Text...)
}
func (f *Frame) Item() *Item { it, _ := Dec(f.Text); return it }
func (f *Frame) String() string {
	if f.Typ == tData && f.PType == 0 {
		w := ""
		if f.W() {
			w = "W"
		}
		it, err := Dec(f.Text)
		if err != nil {
			return fmt.Sprintf("S%dF%d%s sess=%04x sys=%08x text=%x", f.S(), f.F(), w, f.Sess, f.Sys, clip(f.Text, 40))
		}
		return fmt.Sprintf("S%dF%d%s sess=%04x sys=%08x %v", f.S(), f.F(), w, f.Sess, f.Sys, it)
	}
	n := map[byte]string{1: "Select.req", 2: "Select.rsp", 3: "Deselect.req", 4: "Deselect.rsp", 5: "Linktest.req", 6: "Linktest.rsp", 7: "Reject.req", 9: "Separate.req"}[f.Typ]
	if n == "" {
		n = fmt.Sprintf("type%d", f.Typ)
	}
	return fmt.Sprintf("%s sess=%04x b2=%d b3=%d sys=%08x", n, f.Sess, f.B2, f.B3, f.Sys)
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func data(s, f int, w bool, sess uint16, sys uint32, it *Item) *Frame {
	b2 := byte(s)
	if w {
		b2 |= 0x80
	}
	return &Frame{Sess: sess, B2: b2, B3: byte(f), Sys: sys, Text: it.Enc(nil)}
}
func ctl(t byte, sess uint16, b2, b3 byte, sys uint32) *Frame {
	return &Frame{Sess: sess, B2: b2, B3: b3, Typ: t, Sys: sys}
}

// cut takes the first complete frame off b.
func cut(b []byte) (*Frame, []byte, error) {
	if len(b) < 4 {
		return nil, b, nil
	}
	n := int(binary.BigEndian.Uint32(b))
	if n < 10 || n > 64<<20 {
		return nil, b, fmt.Errorf("message length %d on the wire", n)
	}
	if len(b) < 4+n {
		return nil, b, nil
	}
	m := b[4 : 4+n]
	f := &Frame{Sess: binary.BigEndian.Uint16(m), B2: m[2], B3: m[3], PType: m[4], Typ: m[5], Sys: binary.BigEndian.Uint32(m[6:]), Text: append([]byte(nil), m[10:]...)}
	return f, b[4+n:], nil
}
