package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/gogo/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/internal/vp"
)

// --- C22: the wire codec of the gRPC messages -----------------------------------------

// message is what the generated codec offers.
type message interface {
	proto.Message
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
	XXX_Marshal([]byte, bool) ([]byte, error)
}

var kinds = []struct {
	name string
	real func() message
	ref  func() proto.Message
	top  int // greatest field number
}{
	{"HeartReq", func() message { return &pb.HeartReq{} }, func() proto.Message { return &mHeartReq{} }, 1},
	{"DocReq", func() message { return &pb.DocReq{} }, func() proto.Message { return &mDocReq{} }, 7},
	{"TokenData", func() message { return &pb.TokenData{} }, func() proto.Message { return &mTokenData{} }, 2},
	{"DeleteReq", func() message { return &pb.DeleteReq{} }, func() proto.Message { return &mDeleteReq{} }, 1},
	{"Reply", func() message { return &pb.Reply{} }, func() proto.Message { return &mReply{} }, 1},
	{"SearchReq", func() message { return &pb.SearchReq{} }, func() proto.Message { return &mSearchReq{} }, 7},
	{"SearchReply", func() message { return &pb.SearchReply{} }, func() proto.Message { return &mSearchReply{} }, 4},
	{"Text", func() message { return &pb.Text{} }, func() proto.Message { return &mText{} }, 3},
	{"Attri", func() message { return &pb.Attri{} }, func() proto.Message { return &mAttri{} }, 4},
	{"Logic", func() message { return &pb.Logic{} }, func() proto.Message { return &mLogic{} }, 4},
	{"Expr", func() message { return &pb.Expr{} }, func() proto.Message { return &mExpr{} }, 3},
}

// Edit changes encoded bytes.
type Edit struct {
	K   string `json:"k"` // set, ins, del, cut, flip
	At  int    `json:"at"`
	Val []byte `json:"v,omitempty"`
}

// CCase is a pair of messages of one type and what is done to their encoding.
type CCase struct {
	Kind    int             `json:"kind"`
	A       json.RawMessage `json:"a"`
	B       json.RawMessage `json:"b"`
	Unknown []byte          `json:"unknown,omitempty"` // a valid field the type does not have
	Edits   []Edit          `json:"edits,omitempty"`
	Raw     []byte          `json:"raw,omitempty"` // bytes of no message
}

var codecStrings = []string{"", "a", "hello", "世界", "\x00", "é", strings.Repeat("x", 127), strings.Repeat("y", 128), strings.Repeat("z", 16384)}

func genInt(t *rapid.T, bits int) int64 {
	v := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, 127, 128, 129, 255, 256, 16383, 16384, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63, 1 << 28, 1 << 35}), rapid.Int64()).Draw(t, "int")
	if bits == 32 {
		return int64(int32(v))
	}
	return v
}

// fill draws a value for every field.
func fill(t *rapid.T, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fill(t, v.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if strings.HasPrefix(v.Type().Field(i).Name, "XXX_") {
				continue
			}
			if rapid.IntRange(0, 3).Draw(t, "set") > 0 {
				fill(t, v.Field(i), depth)
			}
		}
	case reflect.String:
		v.SetString(rapid.OneOf(rapid.SampledFrom(codecStrings), rapid.String()).Draw(t, "string"))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.Int32:
		v.SetInt(genInt(t, 32))
	case reflect.Int64:
		v.SetInt(genInt(t, 64))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(t, k, depth+1)
			fill(t, e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes"))
			return
		}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		if n == 3 && v.Type().Elem().Kind() == reflect.Int32 {
			n = rapid.SampledFrom([]int{3, 13, 26, 130}).Draw(t, "many")
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(t, s.Index(i), depth+1)
		}
		v.Set(s)
	}
}

// varint is the encoding of v.
func varint(v uint64) (b []byte) {
	for ; v >= 1<<7; v >>= 7 {
		b = append(b, byte(v&0x7f|0x80))
	}
	return append(b, byte(v))
}

// genWire draws a sequence of well-formed and nearly well-formed fields.
func genWire(t *rapid.T, lo, hi, depth int) (b []byte) {
	num := uint64(rapid.IntRange(lo, hi).Draw(t, "field"))
	switch rapid.IntRange(0, 4).Draw(t, "wire") {
	case 0:
		b = append(varint(num<<3), varint(rapid.Uint64().Draw(t, "varint"))...)
	case 1:
		b = append(varint(num<<3|1), rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "fixed64")...)
	case 2:
		s := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
		b = append(append(varint(num<<3|2), varint(uint64(len(s)))...), s...)
	case 3:
		b = append(varint(num<<3|5), rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "fixed32")...)
	default:
		b = varint(num<<3 | 3)
		if depth < 3 {
			for n := rapid.IntRange(0, 2).Draw(t, "inner"); n > 0; n-- {
				b = append(b, genWire(t, 1, 40, depth+1)...)
			}
		}
		b = append(b, varint(num<<3|4)...)
	}
	return b
}

var oddVals = [][]byte{{0}, {0xff}, {0x7f}, {0x80}, {0x08}, {0x0a}, {0x12}, {0x0b}, {0x0c},
	varint(1 << 31), varint(1<<63 - 1), varint(1<<63 - 3), varint(1 << 63), varint(1<<64 - 1), varint(1<<62 + 7),
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}}

func genCCase(t *rapid.T) CCase {
	c := CCase{Kind: rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")}
	k := kinds[c.Kind]
	for _, to := range []*json.RawMessage{&c.A, &c.B} {
		m := k.real()
		fill(t, reflect.ValueOf(m).Elem(), 0)
		*to, _ = json.Marshal(m)
	}
	if rapid.Bool().Draw(t, "unknown") {
		c.Unknown = genWire(t, k.top+1, 40+k.top, 0)
	}
	for n := rapid.IntRange(0, 3).Draw(t, "edits"); n > 0; n-- {
		e := Edit{K: rapid.SampledFrom([]string{"set", "ins", "del", "cut", "flip"}).Draw(t, "edit"), At: rapid.IntRange(0, 400).Draw(t, "at")}
		if e.K == "set" || e.K == "ins" {
			e.Val = rapid.OneOf(rapid.SampledFrom(oddVals), rapid.SliceOfN(rapid.Byte(), 1, 4)).Draw(t, "val")
		}
		c.Edits = append(c.Edits, e)
	}
	if rapid.Bool().Draw(t, "raw") {
		for n := rapid.IntRange(0, 4).Draw(t, "nraw"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(t, "rawkind") {
			case 0:
				c.Raw = append(c.Raw, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "junk")...)
			case 1:
				num := rapid.IntRange(0, k.top+1).Draw(t, "num")
				w := rapid.IntRange(0, 7).Draw(t, "w")
				c.Raw = append(append(c.Raw, varint(uint64(num<<3|w))...), rapid.SampledFrom(oddVals).Draw(t, "len")...)
			default:
				c.Raw = append(c.Raw, genWire(t, 1, k.top+1, 0)...)
			}
		}
	}
	return c
}

func (e Edit) apply(b []byte) []byte {
	if len(b) == 0 {
		return append([]byte{}, e.Val...)
	}
	at := e.At % len(b)
	b = append([]byte{}, b...)
	switch e.K {
	case "set":
		copy(b[at:], e.Val)
	case "ins":
		b = append(append(append([]byte{}, b[:at]...), e.Val...), b[at:]...)
	case "del":
		b = append(b[:at], b[at+1:]...)
	case "cut":
		b = b[:at]
	case "flip":
		b[at] ^= 1 << (uint(e.At) % 8)
	}
	return b
}

// dump renders every field of a message, with its unknown fields.
func dump(v reflect.Value, w *bytes.Buffer) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		dump(v.Elem(), w)
	case reflect.Struct:
		w.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if n == "XXX_NoUnkeyedLiteral" || n == "XXX_sizecache" {
				continue
			}
			w.WriteString(n + ":")
			dump(v.Field(i), w)
			w.WriteByte(' ')
		}
		w.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(w, "%x", v.Bytes())
			return
		}
		w.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), w)
			w.WriteByte(',')
		}
		w.WriteByte(']')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, fmt.Sprintf("%q=%v", k.Interface(), v.MapIndex(k).Interface()))
		}
		sort.Strings(l)
		w.WriteString(strings.Join(l, ","))
	default:
		fmt.Fprintf(w, "%#v", v.Interface())
	}
}

func show(m any) string {
	var b bytes.Buffer
	dump(reflect.ValueOf(m), &b)
	return b.String()
}

// mapless renders a message without its maps.
func mapless(copy, m any) string {
	c := reflect.ValueOf(copy).Elem()
	c.Set(reflect.ValueOf(m).Elem())
	for i := 0; i < c.NumField(); i++ {
		if c.Field(i).Kind() == reflect.Map {
			c.Field(i).Set(reflect.Zero(c.Field(i).Type()))
		}
	}
	return show(copy)
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func decode(m message, b []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("decoding %d bytes as %T panics: %v (%x)", len(b), m, r, b[:min(len(b), 60)])
		}
	}()
	if e := m.Unmarshal(b); e != nil {
		return errRefused
	}
	return nil
}

var unknownRe = regexp.MustCompile(`XXX_unrecognized:[0-9a-f]* `)

var errRefused = fmt.Errorf("refused")

// same decodes b with both codecs and compares.
func (c CCase) same(b []byte, valid bool) (message, error) {
	k := kinds[c.Kind]
	m, r := k.real(), k.ref()
	err := decode(m, b)
	if err != nil && err != errRefused {
		return nil, err
	}
	if err != nil && valid {
		return nil, fmt.Errorf("decoding a valid %s fails: %x", k.name, b[:min(len(b), 60)])
	}
	if err != nil {
		return nil, nil
	}
	if e := proto.Unmarshal(b, r); e != nil {
		if valid {
			vp.Abort("the reference refuses a valid message: %v", e)
		}
		return m, nil // not UTF-8, or a group the reference does not accept
	}
	x, y := show(m), show(r)
	if !valid {
		// entries of a map with fields of other types are read leniently, and
		// the reference rewrites the tag of an unknown field
		x, y = mapless(k.real(), m), mapless(k.ref(), r)
		x, y = unknownRe.ReplaceAllString(x, ""), unknownRe.ReplaceAllString(y, "")
	}
	if x != y {
		return nil, fmt.Errorf("a %s decodes to %s, want %s (%x)", k.name, short(x), short(y), b[:min(len(b), 60)])
	}
	return m, nil
}

func runCCase(ctx *vp.Ctx, c CCase) error {
	k := kinds[c.Kind]
	var enc [2][]byte
	for i, src := range []json.RawMessage{c.A, c.B} {
		m, r := k.real(), k.ref()
		if json.Unmarshal(src, m) != nil || json.Unmarshal(src, r) != nil {
			vp.Abort("not a message")
		}
		want := show(m)
		if want != show(r) {
			return fmt.Errorf("the %s %s has other JSON members than its definition", k.name, short(want))
		}
		b, err := m.Marshal()
		if err != nil {
			return fmt.Errorf("encoding %s: %v", short(want), err)
		}
		if len(b) != m.Size() {
			return fmt.Errorf("%s is encoded in %d bytes, but its size is %d", short(want), len(b), m.Size())
		}
		if show(m) != want {
			return fmt.Errorf("encoding changes %s", short(want))
		}
		buf := bytes.Repeat([]byte{0xaa}, len(b)+9)
		n, err := m.MarshalTo(buf)
		if err != nil || n != len(b) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xaa}, 9)) {
			return fmt.Errorf("MarshalTo of %s: %d bytes, error %v", short(want), n, err)
		}
		rb, err := proto.Marshal(r)
		if err != nil {
			vp.Abort("reference: %v", err)
		}
		db, err := m.XXX_Marshal(nil, true)
		if err != nil {
			return fmt.Errorf("deterministic encoding of %s: %v", short(want), err)
		}
		for j, x := range [][]byte{b, buf[:n], rb, db} {
			got, err := c.same(x, true)
			if err != nil {
				return err
			}
			if show(got) != want {
				return fmt.Errorf("encoding %d of %s decodes to %s", j, short(want), short(show(got)))
			}
		}
		enc[i] = b
	}
	// two encodings one after the other are the merged message
	both := append(append([]byte{}, enc[0]...), enc[1]...)
	if _, err := c.same(both, true); err != nil {
		return fmt.Errorf("of two encodings joined: %v", err)
	}
	// fields of later versions are kept
	if len(c.Unknown) > 0 {
		for i, b := range [][]byte{append(append([]byte{}, enc[0]...), c.Unknown...), append(append([]byte{}, c.Unknown...), enc[0]...)} {
			m := k.real()
			if err := decode(m, b); err != nil {
				return fmt.Errorf("decoding with an unknown field %x (%d): %v", c.Unknown, i, err)
			}
			u := reflect.ValueOf(m).Elem().FieldByName("XXX_unrecognized").Bytes()
			if !bytes.Equal(u, c.Unknown) {
				return fmt.Errorf("the unknown field %x is kept as %x", c.Unknown, u)
			}
			b2, err := m.Marshal()
			if err != nil || len(b2) != m.Size() || len(b2) != len(b) || !bytes.HasSuffix(b2, c.Unknown) {
				return fmt.Errorf("a %s with the unknown field %x is encoded as %d bytes (%v), want %d", k.name, c.Unknown, len(b2), err, len(b))
			}
		}
		ctx.Label("unknown field")
	}
	// whatever arrives is refused or decoded, and what is decoded can be encoded
	cases := [][]byte{}
	if len(c.Raw) > 0 {
		cases = append(cases, c.Raw, append(append([]byte{}, enc[0]...), c.Raw...))
	}
	x := both
	for _, e := range c.Edits {
		x = e.apply(x)
		cases = append(cases, x)
	}
	for i := 0; i <= len(enc[0]) && len(enc[0]) < 600; i++ {
		cases = append(cases, enc[0][:i])
	}
	for _, x := range cases {
		m, err := c.same(x, false)
		if err != nil {
			return err
		}
		if m == nil {
			ctx.Label("damaged bytes refused")
			continue
		}
		ctx.Label("damaged bytes decoded")
		b, err := m.Marshal()
		if err != nil || len(b) != m.Size() {
			return fmt.Errorf("%s, decoded from %x, is encoded as %d bytes (%v), its size is %d", short(show(m)), x, len(b), err, m.Size())
		}
		m2 := k.real()
		if err := decode(m2, b); err != nil || show(m) != show(m2) {
			return fmt.Errorf("%s, decoded from %x, is encoded as %x, which is decoded as %s (%v)", short(show(m)), x, b, short(show(m2)), err)
		}
	}
	ctx.NonTrivial(len(enc[0]) > 0 && len(cases) > 0)
	ctx.Label(k.name)
	return nil
}

func init() {
	vp.Register(vp.Prop{
		ID:   "C22",
		Rule: "A case is two messages of one type, an unknown field, edits of their encoding (all prefixes among them) and bytes of no message; non-trivial if the encoding is not empty and some damaged bytes were decoded or refused.",
		Assumptions: []string{
			"strings are valid UTF-8 in the messages that are encoded; list elements and maps hold no nil messages",
			"the reference is gogo/protobuf's table-driven codec over the field numbers and types of doc.proto; where it refuses damaged bytes the generated codec may accept them",
		},
		Quick: vp.Budget{Shards: 8, Checks: 2500}, Thorough: vp.Budget{Shards: 8, Checks: 100000},
		Restart: 5000, Race: true,
	}, genCCase, runCCase)
}
