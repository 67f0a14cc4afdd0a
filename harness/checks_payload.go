package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
)

func genString(rng *randT) string {
	parts := []string{"", "a", "hello", "\r\n", "\n", "\r", "<b>&\"'</b>", "\\", "\"", "\u2028\u2029", "é", "日本語", "\x00\x01", "\t", "😀", "</script>", " ", "\x7f", "%s"}
	var sb strings.Builder
	for i := rng.IntN(5); i > 0; i-- {
		sb.WriteString(parts[rng.IntN(len(parts))])
	}
	if rng.IntN(30) == 0 {
		sb.WriteString(strings.Repeat("long ", 2000+rng.IntN(20000)))
	}
	return sb.String()
}

func genJSON(rng *randT, depth int) any {
	k := rng.IntN(9)
	if depth <= 0 {
		k = rng.IntN(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rng.IntN(2) == 0
	case 2:
		return pick(rng, 0.0, 1, -1, 0.1, 1e300, -1e-300, 1<<53, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, rng.NormFloat64())
	case 3, 4, 5:
		return genString(rng)
	case 6:
		a := []any{}
		for i := rng.IntN(5); i > 0; i-- {
			a = append(a, genJSON(rng, depth-1))
		}
		return a
	default:
		m := map[string]any{}
		for i := rng.IntN(6); i > 0; i-- {
			m[genString(rng)+strconv.Itoa(rng.IntN(9))] = genJSON(rng, depth-1)
		}
		return m
	}
}

func deepJSON(v any) any {
	switch x := v.(type) {
	case []any:
		a := make([]any, len(x))
		for i := range x {
			a[i] = deepJSON(x[i])
		}
		return a
	case map[string]any:
		m := make(map[string]any, len(x))
		for k := range x {
			m[k] = deepJSON(x[k])
		}
		return m
	}
	return v
}

type level int

func (l level) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("level-%d", int(l))), nil }
func (l *level) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "level-%d", (*int)(l))
	return err
}

type record struct {
	ID    int64             `json:"id"`
	Big   uint64            `json:"big"`
	Name  string            `json:"name"`
	Tags  []string          `json:"tags"`
	Raw   json.RawMessage   `json:"raw"`
	Inner *record           `json:"inner,omitempty"`
	Data  []byte            `json:"data"`
	Lvl   level             `json:"lvl"`
	M     map[string]string `json:"m"`
	T     time.Time         `json:"t"`
}

func genRecord(rng *randT, depth int) *record {
	rec := &record{ID: rng.Int64() - math.MaxInt64/2, Big: rng.Uint64(), Name: genString(rng), Tags: []string{genString(rng), genString(rng)}, Raw: json.RawMessage(`{"x":[1,2,{"y":"z"}]}`), Data: content(rng.IntN(50), rng.Uint64(), false), Lvl: level(rng.IntN(100)), M: map[string]string{genString(rng): genString(rng)}, T: time.Unix(rng.Int64N(1<<32), rng.Int64N(1e9)).UTC()}
	if len(rec.Data) == 0 {
		rec.Data = []byte{1}
	}
	if depth > 0 {
		rec.Inner = genRecord(rng, depth-1)
	}
	return rec
}

// genProto is a message, sometimes with fields that its type does not know.
func genProto(rng *randT) proto.Message {
	m := knownProto(rng)
	if rng.IntN(4) == 0 {
		var u []byte
		for i := rng.IntN(3); i >= 0; i-- {
			u = protowire.AppendTag(u, protowire.Number(1000+rng.IntN(5000)), protowire.BytesType)
			u = protowire.AppendBytes(u, content(rng.IntN(20), rng.Uint64(), false))
		}
		m.ProtoReflect().SetUnknown(u)
	}
	return m
}

func knownProto(rng *randT) proto.Message {
	str := func() string { return strings.ToValidUTF8(genString(rng), "?") }
	switch rng.IntN(9) {
	case 0:
		return &emptypb.Empty{}
	case 1:
		return wrapperspb.String(str())
	case 2:
		return wrapperspb.Bytes(content(rng.IntN(3000), rng.Uint64(), false))
	case 3:
		return timestamppb.New(time.Unix(rng.Int64N(1<<33), rng.Int64N(1e9)))
	case 4:
		return durationpb.New(time.Duration(rng.Int64()))
	case 5:
		v := genJSON(rng, 3)
		s, err := structpb.NewValue(v)
		if err != nil {
			return wrapperspb.Double(rng.NormFloat64())
		}
		return s
	case 6:
		a, err := anypb.New(wrapperspb.String(str()))
		if err != nil {
			panic(err)
		}
		return a
	case 7:
		return &descriptorpb.UninterpretedOption{Name: []*descriptorpb.UninterpretedOption_NamePart{{NamePart: proto.String(str()), IsExtension: proto.Bool(true)}}, StringValue: content(rng.IntN(40), rng.Uint64(), false), DoubleValue: proto.Float64(rng.NormFloat64())}
	default:
		return &descriptorpb.FileDescriptorProto{Name: proto.String(str()), Package: proto.String(str()), Dependency: []string{str(), str()}, MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("M"), Field: []*descriptorpb.FieldDescriptorProto{{Name: proto.String("f"), Number: proto.Int32(rng.Int32())}}}}}
	}
}

type payload struct {
	form  string
	b     body.Body
	check func(raw []byte) string
	first []byte
	what  string
}

func decodeOne(raw []byte, into any, num bool) error {
	d := json.NewDecoder(bytes.NewReader(raw))
	if num {
		d.UseNumber()
	}
	if err := d.Decode(into); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("more than one JSON value")
	}
	return nil
}

func checkPretty(raw []byte, composite bool) string {
	if !bytes.HasSuffix(raw, []byte("\r\n")) {
		return fmt.Sprintf("indented JSON does not end with CR LF: %q", tailOf(raw))
	}
	crlf := bytes.Count(raw, []byte("\r\n"))
	if bytes.Count(raw, []byte("\r")) != crlf || bytes.Count(raw, []byte("\n")) != crlf {
		return fmt.Sprintf("indented JSON has a bare CR or LF: %q", tailOf(raw))
	}
	if composite && crlf < 3 {
		return fmt.Sprintf("indented JSON of a non-empty object or array is not broken into lines: %q", tailOf(raw))
	}
	return ""
}

func tailOf(b []byte) []byte {
	if len(b) > 120 {
		return b[len(b)-120:]
	}
	return b
}

func makePayload(rng *randT, depth int) (p *payload, msg string) {
	p = &payload{form: pick(rng, "json", "json", "pretty", "pretty", "proto", "prototext")}
	switch p.form {
	case "json", "pretty":
		pretty := p.form == "pretty"
		mk := body.FromJSON
		if pretty {
			mk = body.FromPrettyJSON
		}
		if rng.IntN(4) == 0 {
			rec := genRecord(rng, rng.IntN(4))
			want, _ := json.Marshal(rec)
			var in any = rec
			if rng.IntN(3) == 0 {
				// the same variable has been encoded with another value before
				full := *rec
				*rec = *genRecord(rng, 0)
				guard(func() { mk(rec).Close() })
				*rec = full
			} else if rng.IntN(3) == 0 {
				in = *rec
			}
			msg, _ = guard(func() { p.b = mk(in) })
			if rng.IntN(2) == 0 {
				// what happens to the variable later makes no difference
				rec.Name, rec.ID, rec.Inner = "altered", 1, nil
				rec.Data[0]++
				rec.Tags[0] += "!"
			}
			p.check = func(raw []byte) string {
				var got record
				if err := decodeOne(raw, &got, false); err != nil {
					return fmt.Sprintf("does not decode: %v", err)
				}
				again, _ := json.Marshal(&got)
				if !bytes.Equal(again, want) {
					return fmt.Sprintf("decodes to a different record: %.200s instead of %.200s", again, want)
				}
				if pretty {
					return checkPretty(raw, true)
				}
				return ""
			}
			return
		}
		if rng.IntN(4) == 0 {
			var v any
			var alter func()
			v, alter = peculiar(rng)
			var want any
			std, err := json.Marshal(v)
			if err == nil {
				err = decodeOne(std, &want, true)
			}
			if err != nil {
				panic(fmt.Sprintf("%T: %v", v, err))
			}
			msg, _ = guard(func() { p.b = mk(v) })
			if again, err := json.Marshal(v); msg == "" && (err != nil || !bytes.Equal(again, std)) {
				msg = fmt.Sprintf("encoding a %T changed it", v)
			}
			if alter != nil && rng.IntN(2) == 0 {
				alter()
			}
			p.check = func(raw []byte) string {
				var got any
				if err := decodeOne(raw, &got, true); err != nil {
					return fmt.Sprintf("of a %T does not decode: %v", v, err)
				}
				if !reflect.DeepEqual(got, want) {
					return fmt.Sprintf("of a %T decodes to a different value: %.200v instead of %.200v", v, got, want)
				}
				if pretty {
					return checkPretty(raw, false)
				}
				return ""
			}
			return
		}
		v := genJSON(rng, depth)
		in := deepJSON(v)
		m, isMap := in.(map[string]any)
		l, isList := in.([]any)
		if isMap && rng.IntN(3) == 0 {
			clear(m)
			guard(func() { mk(m).Close() })
			for k, x := range deepJSON(v).(map[string]any) {
				m[k] = x
			}
		}
		if isList && len(l) > 0 && rng.IntN(3) == 0 {
			x := l[0]
			l[0] = "something else"
			guard(func() { mk(l).Close() })
			l[0] = x
		}
		msg, _ = guard(func() { p.b = mk(in) })
		if rng.IntN(2) == 0 {
			if isMap {
				clear(m)
			}
			if isList {
				clear(l)
			}
		}
		p.check = func(raw []byte) string {
			var got any
			if err := decodeOne(raw, &got, false); err != nil {
				return fmt.Sprintf("does not decode: %v", err)
			}
			if !reflect.DeepEqual(got, v) {
				return fmt.Sprintf("decodes to a different value: %.200v instead of %.200v", got, v)
			}
			if pretty {
				c := false
				switch x := v.(type) {
				case []any:
					c = len(x) > 0
				case map[string]any:
					c = len(x) > 0
				}
				return checkPretty(raw, c)
			}
			return ""
		}
	case "proto":
		m := genProto(rng)
		want := proto.Clone(m)
		if rng.IntN(3) == 0 {
			proto.Reset(m)
			guard(func() { body.FromProto(m).Close() })
			proto.Merge(m, want)
		}
		msg, _ = guard(func() { p.b = body.FromProto(m) })
		if msg == "" && !proto.Equal(m, want) {
			msg = fmt.Sprintf("encoding a %T changed it", m)
		}
		if rng.IntN(2) == 0 {
			proto.Reset(m)
		}
		p.check = func(raw []byte) string {
			got := m.ProtoReflect().New().Interface()
			if err := proto.Unmarshal(raw, got); err != nil {
				return fmt.Sprintf("does not decode: %v", err)
			}
			if !proto.Equal(got, want) {
				return fmt.Sprintf("decodes to a different %T", m)
			}
			return ""
		}
	case "prototext":
		m := genProto(rng)
		o := textOptions(rng)
		if o != nil && o.EmitUnknown {
			m.ProtoReflect().SetUnknown(nil)
		}
		var o0 prototext.MarshalOptions
		if o != nil {
			o0 = *o
		}
		want := proto.Clone(m)
		if rng.IntN(3) == 0 {
			proto.Reset(m)
			guard(func() { body.FromProtoText(m, o).Close() })
			proto.Merge(m, want)
		}
		msg, _ = guard(func() { p.b = body.FromProtoText(m, o) })
		if msg == "" && !proto.Equal(m, want) {
			msg = fmt.Sprintf("encoding a %T changed it", m)
		}
		want.ProtoReflect().SetUnknown(nil) // left out of the text, or not readable from it
		if rng.IntN(2) == 0 {
			proto.Reset(m)
		}
		if o != nil && *o != o0 && msg == "" {
			msg = fmt.Sprintf("the options given were changed from %v to %v", o0, *o)
		}
		p.check = func(raw []byte) string {
			got := m.ProtoReflect().New().Interface()
			if o != nil {
				if s := textLayout(raw, o0); s != "" {
					return s
				}
			}
			if err := prototext.Unmarshal(raw, got); err != nil {
				return fmt.Sprintf("does not decode: %v", err)
			}
			if !proto.Equal(got, want) {
				return fmt.Sprintf("decodes to a different %T", m)
			}
			return ""
		}
	}
	return
}

// problem is an error with a form of its own as JSON.
type problem struct {
	Code  int    `json:"code"`
	Title string `json:"title"`
	Cause error  `json:"-"`
}

func (p problem) Error() string { return "problem: " + p.Title }
func (p problem) Unwrap() error { return p.Cause }

// celsius is a number that would rather be printed as something else.
type celsius float64

func (c celsius) String() string   { return fmt.Sprintf("%.1f degrees", float64(c)) }
func (c celsius) GoString() string { return "celsius" }

// point has both a JSON and a text form, of which JSON uses the first.
type point struct{ x, y int }

func (p point) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d,\n%d]", p.x, p.y)), nil }
func (p point) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (p point) Value() (any, error)          { return "value", nil }
func (p point) Format(f fmt.State, _ rune)   { io.WriteString(f, "formatted") }

// onPointer has a JSON form only behind a pointer.
type onPointer struct{ N int }

func (o *onPointer) MarshalJSON() ([]byte, error) { return []byte(`"pointer"`), nil }

type embedded struct {
	problem
	*onPointer `json:"inner"`
	A          int8           `json:",string"`
	B          float32        `json:"b<>"`
	C          map[int]string `json:",omitempty"`
	D          any            `json:"-,"`
	e          int
	F          [3]uint16
	G          **string
}

// peculiar is a value of a type that has several forms, only one of which is
// its form as JSON, and a way to alter what it refers to.
func peculiar(rng *randT) (any, func()) {
	str := genString(rng)
	n := rng.Int64() - rng.Int64()
	switch rng.IntN(24) {
	case 0, 1:
		raw := json.RawMessage(pick(rng, `{"a": [1, 2,  {"b":null}], "a b":"x<y&z"}`, " [ ]\n", "\t\"\u2028\"", "null", "1e400", `{"a":1,"a":2}`, "[1,\r\n2]", fmt.Sprintf(`[%d]`, n)))
		alter := func() {
			for i := range raw {
				raw[i] = '9'
			}
		}
		if rng.IntN(2) == 0 {
			return &raw, alter
		}
		return raw, alter
	case 2:
		return json.Number(pick(rng, "1", "-0", "1.50", "1e5", "123456789012345678901234567890", "0.1000")), nil
	case 3:
		return problem{int(n), str, io.EOF}, nil
	case 4:
		e := &problem{int(n), str, nil}
		return e, func() { e.Title += "!" }
	case 5:
		return errors.New(str), nil
	case 6:
		return celsius(rng.IntN(1000)) / 8, nil
	case 7:
		return []any{point{1, 2}, &point{3, 4}, celsius(1.5), problem{1, str, nil}}, nil
	case 8:
		return point{int(n), 2}, nil
	case 9:
		return onPointer{5}, nil
	case 10:
		return &onPointer{5}, nil
	case 11:
		s := &str
		e := &embedded{problem: problem{1, str, nil}, onPointer: &onPointer{1}, A: int8(n), B: float32(n) / 3, C: map[int]string{int(n): str, -1: ""}, D: str, e: 1, F: [3]uint16{1, 65535}, G: &s}
		return e, func() { e.C[-1], e.F[0], *s = "x", 9, "y" }
	case 12:
		return *big.NewInt(n), nil
	case 13:
		i := new(big.Int).Lsh(big.NewInt(n), 100)
		return i, func() { i.SetInt64(1) }
	case 14:
		return time.Duration(n), nil
	case 15:
		return pick(rng, url.URL{Scheme: "http", Host: "h<>", Path: "/p"}, url.URL{User: url.UserPassword("a", "b")}), nil
	case 16:
		ip := net.IPv4(1, 2, 3, byte(n))
		return ip, func() { ip[len(ip)-1]++ }
	case 17:
		b := bytes.NewBufferString(str)
		return b, func() { b.WriteString("more") }
	case 18:
		return strings.NewReader(str), nil
	case 19:
		b := content(1+rng.IntN(5000), rng.Uint64(), false)
		return b, func() { b[0]++ }
	case 20:
		m := genProto(rng)
		if _, err := json.Marshal(m); err != nil {
			return wrapperspb.String(str), nil
		}
		return m, nil
	case 21:
		h := http.Header{"A": {str, "b"}, "c": nil}
		return h, func() { h["A"][0] += "x" }
	case 22:
		var e *problem
		var m map[string]int
		var s []int
		var r io.Reader
		return pick[any](rng, e, m, s, r, &e, &r, struct{}{}, [0]int{}, []any{nil, e}, map[string]any{"": m}), nil
	default:
		return pick[any](rng, int64(n), uint64(n), math.MinInt64, uint64(math.MaxUint64), float32(0.1), true, str+"\xff\xfe", int8(-128), &str, []string{str}, map[int64]bool{n: true}, map[level]string{level(n): str}, 'x', 1i == 0, complexity(n)), nil
	}
}

type complexity int64

// textOptions are options for the text form; nil asks for the defaults.
func textOptions(rng *randT) *prototext.MarshalOptions {
	if rng.IntN(4) == 0 {
		return nil
	}
	o := &prototext.MarshalOptions{EmitASCII: rng.IntN(2) == 0, AllowPartial: rng.IntN(4) == 0, EmitUnknown: rng.IntN(8) == 0}
	if rng.IntN(2) == 0 {
		o.Multiline = true
		o.Indent = pick(rng, "", " ", "\t", "    ")
	}
	return o
}

// textLayout compares the layout with the options; the encoder is free to add
// spaces.
func textLayout(raw []byte, o prototext.MarshalOptions) string {
	if !o.Multiline && bytes.ContainsAny(bytes.TrimSpace(raw), "\r\n") {
		return fmt.Sprintf("the text has several lines though one was asked for: %.200q", raw)
	}
	if o.EmitASCII {
		for _, c := range raw {
			if c >= 0x80 {
				return fmt.Sprintf("the text is not ASCII as asked for: %.200q", raw)
			}
		}
	}
	if o.Multiline && o.Indent != "" {
		for _, l := range strings.Split(string(raw), "\n") {
			for l != "" && strings.TrimLeft(l, " \t") != l {
				if !strings.HasPrefix(l, o.Indent) {
					return fmt.Sprintf("the text is not indented by %q as asked for: %.200q", o.Indent, raw)
				}
				l = l[len(o.Indent):]
			}
		}
	}
	return ""
}

// content reads a copy of the payload's body.
func (p *payload) content(rng *randT) ([]byte, string) {
	c, err := p.b.Copy()
	if err != nil {
		return nil, fmt.Sprintf("Copy: %v", err)
	}
	defer c.Close()
	rem := c.BytesRemaining()
	var raw []byte
	if rng.IntN(2) == 0 {
		raw, err = io.ReadAll(c)
	} else {
		var bb bytes.Buffer
		_, err = io.Copy(&bb, c)
		raw = bb.Bytes()
	}
	if err != nil {
		return nil, fmt.Sprintf("reading the body: %v", err)
	}
	if rem != int64(len(raw)) {
		return nil, fmt.Sprintf("body of %d bytes said %d remained", len(raw), rem)
	}
	return raw, ""
}

func (p *payload) first1(rng *randT) string {
	if p.b == nil {
		return "no body"
	}
	for _, want := range []bool{func() bool { _, ok := p.b.(io.ReaderAt); return ok }(), func() bool { _, ok := p.b.(io.Seeker); return ok }(), func() bool { _, ok := p.b.(io.WriterTo); return ok }()} {
		if !want {
			return "the body lacks io.ReaderAt, io.Seeker or io.WriterTo"
		}
	}
	raw, s := p.content(rng)
	if s != "" {
		return s
	}
	p.first = raw
	return p.check(raw)
}

func (p *payload) again(rng *randT) string {
	raw, s := p.content(rng)
	if s != "" {
		return s
	}
	if !bytes.Equal(raw, p.first) {
		return "content changed after creation: " + diff(raw, p.first)
	}
	return ""
}

type badMarshaler struct{ mode int }

func (b badMarshaler) MarshalJSON() ([]byte, error) {
	switch b.mode {
	case 0:
		return nil, errors.New("refuses")
	case 1:
		return []byte(`{"a":`), nil
	}
	return []byte{}, nil
}

type textFail struct{}

func (textFail) MarshalText() ([]byte, error) { return []byte("x"), errors.New("refuses") }

type cycle struct {
	Next *cycle
	V    string
}

func unencodable(rng *randT) (string, func() body.Body) {
	wrapAny := func(v any) any {
		switch rng.IntN(4) {
		case 0:
			return map[string]any{"ok": genString(rng), "zz": v}
		case 1:
			return []any{1.5, genString(rng), v}
		case 2:
			return struct {
				A string
				V any
			}{genString(rng), v}
		}
		return v
	}
	js := func(name string, v any) (string, func() body.Body) {
		v = wrapAny(v)
		if rng.IntN(2) == 0 {
			return "FromJSON of " + name, func() body.Body { return body.FromJSON(v) }
		}
		return "FromPrettyJSON of " + name, func() body.Body { return body.FromPrettyJSON(v) }
	}
	pb := func(name string, m proto.Message, textFails bool) (string, func() body.Body) {
		if textFails && rng.IntN(2) == 0 {
			return "FromProtoText of " + name, func() body.Body {
				o := textOptions(rng)
				if o != nil {
					o.AllowPartial = false
				}
				return body.FromProtoText(m, o)
			}
		}
		return "FromProto of " + name, func() body.Body { return body.FromProto(m) }
	}
	switch rng.IntN(14) {
	case 0:
		return js("a channel", make(chan int))
	case 1:
		return js("a function", func() {})
	case 2:
		return js("NaN", math.NaN())
	case 3:
		return js("+Inf", math.Inf(1))
	case 4:
		c := &cycle{V: genString(rng)}
		c.Next = c
		return js("a cycle", c)
	case 5:
		return js("a refusing marshaler", badMarshaler{0})
	case 6:
		return js("a marshaler with broken output", badMarshaler{1})
	case 7:
		return js("a marshaler with empty output", badMarshaler{2})
	case 8:
		return js("a refusing text marshaler", textFail{})
	case 9:
		return js("a broken raw message", json.RawMessage(`{"a" 1}`))
	case 10:
		return js("a map with an unsupported key", map[struct{ A int }]string{{1}: "x"})
	case 11:
		return pb("invalid UTF-8", wrapperspb.String("ok\xff\xfe"), true)
	case 12:
		return pb("a message without its required fields", &descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String("x")}, true)
	default:
		l, _ := structpb.NewList([]any{"a", "b"})
		l.Values = append(l.Values, structpb.NewStringValue("bad\xc3\x28"))
		return pb("nested invalid UTF-8", l, true)
	}
}

func init() {
	checks["B12"] = func(r *Run) {
		rn := func(q, t, div int) int {
			if raceEnabled {
				return r.N(q, t) / div
			}
			return r.N(q, t)
		}
		r.Rule("A case encodes generated values (nested JSON, records with custom marshalers, values of some fifty other types that have several forms, eight protobuf message types with known and unknown fields) in one of the four forms, reads them through a copy, decodes and compares, and re-reads them after many other bodies have been made, read and closed, also from several goroutines. Distinct by payload bytes; non-trivial when the payload has more than 4 bytes.")
		r.Assume("Generated values are ones whose standard encoding is lossless; the standard decoders are the reference for decoding.")
		r.Cases("sequence", rn(400, 4000, 20), func(rng *randT, idx int) {
			var live []*payload
			for k := 0; k < 60; k++ {
				step()
				p, msg := makePayload(rng, 4)
				if msg != "" {
					r.Bad("sequence", idx, "%s: %s", p.form, msg)
					return
				}
				if s := p.first1(rng); s != "" {
					r.Bad("sequence", idx, "%s payload %.200q: %s", p.form, p.first, s)
					return
				}
				r.Eval(hash64(p.form, p.first), len(p.first) > 4)
				r.Count("payloads_"+p.form, 1)
				r.Max("payload_bytes", int64(len(p.first)))
				if len(p.first) < 300 {
					r.Sample(map[string]any{"form": p.form, "payload": string(p.first)})
				}
				live = append(live, p)
				if rng.IntN(5) == 0 {
					what, f := unencodable(rng)
					var b body.Body
					m, _ := guard(func() { b = f() })
					if m == "" {
						raw := []byte(nil)
						if b != nil {
							raw, _ = io.ReadAll(b)
						}
						r.Bad("sequence", idx, "%s did not panic but gave %.200q", what, raw)
						return
					}
					r.Count("unencodable_refused", 1)
				}
				if len(live) > 12 {
					i := rng.IntN(len(live))
					if s := live[i].again(rng); s != "" {
						r.Bad("sequence", idx, "%s payload %.200q: %s", live[i].form, live[i].first, s)
						return
					}
					live[i].b.Close()
					live = append(live[:i], live[i+1:]...)
				}
			}
			for _, p := range live {
				if s := p.again(rng); s != "" {
					r.Bad("sequence", idx, "%s payload %.200q: %s", p.form, p.first, s)
					return
				}
				r.Count("rechecked_later", 1)
			}
		})
		r.Cases("concurrent", rn(60, 500, 3), func(rng *randT, idx int) {
			gs := 2 + rng.IntN(7)
			seeds := make([]uint64, gs)
			for i := range seeds {
				seeds[i] = rng.Uint64()
			}
			probs := make([]string, gs)
			all := make([][]*payload, gs)
			panics := par(gs, func(g int) {
				lr := newRand(seeds[g])
				for k := 0; k < 40; k++ {
					p, msg := makePayload(lr, 3)
					if msg != "" {
						probs[g] = msg
						return
					}
					if s := p.first1(lr); s != "" {
						probs[g] = fmt.Sprintf("%s payload %.200q: %s", p.form, p.first, s)
						return
					}
					all[g] = append(all[g], p)
					q := all[g][lr.IntN(len(all[g]))]
					if s := q.again(lr); s != "" {
						probs[g] = fmt.Sprintf("%s payload %.200q: %s", q.form, q.first, s)
						return
					}
					if lr.IntN(6) == 0 {
						what, f := unencodable(lr)
						if m, _ := guard(func() { f() }); m == "" {
							probs[g] = what + " did not panic"
							return
						}
					}
				}
			})
			probs = append(probs, panics...)
			for _, s := range probs {
				if s != "" {
					r.Bad("concurrent", idx, "%d goroutines: %s", gs, s)
					return
				}
			}
			n := 0
			for g := range all {
				for _, p := range all[g] {
					if s := p.again(rng); s != "" {
						r.Bad("concurrent", idx, "%s payload %.200q: %s", p.form, p.first, s)
						return
					}
					n++
				}
			}
			r.Count("concurrent_payloads", int64(n))
			r.Eval(hash64("concurrent", idx, seeds), true)
		})
		// the same payload bodies read by several goroutines at once while others are made
		r.Cases("shared", rn(40, 300, 3), func(rng *randT, idx int) {
			var ps []*payload
			for i := 0; i < 6; i++ {
				p, msg := makePayload(rng, 3)
				if msg != "" {
					r.Bad("shared", idx, "%s", msg)
					return
				}
				if s := p.first1(rng); s != "" {
					r.Bad("shared", idx, "%s", s)
					return
				}
				ps = append(ps, p)
			}
			var mu sync.Mutex
			var prob string
			panics := par(4, func(g int) {
				lr := newRand(uint64(idx*10 + g))
				for k := 0; k < 30; k++ {
					s := ""
					if lr.IntN(2) == 0 {
						s = ps[lr.IntN(len(ps))].again(lr)
					} else {
						makePayload(lr, 2)
					}
					if s != "" {
						mu.Lock()
						prob = s
						mu.Unlock()
						return
					}
				}
			})
			if len(panics) > 0 {
				prob = panics[0]
			}
			if prob != "" {
				r.Bad("shared", idx, "%s", prob)
			}
			r.Eval(hash64("shared", idx), true)
		})
	}

	checks["B13"] = func(r *Run) {
		r.Rule("Every combination of reader capabilities, declared length (none, negative, exact, shorter, zero), content length and discovery failure (Stat, first or second Seek), plus real readers; the constructor's result, its interfaces, the calls that reached the reader and the first bytes are checked. Distinct by configuration.")
		r.Assume(bodyAssume)
		adopt := func(kind string, idx int, sp srcSpec) {
			s := newSrc(sp)
			rd := s.reader()
			var b body.Body
			var err error
			msg, _ := guard(func() {
				if sp.UseLen {
					b, err = body.FromReaderAndLength(rd, sp.Declared)
				} else {
					b, err = body.FromReader(rd)
				}
			})
			s.inCtor = false
			bad := func(f string, a ...any) {
				r.Violate([]string{"B13"}, kind, idx, fmt.Sprintf("%+v: ", sp)+fmt.Sprintf(f, a...), sp)
			}
			declared := sp.UseLen && sp.Declared >= 0
			r.Eval(hash64(fmt.Sprintf("%+v", sp)), true)
			r.Count("adoptions", 1)
			if msg != "" {
				bad("%s", msg)
				return
			}
			var cause error
			if !declared {
				switch {
				case sp.Stat && sp.StatErr:
					cause = errInjStat
				case sp.Stat:
				case sp.Seek && sp.SeekErr > 0:
					cause = errInjConst
				}
			}
			if s.ctorReads > 0 || s.ats > 0 {
				bad("adopting read from the reader")
				return
			}
			if s.closes > 0 {
				bad("adopting closed the reader")
				return
			}
			if cause != nil {
				r.Count("discovery_failures", 1)
				// a library that tolerates the failure by other means is not judged here
				if err == nil {
					bad("length discovery failed with %v but no error was returned", cause)
					return
				}
				if b != nil {
					bad("an error was returned together with a body")
					return
				}
				if !errors.Is(err, cause) {
					bad("the error %q does not wrap the cause %q", err, cause)
				}
				return
			}
			if err != nil || b == nil {
				bad("no body: %v", err)
				return
			}
			at, seek, file := sp.At, sp.Seek, sp.Stat
			i := ifaces(b)
			promised := at && (seek || file) || seek || at && declared
			if promised && !(strings.Contains(i, "A") && strings.Contains(i, "S")) {
				bad("the body offers only %q, ReadAt and Seek were promised", i)
				return
			}
			n := int64(sp.Len)
			if declared {
				n = min(n, sp.Declared)
			}
			rem := b.BytesRemaining()
			if declared || seek || file {
				if rem != n && !(declared && rem == sp.Declared) {
					bad("the body says %d bytes remain, want %d", rem, n)
					return
				}
			} else if rem != -1 && rem != n {
				bad("the body says %d bytes remain", rem)
				return
			}
			if b.Unwrap() != io.Reader(rd) {
				r.Violate([]string{"B05"}, kind, idx, "Unwrap is not the reader", sp)
			}
			if same, err := body.FromReader(b); err != nil || same != b {
				bad("a body passed in is not returned unchanged (%v)", err)
				return
			}
			if s.closes > 0 {
				bad("passing the body through closed its reader")
			}
			e := &env{c: &bcase{Ctor: "reader", Spec: sp}, s: s, stats: map[string]int64{}}
			_ = e
			got, err := io.ReadAll(b)
			if err != nil || !bytes.Equal(got, s.data[:n]) {
				r.Violate([]string{"B13", "B01"}, kind, idx, fmt.Sprintf("%+v: the body delivers %d bytes (%v), want %d", sp, len(got), err, n), sp)
				return
			}
			b.Close()
		}
		idx := 0
		r.Cases("grid", 1, func(rng *randT, _ int) {
			for m := 0; m < 16; m++ {
				for _, n := range []int{0, 1, 5, 700, 65536, 70000} {
					for _, decl := range []int64{-100, -1, -7, 0, int64(n / 2), int64(n), math.MinInt64} {
						for fail := 0; fail < 4; fail++ {
							sp := srcSpec{Len: n, Stat: m&8 != 0, Seek: m&4 != 0, At: m&2 != 0, Close: m&1 != 0, FailAt: -1, Declared: -1, Seed: uint64(m + n + 1), Frag: pick(rng, 0, 2, 100)}
							if sp.Stat && !sp.Close {
								continue
							}
							if decl != -100 {
								sp.UseLen, sp.Declared = true, decl
							}
							switch fail {
							case 1:
								if !sp.Stat {
									continue
								}
								sp.StatErr = true
							case 2, 3:
								if !sp.Seek {
									continue
								}
								sp.SeekErr = fail - 1
							}
							for v := 0; v < 4; v++ {
								sp.More, sp.Start = v&1 != 0, v/2*(n/3+1)
								sp.StatOff = 0
								if sp.Stat && sp.UseLen && sp.Declared >= 0 {
									// a file may have grown or shrunk, or have no size of its own
									sp.StatOff = pick(rng, 0, 0, -1, -n, -n/2, 1, 1000)
								}
								adopt("grid", idx, sp)
								idx++
							}
						}
					}
				}
			}
		})
		r.bodyCases("readers", r.N(20000, 200000), &profile{mem: .1, std: .6, declared: .4, maxOps: 6, w: w(6, 3, 2, 2, 2, 1, 2, 1, 1), finalize: true})
		// in-memory bodies always offer the three interfaces, and so do their copies
		r.Cases("memory", r.N(300, 3000), func(rng *randT, idx int) {
			n := genLen(rng, .05)
			d := content(n, rng.Uint64()|1, false)
			for name, b := range map[string]body.Body{"FromBytes": body.FromBytes(d), "FromString": body.FromString(string(d)), "Empty": body.Empty(), "AlreadyClosed": body.AlreadyClosed(),
				"FromJSON": body.FromJSON(n), "FromPrettyJSON": body.FromPrettyJSON(n), "FromProto": body.FromProto(wrapperspb.Int64(int64(n))), "FromProtoText": body.FromProtoText(wrapperspb.Int64(int64(n)), nil)} {
				for k := 0; k < 2; k++ {
					if i := ifaces(b); i != "ASW" {
						r.Bad("memory", idx, "%s (copy level %d) of %d bytes offers %q", name, k, n, i)
						return
					}
					if b2, err := body.FromReader(b); err != nil || b2 != b {
						r.Bad("memory", idx, "%s: a body passed in is not returned unchanged", name)
						return
					}
					c, err := b.Copy()
					if err != nil {
						r.Violate([]string{"B02"}, "memory", idx, fmt.Sprintf("%s: Copy: %v", name, err), nil)
						return
					}
					b = c
				}
			}
			r.Eval(hash64("memory", n), true)
		})
	}
}
