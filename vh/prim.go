// Package vh holds the properties as executable assertions over the generated code. The engine runs it
// symbolically; compiled natively it replays one recorded execution.
package vh

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Replay state (native only).
var (
	ReplayTrace []uint64
	replayPos   int
	Found       []string
	Assumed     bool
	FoundNote   string
)

type assumeFailed struct{}

func Start(tr []uint64) {
	ReplayTrace, replayPos, Found, Assumed, FoundNote = tr, 0, nil, true, ""
}

func next() uint64 {
	if replayPos < len(ReplayTrace) {
		replayPos++
		return ReplayTrace[replayPos-1]
	}
	return 0
}

// Nd is an arbitrary w-bit number.
func Nd(w int) uint64 { return next() }

func NdBool() bool { return next() == 1 }

func NdF64() float64 { return math.Float64frombits(next()) }

func NdF32() float32 { return math.Float32frombits(uint32(next())) }

func Finite(f float64) bool   { return f-f == 0 }
func Finite32(f float32) bool { return f-f == 0 }

// NdStr is an arbitrary string of n seven-bit characters.
func NdStr(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// Choice is one of 0..n-1; every one is explored.
func Choice(n int) int {
	c := int(next())
	if c >= n {
		c = 0
	}
	return c
}

func Assume(b bool) {
	if !b {
		Assumed = false
		panic(assumeFailed{})
	}
}

// Check asserts ok for the named properties.
func Check(ok bool, props, class string) {
	if !ok {
		Found = append(Found, props+"|"+class)
	}
}

func Covered() {}

// Doc is the text of a document.
func Doc(n *Node) []byte {
	b := Render(nil, n)
	if FoundNote == "" {
		FoundNote = string(b)
	}
	return b
}

func TimeText(sec int64, ns uint64, layout string) string {
	return time.Unix(sec, int64(ns)).UTC().Format(layout)
}
func MkTime(sec int64, ns uint64) time.Time { return time.Unix(sec, int64(ns)).UTC() }
func TimeOf(t time.Time) (int64, uint64)    { return t.Unix(), uint64(t.Nanosecond()) }

func UUIDText(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}
func B64Text(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func Peek(b []byte, i int) int          { return 0 }
func PeekInt(b []byte, i int) uint64    { return 0 }
func PeekFloat(b []byte, i int) float64 { return 0 }
func PeekBits(b []byte, i int) int      { return 0 }
func PeekFmt(b []byte, i int) string    { return "" }
func PeekStr(b []byte, i int) string    { return "" }

func SameText(a, b string) bool { return a == b }
func HasAtom(a string) bool     { return false }

func Contains(s, t string) bool { return strings.Contains(s, t) }

func Guard(f func()) (r string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFailed); ok {
				panic(x)
			}
			if e, ok := x.(error); ok {
				r = "panic: " + e.Error()
			} else {
				r = fmt.Sprintf("panic: %v", x)
			}
		}
	}()
	f()
	return ""
}

// MapOrder sets the order in which maps are walked: 0 as filled, 1 reversed, 2 rotated.
func MapOrder(mode int) {}

func Native() bool           { return true }
func IsConst(s string) bool  { return true }
func Unsupported(why string) {}

// Same reports whether mutable memory is reachable from both values.
func Same(a, b any) bool {
	x, y := map[uintptr]bool{}, map[uintptr]bool{}
	walk(reflect.ValueOf(a), x)
	walk(reflect.ValueOf(b), y)
	for p := range x {
		if y[p] {
			return true
		}
	}
	return false
}

func walk(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		if v.Type().Elem().Size() > 0 {
			seen[v.Pointer()] = true
		}
		if v.Type().Elem().String() == "time.Location" {
			delete(seen, v.Pointer())
			return
		}
		walk(v.Elem(), seen)
	case reflect.Interface:
		walk(v.Elem(), seen)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		seen[v.Pointer()] = true
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		seen[v.Pointer()] = true
		it := v.MapRange()
		for it.Next() {
			walk(it.Value(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), seen)
		}
	}
}

// Snap renders a value with the spare capacity of its slices (native side of the frame check).
func Snap(x any) string {
	if !Native() {
		return ""
	}
	var sb strings.Builder
	snap(reflect.ValueOf(x), &sb, 0)
	return sb.String()
}

func snap(v reflect.Value, sb *strings.Builder, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Pointer && v.Type().Elem().String() == "time.Location" {
			return
		}
		sb.WriteByte('&')
		snap(v.Elem(), sb, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		n := v.Len()
		full := v
		if v.CanInterface() || true {
			func() {
				defer func() { recover() }()
				full = v.Slice3(0, v.Cap(), v.Cap())
			}()
		}
		sb.WriteString("[" + strconv.Itoa(n) + ":")
		for i := 0; i < full.Len(); i++ {
			snap(full.Index(i), sb, depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			snap(v.Index(i), sb, depth+1)
			sb.WriteByte(' ')
		}
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		var ks []string
		it := v.MapRange()
		for it.Next() {
			var s strings.Builder
			snap(it.Key(), &s, depth+1)
			s.WriteByte('=')
			snap(it.Value(), &s, depth+1)
			ks = append(ks, s.String())
		}
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if ks[j] < ks[i] {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		sb.WriteString("map" + strings.Join(ks, ","))
	case reflect.Struct:
		if p := v.Type().PkgPath(); p == "sync" || p == "sync/atomic" {
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			snap(v.Field(i), sb, depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	}
}

// Render writes a node as JSON text.
func Render(b []byte, n *Node) []byte {
	switch n.K {
	case NNull:
		return append(b, "null"...)
	case NBool:
		return strconv.AppendBool(b, n.B)
	case NNum:
		switch n.Num.Kind {
		case 0:
			if n.Num.Neg {
				b = append(b, '-')
			}
			return strconv.AppendUint(b, n.Num.Mag, 10)
		case 1:
			return strconv.AppendFloat(b, n.Num.F, 'e', -1, 64)
		}
		return append(b, n.Num.Lit...)
	case NStr:
		return renderStr(b, n.S)
	case NArr:
		b = append(b, '[')
		for i, e := range n.Es {
			if i > 0 {
				b = append(b, ',')
			}
			b = Render(b, e)
		}
		return append(b, ']')
	}
	b = append(b, '{')
	for i, e := range n.Es {
		if i > 0 {
			b = append(b, ',')
		}
		b = renderStr(b, n.Ks[i])
		b = append(b, ':')
		b = Render(b, e)
	}
	return append(b, '}')
}

func renderStr(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c < 0x20 || c == 0x7f:
			b = append(b, fmt.Sprintf("\\u%04x", c)...)
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}
