package core

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/360EntSecGroup-Skylar/excelize"
	"github.com/klauspost/compress/gzip"
	"github.com/klauspost/compress/zstd"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verif/sim/simrt"
)

// ---------------------------------------------------------------- values

// StrProfile selects what characters a generated string may hold.
type StrProfile int

// String profiles.
const (
	StrAny   StrProfile = iota // any valid UTF-8 without NUL
	StrNoCR                    // no carriage return
	StrXLSX                    // what XML can hold
	StrPlain                   // alphanumeric
)

var strUnits = map[StrProfile][]string{
	StrAny: {"a", "Qz", "9", " ", "\"", "\\", "\n", ",", "é", "世", "😀", "\t", "/", "<&>", "\u2028", "\r", "\x01", "\\u0041", "]", "}", ":", "'", "\x7f", "�",
		"\b", "\f", "[", "{", "--", "null", "\ufeff"},
	StrNoCR: {"a", "Qz", "9", " ", "\"", ",", "\n", ";", "é", "世", "😀", "\t", "|", "\\", "\"\"", "'", "#", "\x0b", "\n\n", "-1", "\ufeff"},
	StrXLSX: {"a", "Qz", "9", "é", "世", "&", "<b>", "\"", "'", ",", "_", "-", "😀", "=", "\ufeff", " ", "\n", "\t", "\x7f", "_x0041_", "&#10;", "]]>", "\ufffd"},
}

const plainAlphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// GenString draws a string. size scales the chance of long strings.
func GenString(s *Src, p StrProfile, size int) string {
	n := 0
	switch s.Weighted(6, 6, 4, 2*min(size, 1), size/2) {
	case 0:
		n = s.Intn(6)
	case 1:
		n = s.Intn(31)
	case 2:
		n = Pick(s, 23, 24, 25, 22, 31, 32, 33)
	case 3:
		n = Pick(s, 255, 256, 257, 254, 99, 100, 101, 127, 128, 511, 512, 513)
	case 4:
		n = Pick(s, 4096, 4095, 4097, 4094, 5000, 8192, 8191, 3000)
		if s.Chance(1, 40) {
			// past 16-bit lengths and the largest buffers
			n = Pick(s, 65535, 65536, 65537, 100000, 262143, 262144, 262145, 300000)
			if p == StrXLSX {
				n = 32767 // the most a cell can hold
			}
		}
	}
	var b strings.Builder
	if n <= 40 {
		us := strUnits[p]
		for b.Len() < n {
			if us != nil && s.Chance(1, 3) {
				b.WriteString(us[s.Intn(len(us))])
			} else {
				b.WriteByte(plainAlphabet[s.Intn(len(plainAlphabet))])
			}
		}
	} else {
		// long strings repeat a drawn unit with a running counter, so that a
		// lost or duplicated stretch always shows
		if s.Chance(1, 4) {
			// hard to compress
			x := uint64(s.Intn(1<<30))*2 + 1
			out := make([]byte, n)
			for i := range out {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				out[i] = plainAlphabet[x>>33%uint64(len(plainAlphabet))]
			}
			return string(out)
		}
		unit := GenUnit(s, p)
		for i := 0; b.Len() < n; i++ {
			b.WriteString(unit)
			b.WriteString(strconv.Itoa(i))
		}
		out := b.String()
		// cut to the exact length on a rune boundary, padding with 'x'
		for len(out) > n {
			cut := n
			for cut > 0 && !utf8Start(out[cut]) {
				cut--
			}
			out = out[:cut] + strings.Repeat("x", n-cut)
		}
		return out
	}
	return b.String()
}

// GenUnit draws a short string unit.
func GenUnit(s *Src, p StrProfile) string {
	us := strUnits[p]
	if us != nil && s.Chance(1, 2) {
		return us[s.Intn(len(us))] + string(plainAlphabet[s.Intn(26)])
	}
	return string(plainAlphabet[s.Intn(26)])
}

func utf8Start(b byte) bool { return b&0xc0 != 0x80 }

var intBounds = []int64{0, 1, -1, 10, 23, 24, -24, -25, -26, 100, 255, 256, -256, -257, 65535, 65536, -65536, -65537, 1<<31 - 1, 1 << 31, -1 << 31,
	1<<32 - 1, 1 << 32, -1<<32 - 1, 1 << 53, -1 << 53, 1<<53 - 1, 999999999999, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1<<53 + 1}

func (s *Src) bits64() (v uint64) {
	for i := 0; i < 4; i++ {
		v = v<<16 | uint64(s.Intn(1<<16))
	}
	return v
}

// GenInt draws an integer; safe keeps it within +-2^53.
func GenInt(s *Src, safe bool) int64 {
	if s.Chance(1, 2) {
		v := intBounds[s.Intn(len(intBounds))]
		if safe && (v > 1<<53 || v < -1<<53) {
			return v % 1000003
		}
		return v
	}
	if s.Chance(1, 6) {
		// any magnitude
		v := int64(s.bits64()) >> uint(s.Intn(48))
		if safe {
			v %= 1 << 53
		}
		return v
	}
	v := int64(s.Intn(1000))
	if s.Chance(1, 3) {
		v = v*1000003 + int64(s.Intn(1<<20))
	}
	if s.Chance(1, 3) {
		v = -v
	}
	return v
}

var floatBounds = []float64{0, 0.5, -1.25, 3, 1e21, 1e-7, 1.5e300, -2.5e-300, 123456789.125, 0.1, 1e20, 12345678901234567000, -1e19, 1e15, 2.5, 5e-324, math.MaxFloat64, 1 << 53, -3}

// GenFloat draws a finite float.
func GenFloat(s *Src) float64 {
	if s.Chance(1, 2) {
		return floatBounds[s.Intn(len(floatBounds))]
	}
	if s.Chance(1, 8) {
		// any bits
		if v := math.Float64frombits(s.bits64()); !math.IsNaN(v) && !math.IsInf(v, 0) {
			return v
		}
	}
	v := float64(s.Intn(2000001)-1000000) / float64(Pick(s, 1000, 1, 8, 7))
	if v == 0 {
		v = 0 // no negative zero
	}
	return v
}

// ValOpts tunes GenValue.
type ValOpts struct {
	SafeInt bool
	Bytes   bool // CBOR byte strings
	Size    int  // 0 small .. 3 large strings allowed
	Depth   int
	NoNull  bool
}

// GenValue draws any value a JSON-like body may hold.
func GenValue(s *Src, o ValOpts) interface{} {
	ws := []int{3, 5, 2, 5, 1, 0, 0, 0}
	if o.Depth > 0 {
		ws[5], ws[6] = 3, 3
	}
	if o.Bytes {
		ws[7] = 2
	}
	switch s.Weighted(ws...) {
	case 0:
		return GenInt(s, o.SafeInt)
	case 1:
		return GenString(s, StrAny, o.Size)
	case 2:
		return s.Chance(1, 2)
	case 3:
		if o.Bytes && s.Chance(1, 12) {
			return Pick(s, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 5.960464477539063e-08, 6.103515625e-05, 65504, 1.401298464324817e-45)
		}
		return GenFloat(s)
	case 4:
		if o.NoNull {
			return true
		}
		return nil
	case 5:
		n := Pick(s, 0, 1, 2, 3, 4, 5, 23, 24, 25)
		if o.Depth < 2 {
			n %= 6
		}
		o.Depth--
		o.Size = max(0, o.Size-1)
		if n > 6 {
			o.Depth = 0
			o.Size = 0
		}
		arr := make([]interface{}, n)
		for i := range arr {
			arr[i] = GenValue(s, o)
		}
		return arr
	case 6:
		n := Pick(s, 0, 1, 2, 3, 4, 24)
		o.Depth--
		o.Size = max(0, o.Size-1)
		if n > 6 {
			o.Depth = 0
			o.Size = 0
		}
		m := make(map[string]interface{}, n)
		for i := 0; i < n; i++ {
			m[GenKey(s, i)] = GenValue(s, o)
		}
		return m
	case 7:
		return []byte(GenString(s, StrAny, o.Size))
	}
	return nil
}

// GenKey draws a distinct object key.
func GenKey(s *Src, i int) string {
	switch s.Weighted(5, 2, 1) {
	case 0:
		return "k" + strconv.Itoa(i)
	case 1:
		return GenString(s, StrAny, 0) + "~" + strconv.Itoa(i)
	default:
		return strings.Repeat("k", Pick(s, 22, 23, 24, 254, 255, 256)) + "~" + strconv.Itoa(i)
	}
}

// DeepCopy copies a model value.
func DeepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		c := make([]interface{}, len(x))
		for i := range x {
			c[i] = DeepCopy(x[i])
		}
		return c
	case map[string]interface{}:
		c := make(map[string]interface{}, len(x))
		for k, e := range x {
			c[strings.Clone(k)] = DeepCopy(e)
		}
		return c
	case string:
		// not the same bytes: a string may alias a buffer that is reused
		return strings.Clone(x)
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

// DiffValue compares a model value with what the system gave; "" is equal.
// Numbers compare by mathematical value, whatever Go type carries them.
func DiffValue(want, got interface{}) string { return diffAt("", want, got) }

func diffAt(path string, want, got interface{}) string {
	if wn, ok := asNum(want); ok {
		gn, ok := asNum(got)
		if !ok || !wn.eq(gn) {
			return fmt.Sprintf("%s: want %s, got %s", path, Show(want), Show(got))
		}
		return ""
	}
	switch x := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: want null, got %s", path, Show(got))
		}
	case bool:
		if g, ok := got.(bool); !ok || g != x {
			return fmt.Sprintf("%s: want %v, got %s", path, x, Show(got))
		}
	case string:
		g, ok := got.(string)
		if !ok {
			return fmt.Sprintf("%s: want string %s, got %s", path, Show(x), Show(got))
		}
		if g != x {
			return fmt.Sprintf("%s: want string %s, got %s%s", path, Show(x), Show(g), strDiff(x, g))
		}
	case []byte:
		g, ok := got.([]byte)
		if !ok || !bytes.Equal(g, x) {
			return fmt.Sprintf("%s: want bytes %s, got %s", path, Show(want), Show(got))
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s: want array, got %s", path, Show(got))
		}
		if x != nil && g == nil {
			return fmt.Sprintf("%s: want an empty array, got none (it is stored as null)", path)
		}
		if len(g) != len(x) {
			return fmt.Sprintf("%s: want array of %d, got %d", path, len(x), len(g))
		}
		for i := range x {
			if d := diffAt(fmt.Sprintf("%s[%d]", path, i), x[i], g[i]); d != "" {
				return d
			}
		}
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: want object, got %s", path, Show(got))
		}
		if x != nil && g == nil {
			return fmt.Sprintf("%s: want an empty object, got none (it is stored as null)", path)
		}
		for _, k := range SortedKeys(x) {
			e, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: key %s is missing", path, Show(k))
			}
			if d := diffAt(path+"."+clip(k), x[k], e); d != "" {
				return d
			}
		}
		if len(g) != len(x) {
			return fmt.Sprintf("%s: want %d keys, got %d", path, len(x), len(g))
		}
	default:
		return fmt.Sprintf("%s: unexpected model type %T", path, want)
	}
	return ""
}

func strDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf(" (lengths %d/%d, first difference at byte %d)", len(a), len(b), i)
}

// SortedKeys lists keys in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type num struct {
	isInt bool
	i     int64
	f     float64
}

func asNum(v interface{}) (num, bool) {
	switch x := v.(type) {
	case int:
		return num{true, int64(x), float64(x)}, true
	case int64:
		return num{true, x, float64(x)}, true
	case uint64:
		if x <= math.MaxInt64 {
			return num{true, int64(x), float64(x)}, true
		}
		return num{false, 0, float64(x)}, true
	case int32:
		return num{true, int64(x), float64(x)}, true
	case float64:
		return num{false, 0, x}, true
	case float32:
		return num{false, 0, float64(x)}, true
	}
	return num{}, false
}

func (a num) eq(b num) bool {
	if a.isInt && b.isInt {
		return a.i == b.i
	}
	if a.isInt != b.isInt {
		// exact integer value of the float
		f, i := a.f, b.i
		if a.isInt {
			f, i = b.f, a.i
		} else if a.f == math.Trunc(a.f) && math.Abs(a.f) >= 1<<53 {
			// the shortest decimal text of a large float can name another
			// integer, one that rounds to the same float
			return float64(b.i) == a.f
		}
		if f != math.Trunc(f) || f < -9.3e18 || f > 9.3e18 {
			return false
		}
		return f == float64(i) && (f < 9.2e18 && f > -9.2e18 && int64(f) == i || math.Abs(f) >= 9.2e18)
	}
	return a.f == b.f || a.f != a.f && b.f != b.f
}

// Show prints a value, clipped.
func Show(v interface{}) string {
	var s string
	switch x := v.(type) {
	case string:
		s = strconv.Quote(clip(x))
	case []byte:
		s = fmt.Sprintf("bytes(%d)%x", len(x), x[:min(len(x), 16)])
	case int64, float64, int, uint64:
		s = fmt.Sprintf("%T(%v)", v, v)
	default:
		s = fmt.Sprintf("%v", v)
	}
	return clip(s)
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:60] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// ---------------------------------------------------------------- bodies

// Body is a model body: what was written, with the structure describing it.
type Body struct {
	St      *dataset.Structure
	Format  string
	Comp    string
	TLT     string
	Entries []dsio.Entry
	Cols    []string // column types of tabular formats
	// AnyOrder compares entries of an object by key: the format's writer may
	// choose the order.
	AnyOrder bool
	// Ends is where each entry ends in the plain reference encoding.
	Ends []int
}

// BodyOpts restricts GenBody.
type BodyOpts struct {
	Formats []string // default all
	Comps   []string // default none, gzip, zst
	MaxRows int      // default 1200 (rarely)
	MinRows int
	NoBytes bool
	// NoVariadic keeps CSV rows rectangular
	NoVariadic bool
	// Objects: 0 either, 1 arrays only
	ArraysOnly bool
	SafeInt    bool
	// Small keeps values small
	Small bool
	// Tabular makes JSON-like formats hold rows of cells too
	Tabular bool
	// Huge allows, rarely, a body of more entries than 16 bits can count
	Huge bool
}

// AllFormats are the body formats.
var AllFormats = []string{"json", "ndjson", "cbor", "csv", "xlsx"}

// GenBody draws a body.
func GenBody(w *World, o BodyOpts) *Body {
	s := w.C.Src("gen")
	b := &Body{}
	if len(o.Formats) == 0 {
		o.Formats = []string{"json", "csv", "cbor", "ndjson", "json", "csv", "cbor", "xlsx"}
	}
	b.Format = o.Formats[s.Intn(len(o.Formats))]
	if o.Comps == nil {
		o.Comps = []string{"", "", "", "gzip", "zst"}
	}
	if b.Format != "xlsx" {
		b.Comp = o.Comps[s.Intn(len(o.Comps))]
		if b.Comp == "gzip" && s.Chance(1, 4) {
			b.Comp = "gz"
		}
		if b.Comp == "zst" && s.Chance(1, 4) {
			b.Comp = "zstd"
		}
	}
	b.TLT = "array"
	if (b.Format == "json" || b.Format == "cbor") && !o.ArraysOnly && s.Chance(1, 3) {
		b.TLT = "object"
	}
	w.Dim("fmt:%s/%s/%s", b.Format, b.Comp, b.TLT)
	b.St = &dataset.Structure{Format: b.Format, Compression: b.Comp}
	n := 0
	maxRows := o.MaxRows
	if maxRows == 0 {
		maxRows = 1200
	}
	profile := s.Weighted(2, 6, 5, 4, 1)
	size := 1
	switch profile {
	case 0:
		n = s.Intn(2)
	case 1:
		n = 1 + s.Intn(8)
		size = 2
	case 2:
		n = 1 + s.Intn(40)
		size = 2
	case 3:
		n = Pick(s, 2, 5, 12, 22)
		size = 6
	case 4:
		n = 100 + s.Intn(1100)
		size = 0
	}
	if o.Small {
		size = min(size, 1)
	}
	n = max(o.MinRows, min(n, maxRows))
	if o.Huge && b.Format != "xlsx" && s.Chance(1, 2000) {
		profile = 5
		n = Pick(s, 65535, 65536, 65537, 70000, 131073)
	}
	w.Dim("size:%d", profile)
	if profile == 5 {
		b.hugeBody(s, n)
		return b
	}
	vo := ValOpts{Size: size, Depth: 3, SafeInt: o.SafeInt}
	if profile == 4 {
		vo.Depth = 1
	}
	switch b.Format {
	case "json", "cbor", "ndjson":
		b.St.Schema = map[string]interface{}{"type": b.TLT}
		vo.SafeInt = vo.SafeInt || b.Format == "ndjson"
		vo.Bytes = b.Format == "cbor" && !o.NoBytes
		if b.Format == "json" && s.Chance(1, 6) {
			b.St.FormatConfig = map[string]interface{}{"pretty": true}
		}
		if o.Tabular && b.TLT == "array" {
			b.genCols(s, n, vo)
			break
		}
		for i := 0; i < n; i++ {
			e := dsio.Entry{Value: GenValue(s, vo)}
			if b.TLT == "object" {
				e.Key = GenKey(s, i)
			} else {
				e.Index = i
			}
			b.Entries = append(b.Entries, e)
		}
	case "csv":
		cfg := map[string]interface{}{}
		if s.Chance(1, 2) {
			cfg["headerRow"] = true
		}
		if s.Chance(1, 3) {
			cfg["separator"] = Pick(s, ";", "\t", "|", ",", " ")
		}
		if s.Chance(1, 5) {
			cfg["lazyQuotes"] = true
		}
		if !o.NoVariadic && s.Chance(1, 5) {
			cfg["variadicFields"] = true
		}
		if len(cfg) > 0 || s.Chance(1, 2) {
			b.St.FormatConfig = cfg
		}
		b.genCols(s, n, vo)
	case "xlsx":
		if s.Chance(1, 3) {
			b.St.FormatConfig = map[string]interface{}{"sheetName": Pick(s, "Sheet1", "data", "Q 1", "a sheet name of 31 characters .", "données")}
		}
		n = min(n, 30)
		b.genCols(s, n, vo)
	}
	return b
}

// Big draws, rarely, a size of more than a megabyte; it is zero otherwise.
func Big(s *Src, rare int) int {
	if !s.Chance(1, rare) {
		return 0
	}
	simrt.Budget = max(simrt.Budget, 400_000_000)
	return Pick(s, 1<<20-1, 1<<20, 1<<20+1, 1_000_001, 2<<20, 4<<20+1) + s.Intn(2)*s.Intn(1<<19)
}

// Edged puts something a reader might take for more or less than text at an
// end of it, now and then.
func Edged(s *Src, t string) string {
	if !s.Chance(1, 8) {
		return t
	}
	edge := Pick(s, "\ufeff", " ", "\n", "\r\n", "\r", "\x00", "\t", "\xff\xfe", "\xef\xbb", "\u2028", "\u00a0", "#!", "---\n", "```\n", "\x1a", "\n\n\n")
	if s.Chance(1, 2) {
		return edge + t
	}
	return t + edge
}

// Noise is n bytes of text which does not compress.
func Noise(s *Src, n int) []byte {
	b := make([]byte, n)
	x := uint64(s.Intn(1<<30))*2 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789. "[x>>58]
	}
	return b
}

// hugeBody fills the body with small entries.
func (b *Body) hugeBody(s *Src, n int) {
	simrt.Budget = max(simrt.Budget, 400_000_000)
	b.St.Schema = map[string]interface{}{"type": b.TLT}
	if b.Format == "csv" {
		b.Cols = []string{"integer"}
		b.St.Schema["items"] = map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "n", "type": "integer"}}}
	}
	step := 1 + s.Intn(7919)
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i}
		if b.TLT == "object" {
			e.Index, e.Key = 0, "k"+strconv.Itoa(i)
		}
		v := int64(i * step % 100003)
		e.Value = v
		if b.Format == "csv" {
			e.Value = []interface{}{v}
		}
		b.Entries = append(b.Entries, e)
	}
}

var colTypes = []string{"string", "integer", "number", "boolean", "array", "object"}

func (b *Body) genCols(s *Src, n int, vo ValOpts) {
	nc := Pick(s, 2, 1, 3, 4, 5, 8)
	if b.Format == "xlsx" && s.Chance(1, 3) {
		nc = Pick(s, 26, 27, 28, 52, 53, 54)
		n = min(n, 4)
	}
	if b.Format == "xlsx" && s.Chance(1, 40) {
		nc = Pick(s, 702, 703, 704, 729)
		n = min(n, 2)
	}
	items := make([]interface{}, nc)
	for i := 0; i < nc; i++ {
		t := colTypes[s.Intn(len(colTypes))]
		b.Cols = append(b.Cols, t)
		title := fmt.Sprintf("c%d", i)
		if s.Chance(1, 12) {
			title = Pick(s, "", "a;b,c", "two\nlines", "a \"q\"", "é", " lead", "c0", "\t", "1")
		}
		col := map[string]interface{}{"title": title, "type": t}
		if s.Chance(1, 30) {
			delete(col, "title")
		}
		items[i] = col
	}
	b.St.Schema = map[string]interface{}{
		"type":  "array",
		"items": map[string]interface{}{"type": "array", "items": items},
	}
	variadic := b.St.FormatConfig["variadicFields"] == true
	for i := 0; i < n; i++ {
		k := nc
		if variadic && s.Chance(1, 2) {
			k = 1 + s.Intn(nc)
		}
		row := make([]interface{}, k)
		for j := range row {
			row[j] = b.genCell(s, b.Cols[j], k, vo)
		}
		b.Entries = append(b.Entries, dsio.Entry{Index: i, Value: row})
	}
}

func (b *Body) genCell(s *Src, typ string, width int, vo ValOpts) interface{} {
	textual := b.Format == "csv" || b.Format == "xlsx"
	switch typ {
	case "string":
		p := StrNoCR
		if b.Format == "xlsx" {
			return GenString(s, StrXLSX, min(vo.Size, 2))
		} else if b.Format != "csv" {
			p = StrAny
		}
		if width == 1 && s.Chance(1, 6) {
			return "" // a table of one column has rows of one empty cell
		}
		return GenString(s, p, vo.Size)
	case "integer":
		return GenInt(s, vo.SafeInt)
	case "number":
		return GenFloat(s)
	case "boolean":
		return s.Chance(1, 2)
	case "array", "object":
		o := vo
		o.Depth, o.Size, o.Bytes = 1, 0, false
		if textual {
			o.SafeInt = true
		}
		n := s.Intn(3)
		if typ == "array" {
			arr := make([]interface{}, n)
			for i := range arr {
				arr[i] = GenValue(s, o)
			}
			return arr
		}
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[GenKey(s, i)] = GenValue(s, o)
		}
		return m
	}
	return "x"
}

// Expected gives the entries a reader must produce, in the order it must
// produce them.
func (b *Body) Expected() []dsio.Entry {
	return b.Entries
}

// Clone copies a structure deeply.
func CloneStructure(st *dataset.Structure) *dataset.Structure {
	c := *st
	if st.Schema != nil {
		c.Schema = DeepCopy(st.Schema).(map[string]interface{})
	}
	if st.FormatConfig != nil {
		c.FormatConfig = DeepCopy(st.FormatConfig).(map[string]interface{})
	}
	return &c
}

// CompareEntries checks a produced sequence against the model. prefix allows
// got to be a proper prefix.
func CompareEntries(b *Body, want, got []dsio.Entry, prefix bool) string {
	if len(got) > len(want) {
		return fmt.Sprintf("%d entries produced, the body holds %d (first extra: %s)", len(got), len(want), Show(got[len(want)].Value))
	}
	if !prefix && len(got) != len(want) {
		return fmt.Sprintf("%d entries produced, the body holds %d", len(got), len(want))
	}
	if b.AnyOrder {
		byKey := map[string]interface{}{}
		for _, e := range want {
			byKey[e.Key] = e.Value
		}
		for i, e := range got {
			v, ok := byKey[e.Key]
			if !ok {
				return fmt.Sprintf("entry %d: key %s was never written or was produced before", i, Show(e.Key))
			}
			delete(byKey, e.Key)
			if d := DiffValue(v, e.Value); d != "" {
				return fmt.Sprintf("entry %d (key %s)%s", i, Show(e.Key), d)
			}
		}
		return ""
	}
	for i := range got {
		if b.TLT == "object" && got[i].Key != want[i].Key {
			return fmt.Sprintf("entry %d: want key %s, got %s", i, Show(want[i].Key), Show(got[i].Key))
		}
		if d := DiffValue(want[i].Value, got[i].Value); d != "" {
			return fmt.Sprintf("entry %d%s", i, d)
		}
	}
	return ""
}

// ---------------------------------------------------------------- reference encoders

// SelfDelimiting formats announce their own end.
func (b *Body) SelfDelimiting() bool {
	return b.Format == "json" || b.Format == "cbor" || b.Format == "xlsx" || b.Comp != ""
}

// RefEncode encodes the body with encoders independent of the repository.
func RefEncode(w *World, b *Body) []byte {
	return Compress(b.Comp, RefEncodePlain(w, b))
}

// RefEncodePlain is RefEncode without compression.
func RefEncodePlain(w *World, b *Body) []byte {
	s := w.C.Src("enc")
	var buf bytes.Buffer
	b.Ends = nil
	end := func() { b.Ends = append(b.Ends, buf.Len()) }
	defer func() { w.cuts = b.Ends }()
	switch b.Format {
	case "json":
		ws := s.Weighted(3, 1, 1)
		odd := len(b.Entries) < 400 && s.Chance(1, 4)
		sp := func() string {
			switch ws {
			case 1:
				return " "
			case 2:
				return "\n\t "
			}
			return ""
		}
		op, cl := "[", "]"
		if b.TLT == "object" {
			op, cl = "{", "}"
		}
		buf.WriteString(sp() + op + sp())
		for i, e := range b.Entries {
			if i > 0 {
				buf.WriteString(sp() + "," + sp())
			}
			if b.TLT == "object" {
				k, _ := json.Marshal(e.Key)
				if odd {
					k = oddJSON(s, e.Key)
				}
				buf.Write(k)
				buf.WriteString(sp() + ":" + sp())
			}
			var v []byte
			var err error
			if odd {
				v = oddJSON(s, e.Value)
			} else if ws == 2 {
				v, err = json.MarshalIndent(e.Value, "", "  ")
			} else {
				v, err = json.Marshal(e.Value)
			}
			if err != nil {
				panic(err)
			}
			buf.Write(v)
			end()
		}
		buf.WriteString(sp() + cl)
		if ws == 2 {
			buf.WriteString("\n")
		}
	case "ndjson":
		odd := len(b.Entries) < 400 && s.Chance(1, 4)
		nl := Pick(s, "\n", "\n", "\r\n")
		open := s.Chance(1, 4)
		for i, e := range b.Entries {
			v, err := json.Marshal(e.Value)
			if err != nil {
				panic(err)
			}
			if odd {
				v = bytes.ReplaceAll(oddJSON(s, e.Value), []byte("\n"), []byte(" "))
			}
			buf.Write(v)
			if !open || i < len(b.Entries)-1 {
				buf.WriteString(nl)
			}
			end()
		}
	case "cbor":
		es := b.Expected()
		indef := s.Chance(1, 3)
		odd := len(es) < 400 && s.Chance(1, 4)
		base := byte(0x80)
		if b.TLT == "object" {
			base = 0xa0
		}
		if indef {
			buf.WriteByte(base | 0x1f)
		} else {
			cborHead(&buf, base, uint64(len(es)))
		}
		for _, e := range es {
			if b.TLT == "object" {
				buf.Write(CBORString(e.Key))
			}
			if odd {
				oddCBOR(s, &buf, e.Value)
			} else {
				cborValue(&buf, e.Value, indef)
			}
			end()
		}
		if indef {
			buf.WriteByte(0xff)
		}
	case "csv":
		if len(b.Entries) < 400 && s.Chance(1, 4) {
			b.oddCSV(s, &buf, end)
			break
		}
		cw := csv.NewWriter(&buf)
		if sep, ok := b.St.FormatConfig["separator"].(string); ok {
			cw.Comma = rune(sep[0])
		}
		cw.UseCRLF = s.Chance(1, 4) && !b.hasNewlineCells()
		if b.St.FormatConfig["headerRow"] == true {
			h := make([]string, len(b.Cols))
			for i := range h {
				h[i] = fmt.Sprintf("c%d", i)
			}
			cw.Write(h)
		}
		for _, e := range b.Entries {
			row := e.Value.([]interface{})
			rec := make([]string, len(row))
			for i, c := range row {
				rec[i] = cellText(c)
			}
			if len(rec) == 1 && rec[0] == "" {
				// the csv package writes a blank line
				cw.Flush()
				nl := "\n"
				if cw.UseCRLF {
					nl = "\r\n"
				}
				buf.WriteString("\"\"" + nl)
			} else if err := cw.Write(rec); err != nil {
				panic(err)
			}
			cw.Flush()
			end()
		}
		cw.Flush()
	case "xlsx":
		f := excelize.NewFile()
		sheet := "Sheet1"
		if n, ok := b.St.FormatConfig["sheetName"].(string); ok {
			sheet = n
		}
		f.SetActiveSheet(f.NewSheet(sheet))
		for r, e := range b.Entries {
			for c, v := range e.Value.([]interface{}) {
				f.SetCellValue(sheet, colName(c)+strconv.Itoa(r+1), cellText(v))
			}
		}
		if err := f.Write(&buf); err != nil {
			panic(err)
		}
	}
	return buf.Bytes()
}

func (b *Body) hasNewlineCells() bool {
	for _, e := range b.Entries {
		for _, c := range e.Value.([]interface{}) {
			if s, ok := c.(string); ok && strings.ContainsAny(s, "\n\r") {
				return true
			}
		}
	}
	return false
}

func colName(i int) string {
	s := ""
	for i++; i > 0; i = (i - 1) / 26 {
		s = string(rune('A'+(i-1)%26)) + s
	}
	return s
}

func cellText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	case nil:
		return ""
	}
	d, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(d)
}

// CBORString encodes a text string.
func CBORString(s string) []byte {
	var b bytes.Buffer
	cborHead(&b, 0x60, uint64(len(s)))
	b.WriteString(s)
	return b.Bytes()
}

func cborHead(b *bytes.Buffer, base byte, n uint64) {
	switch {
	case n < 24:
		b.WriteByte(base | byte(n))
	case n < 1<<8:
		b.Write([]byte{base | 0x18, byte(n)})
	case n < 1<<16:
		b.WriteByte(base | 0x19)
		binary.Write(b, binary.BigEndian, uint16(n))
	case n < 1<<32:
		b.WriteByte(base | 0x1a)
		binary.Write(b, binary.BigEndian, uint32(n))
	default:
		b.WriteByte(base | 0x1b)
		binary.Write(b, binary.BigEndian, n)
	}
}

func cborValue(b *bytes.Buffer, v interface{}, indef bool) {
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xf6)
	case bool:
		if x {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
	case int64:
		if x >= 0 {
			cborHead(b, 0x00, uint64(x))
		} else {
			cborHead(b, 0x20, uint64(-(x + 1)))
		}
	case float64:
		b.WriteByte(0xfb)
		binary.Write(b, binary.BigEndian, math.Float64bits(x))
	case string:
		if indef && len(x) > 2 {
			b.WriteByte(0x7f)
			h := len(x) / 2
			b.Write(CBORString(x[:h]))
			b.Write(CBORString(x[h:]))
			b.WriteByte(0xff)
			return
		}
		b.Write(CBORString(x))
	case []byte:
		if indef && len(x) > 2 {
			b.WriteByte(0x5f)
			h := len(x) / 2
			cborHead(b, 0x40, uint64(h))
			b.Write(x[:h])
			cborHead(b, 0x40, uint64(len(x)-h))
			b.Write(x[h:])
			b.WriteByte(0xff)
			return
		}
		cborHead(b, 0x40, uint64(len(x)))
		b.Write(x)
	case []interface{}:
		if indef {
			b.WriteByte(0x9f)
		} else {
			cborHead(b, 0x80, uint64(len(x)))
		}
		for _, e := range x {
			cborValue(b, e, indef)
		}
		if indef {
			b.WriteByte(0xff)
		}
	case map[string]interface{}:
		if indef {
			b.WriteByte(0xbf)
		} else {
			cborHead(b, 0xa0, uint64(len(x)))
		}
		for _, k := range SortedKeys(x) {
			b.Write(CBORString(k))
			cborValue(b, x[k], indef)
		}
		if indef {
			b.WriteByte(0xff)
		}
	default:
		panic(fmt.Sprintf("cbor model: %T", v))
	}
}

// Compress compresses independently of the repository's wrappers.
func Compress(comp string, data []byte) []byte {
	switch comp {
	case "":
		return data
	case "gzip", "gz":
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(data)
		z.Close()
		return b.Bytes()
	default:
		return zenc().EncodeAll(data, nil)
	}
}

// CompressParts compresses data as several members one after the other, as
// appending to a compressed file or a parallel compressor does.
func CompressParts(s *Src, comp string, data []byte, parts int) (out []byte) {
	for ; parts > 1; parts-- {
		n := s.Intn(len(data) + 1)
		out = append(out, Compress(comp, data[:n])...)
		data = data[n:]
	}
	return append(out, Compress(comp, data)...)
}

var zencoder *zstd.Encoder

func zenc() *zstd.Encoder {
	if zencoder == nil {
		var err error
		zencoder, err = zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1))
		if err != nil {
			panic(err)
		}
	}
	return zencoder
}

var zdecoder *zstd.Decoder

// Decompress is the inverse of Compress.
func Decompress(comp string, data []byte) ([]byte, error) {
	switch comp {
	case "":
		return data, nil
	case "gzip", "gz":
		z, err := gzip.NewReader(bytes.NewReader(data))
		if err != nil {
			return nil, err
		}
		var b bytes.Buffer
		if _, err := b.ReadFrom(z); err != nil {
			return nil, err
		}
		return b.Bytes(), nil
	default:
		return zdecoder.DecodeAll(data, nil)
	}
}

// InitCodecs creates the shared reference codecs outside any simulated run,
// because they own channels.
func InitCodecs() {
	zenc()
	// touch the encoder once so that its lazily made state exists
	d := zenc().EncodeAll([]byte("warm"), nil)
	var err error
	zdecoder, err = zstd.NewReader(nil, zstd.WithDecoderConcurrency(1))
	if err != nil {
		panic(err)
	}
	if _, err := zdecoder.DecodeAll(d, nil); err != nil {
		panic(err)
	}
}
