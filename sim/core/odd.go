package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// The encodings in this file are as valid as those in model.go, and are what
// other programs write: escapes, number formats, lengths and quotes that the
// repository's own writers never use.

func oddJSON(s *Src, v interface{}) []byte {
	var b bytes.Buffer
	writeOddJSON(s, &b, v)
	return b.Bytes()
}

func writeOddJSON(s *Src, b *bytes.Buffer, v interface{}) {
	sp := func() {
		b.WriteString(Pick(s, "", "", "", " ", "\n", "\t", "\r\n", "  "))
	}
	switch x := v.(type) {
	case string:
		writeOddString(s, b, x)
	case float64:
		f := Pick(s, byte('g'), 'e', 'E', 'G')
		t := strconv.FormatFloat(x, f, -1, 64)
		if !strings.ContainsAny(t, ".eE") {
			t += ".0" // stays a float
		}
		b.WriteString(t)
	case []interface{}:
		b.WriteByte('[')
		sp()
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			writeOddJSON(s, b, e)
			sp()
		}
		b.WriteByte(']')
	case map[string]interface{}:
		b.WriteByte('{')
		sp()
		ks := SortedKeys(x)
		for i, j := range s.Perm(len(ks)) {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			writeOddString(s, b, ks[j])
			sp()
			b.WriteByte(':')
			sp()
			writeOddJSON(s, b, x[ks[j]])
			sp()
		}
		b.WriteByte('}')
	default:
		t, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		b.Write(t)
	}
}

func writeOddString(s *Src, b *bytes.Buffer, x string) {
	if len(x) > 3000 || !utf8.ValidString(x) {
		t, _ := json.Marshal(x)
		b.Write(t)
		return
	}
	every := Pick(s, 1, 2, 5, 1000)
	hex := Pick(s, "\\u%04x", "\\u%04X")
	b.WriteByte('"')
	for _, r := range x {
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		escape := s.Chance(1, every)
		switch {
		case short >= 0 && escape && s.Chance(2, 3):
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[short])
		case r < 0x20 || r == '"' || r == '\\' || escape:
			if r >= 0x10000 {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(b, hex+hex, hi, lo)
			} else {
				fmt.Fprintf(b, hex, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// oddHead writes a length or integer in more bytes than it needs.
func oddHead(s *Src, b *bytes.Buffer, base byte, n uint64) {
	switch k := s.Intn(6); {
	case k == 0 && n < 1<<8:
		b.Write([]byte{base | 0x18, byte(n)})
	case k == 1 && n < 1<<16:
		b.Write(binary.BigEndian.AppendUint16([]byte{base | 0x19}, uint16(n)))
	case k == 2 && n < 1<<32:
		b.Write(binary.BigEndian.AppendUint32([]byte{base | 0x1a}, uint32(n)))
	case k == 3:
		b.Write(binary.BigEndian.AppendUint64([]byte{base | 0x1b}, n))
	default:
		cborHead(b, base, n)
	}
}

func oddCBOR(s *Src, b *bytes.Buffer, v interface{}) {
	if s.Chance(1, 12) {
		// a tag, which says how to understand the value
		oddHead(s, b, 0xc0, uint64(Pick(s, 0, 1, 5, 24, 32, 55799, 1<<20)))
	}
	chunks := func(base byte, x []byte) {
		if !s.Chance(1, 3) {
			oddHead(s, b, base, uint64(len(x)))
			b.Write(x)
			return
		}
		b.WriteByte(base | 0x1f)
		for n := s.Intn(4); n > 0; n-- {
			k := s.Intn(len(x) + 1)
			oddHead(s, b, base, uint64(k))
			b.Write(x[:k])
			x = x[k:]
		}
		if len(x) > 0 {
			oddHead(s, b, base, uint64(len(x)))
			b.Write(x)
		}
		b.WriteByte(0xff)
	}
	switch x := v.(type) {
	case nil:
		b.WriteByte(Pick[byte](s, 0xf6, 0xf6, 0xf7))
	case int64:
		if x >= 0 {
			oddHead(s, b, 0x00, uint64(x))
		} else {
			oddHead(s, b, 0x20, uint64(-(x + 1)))
		}
	case float64:
		if h, ok := halfBits(x); ok && s.Chance(3, 4) {
			b.Write(binary.BigEndian.AppendUint16([]byte{0xf9}, h))
		} else if f := float32(x); (float64(f) == x || x != x) && s.Chance(3, 4) {
			b.Write(binary.BigEndian.AppendUint32([]byte{0xfa}, math.Float32bits(f)))
		} else {
			cborValue(b, x, false)
		}
	case string:
		chunks(0x60, []byte(x))
	case []byte:
		chunks(0x40, x)
	case []interface{}:
		indef := s.Chance(1, 2)
		if indef {
			b.WriteByte(0x9f)
		} else {
			oddHead(s, b, 0x80, uint64(len(x)))
		}
		for _, e := range x {
			oddCBOR(s, b, e)
		}
		if indef {
			b.WriteByte(0xff)
		}
	case map[string]interface{}:
		indef := s.Chance(1, 2)
		if indef {
			b.WriteByte(0xbf)
		} else {
			oddHead(s, b, 0xa0, uint64(len(x)))
		}
		ks := SortedKeys(x)
		for _, j := range s.Perm(len(ks)) {
			oddHead(s, b, 0x60, uint64(len(ks[j])))
			b.WriteString(ks[j])
			oddCBOR(s, b, x[ks[j]])
		}
		if indef {
			b.WriteByte(0xff)
		}
	default:
		cborValue(b, v, false)
	}
}

// halfBits gives the half-precision bits of a float that has them exactly.
func halfBits(x float64) (uint16, bool) {
	bits := math.Float64bits(x)
	sign := uint16(bits>>63) << 15
	switch {
	case x != x:
		return 0x7e00, true
	case math.IsInf(x, 0):
		return sign | 0x7c00, true
	case x == 0:
		return sign, true
	}
	a := math.Abs(x)
	frac, exp := math.Frexp(a) // a = frac * 2^exp, frac in [0.5, 1)
	if exp < -13 {
		m := math.Ldexp(a, 24)
		if m != math.Trunc(m) || m >= 1024 {
			return 0, false
		}
		return sign | uint16(m), true
	}
	m := math.Ldexp(frac, 11)
	if exp > 16 || m != math.Trunc(m) {
		return 0, false
	}
	return sign | uint16(exp+14)<<10 | uint16(m-1024), true
}

// oddCSV writes a table with quotes nothing asks for and any line ends.
func (b *Body) oddCSV(s *Src, buf *bytes.Buffer, end func()) {
	comma := ","
	if sep, ok := b.St.FormatConfig["separator"].(string); ok {
		comma = sep[:1]
	}
	quote := Pick(s, 1, 2, 8)
	nl := Pick(s, "\n", "\r\n")
	open := s.Chance(1, 3)
	row := func(cells []string, last bool) {
		for i, c := range cells {
			if i > 0 {
				buf.WriteString(comma)
			}
			if c == "" && len(cells) == 1 || strings.ContainsAny(c, comma+"\"\r\n") || c == `\.` || strings.TrimSpace(c) != c || s.Chance(1, quote) {
				c = `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
			}
			buf.WriteString(c)
		}
		if !last || !open {
			buf.WriteString(nl)
		}
	}
	if b.St.FormatConfig["headerRow"] == true {
		h := make([]string, len(b.Cols))
		for i := range h {
			h[i] = fmt.Sprintf("c%d", i)
		}
		row(h, len(b.Entries) == 0)
	}
	for i, e := range b.Entries {
		var cells []string
		for _, c := range e.Value.([]interface{}) {
			cells = append(cells, cellText(c))
		}
		row(cells, i == len(b.Entries)-1)
		end()
	}
}
