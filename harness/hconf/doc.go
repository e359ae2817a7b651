// Package hconf checks how configuration files are read and written. Symbolically
// the documents are decoded by functions that are generated from the tags of the
// configuration's structures; natively the real encoding/json and yaml decode them.
package hconf

import (
	"encoding/json"
	"errors"
	"io"
	"strings"

	"github.com/HannesKimara/cddlc/zzverif/sym"
	yaml "gopkg.in/yaml.v2"
)

const (
	null = iota
	object
	array
	text
	number
	boolean
)

// doc is a document.
type doc struct {
	kind int
	keys []string
	vals []*doc
	str  string // of texts, numbers and truth values
}

// The generated functions.
var (
	decodeInto func(f byte, d *doc, v any, e *error) bool
	encodeFrom func(f byte, v any) *doc
)

var (
	errSyntax   = errors.New("syntax error")
	errMismatch = errors.New("mismatch")
)

func mismatch(e *error) {
	if *e == nil {
		*e = errMismatch
	}
}

func unsupported()         { sym.Skip() }
func unsupportedDoc() *doc { sym.Skip(); return nil }

func lower(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		out += string(rune(c))
	}
	return out
}

// field finds the field a key of a document is for.
func field(f byte, k string, j, y []string) int {
	if f == 'y' {
		for i, n := range y {
			if n != "" && n == k {
				return i
			}
		}
		return -1
	}
	for i, n := range j {
		if n != "" && n == k {
			return i
		}
	}
	for i, n := range j {
		if n != "" && lower(n) == lower(k) {
			return i
		}
	}
	return -1
}

func decString(f byte, d *doc, x *string, e *error) {
	switch {
	case d.kind == null:
		if f == 'y' {
			*x = ""
		}
	case d.kind == text || f == 'y' && (d.kind == number || d.kind == boolean):
		*x = d.str
	default:
		mismatch(e)
	}
}

func decBool(d *doc, x *bool, e *error) {
	switch d.kind {
	case null:
	case boolean:
		*x = d.str == "true"
	default:
		mismatch(e)
	}
}

func decInt(d *doc, e *error) (n int64, ok bool) {
	if d.kind == null {
		return 0, false
	}
	if d.kind != number {
		mismatch(e)
		return 0, false
	}
	for i := 0; i < len(d.str); i++ {
		if d.str[i] < '0' || d.str[i] > '9' {
			unsupported()
		}
		n = n*10 + int64(d.str[i]-'0')
	}
	return n, true
}

func decAny(f byte, d *doc) any {
	switch d.kind {
	case text:
		return d.str
	case boolean:
		return d.str == "true"
	case null:
		return nil
	}
	unsupported()
	return nil
}

func encString(s string) *doc { return &doc{kind: text, str: s} }

func encBool(b bool) *doc {
	if b {
		return &doc{kind: boolean, str: "true"}
	}
	return &doc{kind: boolean, str: "false"}
}

func encInt(n int64) *doc {
	s := ""
	for n > 9 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return &doc{kind: number, str: string(rune('0'+n)) + s}
}

func encAny(v any) *doc {
	switch v := v.(type) {
	case nil:
		return &doc{}
	case string:
		return encString(v)
	case bool:
		return encBool(v)
	}
	return unsupportedDoc()
}

// put adds the value of a field.
func (d *doc) put(f byte, j, y string, jomit, yomit bool, v *doc) {
	k, omit := j, jomit
	if f == 'y' {
		k, omit = y, yomit
	}
	if k == "" {
		return
	}
	if omit {
		switch v.kind {
		case null:
			return
		case object, array:
			if len(v.vals) == 0 {
				return
			}
		case text:
			if v.str == "" {
				return
			}
		default:
			if v.str == "0" || v.str == "false" {
				return
			}
		}
	}
	d.keys, d.vals = append(d.keys, k), append(d.vals, v)
}

// json renders a document; it is also a flow-style YAML document.
func (d *doc) json(b []byte) []byte {
	quote := func(s string) { b = append(append(append(b, '"'), s...), '"') }
	switch d.kind {
	case object:
		b = append(b, '{')
		for i, k := range d.keys {
			if i > 0 {
				b = append(b, ", "...)
			}
			quote(k)
			b = append(b, ": "...)
			b = d.vals[i].json(b)
		}
		return append(b, '}')
	case array:
		b = append(b, '[')
		for i, x := range d.vals {
			if i > 0 {
				b = append(b, ", "...)
			}
			b = x.json(b)
		}
		return append(b, ']')
	case text:
		quote(d.str)
		return b
	case null:
		return append(b, "null"...)
	}
	return append(b, d.str...)
}

// yaml renders a document in block style.
func (d *doc) yaml(b []byte, in string) []byte {
	switch {
	case d.kind == object && len(d.keys) > 0:
		for i, k := range d.keys {
			if i > 0 {
				b = append(b, in...)
			}
			b = append(append(b, k...), ':')
			b = d.vals[i].below(b, in+"  ")
		}
		return b
	case d.kind == array && len(d.vals) > 0:
		for i, x := range d.vals {
			if i > 0 {
				b = append(b, in...)
			}
			b = append(b, "- "...)
			b = x.yaml(b, in+"  ")
		}
		return b
	}
	return append(d.json(b), '\n')
}

func (d *doc) below(b []byte, in string) []byte {
	if len(d.vals) > 0 {
		b = append(append(b, '\n'), in...)
	} else {
		b = append(b, ' ')
	}
	return d.yaml(b, in)
}

// reader reads documents.
type reader struct {
	b []byte
	i int
}

func (r *reader) c() byte {
	if r.i < len(r.b) {
		return r.b[r.i]
	}
	return 0
}

func (r *reader) space() {
	for r.i < len(r.b) {
		if c := r.b[r.i]; !sym.Or(sym.Or(c == ' ', c == '\t'), sym.Or(c == '\n', c == '\r')) {
			return
		}
		r.i++
	}
}

func (r *reader) quoted() (string, bool) {
	if r.c() != '"' {
		return "", false
	}
	r.i++
	from := r.i
	for r.i < len(r.b) {
		switch c := r.b[r.i]; {
		case c == '"':
			r.i++
			return string(r.b[from : r.i-1]), true
		case c == '\\':
			unsupported()
		case c < ' ':
			return "", false
		}
		r.i++
	}
	return "", false
}

func (r *reader) word() *doc {
	for _, w := range []string{"null", "true", "false"} {
		if strings.HasPrefix(string(r.b[r.i:]), w) {
			r.i += len(w)
			if w == "null" {
				return &doc{}
			}
			return &doc{kind: boolean, str: w}
		}
	}
	from := r.i
	for r.c() >= '0' && r.c() <= '9' {
		r.i++
	}
	if r.i == from {
		return nil
	}
	return &doc{kind: number, str: string(r.b[from:r.i])}
}

// flow reads a JSON value, nil if there is none.
func (r *reader) flow() *doc {
	r.space()
	d := &doc{}
	end := byte('}')
	switch r.c() {
	case '{':
		d.kind = object
	case '[':
		d.kind = array
		end = ']'
	case '"':
		s, ok := r.quoted()
		if !ok {
			return nil
		}
		return &doc{kind: text, str: s}
	default:
		return r.word()
	}
	r.i++
	r.space()
	if r.c() == end {
		r.i++
		return d
	}
	for {
		r.space()
		if d.kind == object {
			k, ok := r.quoted()
			r.space()
			if !ok || r.c() != ':' {
				return nil
			}
			r.i++
			d.keys = append(d.keys, k)
		}
		v := r.flow()
		if v == nil {
			return nil
		}
		d.vals = append(d.vals, v)
		r.space()
		switch r.c() {
		case end:
			r.i++
			return d
		case ',':
			r.i++
		default:
			return nil
		}
	}
}

// block reads a block of YAML that is indented by in; nil if there is none.
func (r *reader) block(in int) *doc {
	d := &doc{}
	for {
		// at the start of an item
		if r.c() == '-' {
			if d.kind == object {
				return nil
			}
			d.kind = array
			r.i += 2
			v := r.block(in + 2)
			if v == nil {
				return nil
			}
			d.vals = append(d.vals, v)
		} else {
			from := r.i
			for c := r.c(); c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'; c = r.c() {
				r.i++
			}
			if r.i == from || r.c() != ':' { // not a key
				if d.kind != null {
					return nil
				}
				r.i = from
				v := r.flow()
				if v == nil || r.c() != '\n' {
					return nil
				}
				r.i++
				return v
			}
			if d.kind == array {
				return nil
			}
			d.kind = object
			d.keys = append(d.keys, string(r.b[from:r.i]))
			r.i++
			var v *doc
			switch r.c() {
			case '\n':
				r.i++
				for j := 0; j < in+2; j++ {
					if r.c() != ' ' {
						return nil
					}
					r.i++
				}
				v = r.block(in + 2)
			case ' ':
				r.i++
				v = r.flow()
				if r.c() != '\n' {
					return nil
				}
				r.i++
			}
			if v == nil {
				return nil
			}
			d.vals = append(d.vals, v)
		}
		// the next item, if it is indented alike
		n := 0
		for r.i+n < len(r.b) && r.b[r.i+n] == ' ' {
			n++
		}
		if r.i+n == len(r.b) || n < in {
			return d
		}
		if n > in {
			return nil
		}
		r.i += n
	}
}

func encode(f byte, v any) ([]byte, error) {
	if !sym.Symbolic() {
		if f == 'y' {
			return yaml.Marshal(v)
		}
		return json.Marshal(v)
	}
	d := encodeFrom(f, v)
	if d == nil {
		unsupported()
	}
	return d.json(nil), nil
}

func decode(f byte, data []byte, v any) error {
	if !sym.Symbolic() {
		if f == 'y' {
			if len(data) == 0 {
				return io.EOF // as its Decoder does
			}
			return yaml.Unmarshal(data, v)
		}
		return json.Unmarshal(data, v)
	}
	r := &reader{b: data}
	var d *doc
	if f == 'y' && r.c() != '{' {
		if len(data) == 0 {
			return io.EOF
		}
		d = r.block(0)
	} else {
		d = r.flow()
	}
	r.space()
	if d == nil || r.i < len(r.b) {
		return errSyntax
	}
	var err error
	if !decodeInto(f, d, v, &err) {
		unsupported()
	}
	return err
}
