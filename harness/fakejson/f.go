// Package fakejson stands in for encoding/json; the harness says what is encoded and decoded.
package fakejson

import "io"

var (
	// EncodeHook gives the bytes for a value.
	EncodeHook func(v any) ([]byte, error)
	// DecodeHook sets a value from bytes.
	DecodeHook func(data []byte, v any) error
)

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder          { return &Encoder{w} }
func (e *Encoder) SetIndent(prefix, in string) {}
func (e *Encoder) SetEscapeHTML(on bool)       {}
func (e *Encoder) Encode(v any) error {
	b, err := EncodeHook(v)
	if err != nil {
		return err
	}
	_, err = e.w.Write(append(b, '\n'))
	return err
}

type Decoder struct{ r io.Reader }

func NewDecoder(r io.Reader) *Decoder     { return &Decoder{r} }
func (d *Decoder) DisallowUnknownFields() {}
func (d *Decoder) UseNumber()             {}
func (d *Decoder) Decode(v any) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	return DecodeHook(b, v)
}

func Marshal(v any) ([]byte, error)                              { return EncodeHook(v) }
func MarshalIndent(v any, prefix, indent string) ([]byte, error) { return EncodeHook(v) }
func Unmarshal(data []byte, v any) error                         { return DecodeHook(data, v) }
