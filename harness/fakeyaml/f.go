// Package fakeyaml stands in for gopkg.in/yaml.v2; the harness says what is encoded and decoded.
package fakeyaml

import "io"

var (
	// EncodeHook gives the bytes for a value.
	EncodeHook func(v any) ([]byte, error)
	// DecodeHook sets a value from bytes.
	DecodeHook func(data []byte, v any) error
)

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }
func (e *Encoder) Close() error       { return nil }
func (e *Encoder) Encode(v any) error {
	b, err := EncodeHook(v)
	if err != nil {
		return err
	}
	_, err = e.w.Write(b)
	return err
}

type Decoder struct{ r io.Reader }

func NewDecoder(r io.Reader) *Decoder { return &Decoder{r} }
func (d *Decoder) SetStrict(bool)     {}
func (d *Decoder) Decode(v any) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	return DecodeHook(b, v)
}

func Marshal(v any) ([]byte, error)            { return EncodeHook(v) }
func Unmarshal(data []byte, v any) error       { return DecodeHook(data, v) }
func UnmarshalStrict(data []byte, v any) error { return DecodeHook(data, v) }
