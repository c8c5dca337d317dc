package fw

import "strconv"

// Text is a string of arbitrary bytes that survives JSON.
type Text string

func (t Text) MarshalText() ([]byte, error) {
	q := strconv.QuoteToGraphic(string(t))
	if strconv.CanBackquote(string(t)) {
		q = "`" + string(t) + "`"
	}
	return []byte(q), nil
}

func (t *Text) UnmarshalText(b []byte) error {
	s, err := strconv.Unquote(string(b))
	if err != nil {
		return err
	}
	*t = Text(s)
	return nil
}
