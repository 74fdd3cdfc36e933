package val

import (
	"strconv"

	"github.com/shopspring/decimal"
)

// Tagged writes a model value for the drivers of other languages: {L: text} is a 64 bit number, {N: text} a decimal,
// {T: ms} a date, {E: n} an item, {R: {}} a map, {D: {}} data with its set fields.
func (w *World) Tagged(t T, v any) any {
	if v == nil {
		return nil
	}
	switch t.Kind {
	case 1:
		out := []any{}
		for _, x := range v.([]any) {
			out = append(out, w.Tagged(t.Elem(), x))
		}
		return out
	case 2:
		out := map[string]any{}
		for k, x := range v.(map[string]any) {
			out[k] = w.Tagged(t.Elem(), x)
		}
		return map[string]any{"R": out}
	}
	switch t.Ref {
	case "enum":
		return map[string]any{"E": v}
	case "data":
		out := map[string]any{}
		for _, f := range w.Data[t.Name].Fields {
			if x, ok := v.(Obj)[f.Name]; ok {
				out[f.Name] = w.Tagged(f.Type, x)
			}
		}
		return map[string]any{"D": out}
	}
	switch x := v.(type) {
	case Ms:
		return map[string]any{"T": int64(x)}
	case Dec:
		d, _ := decimal.NewFromString(string(x))
		return map[string]any{"N": d.String()}
	case int64:
		if t.Name == "int64" {
			return map[string]any{"L": strconv.FormatInt(x, 10)}
		}
	case uint64:
		if t.Name == "uint64" {
			return map[string]any{"L": strconv.FormatUint(x, 10)}
		}
	}
	return v
}
