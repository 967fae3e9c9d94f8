// Conversion between the tagged values of the specification and Go values.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/andygello555/json-dom/jom/json_map"
)

type callback = func(json json_map.JsonMapInt)

// The encoding of the specification (see JVal.tla).
func enc(v interface{}, ids map[string]string) []interface{} {
	num := func(f float64) []interface{} {
		if f == math.Trunc(f) && math.Abs(f) < 2e9 && !(f == 0 && math.Signbit(f)) {
			return []interface{}{"n", int64(f)}
		}
		return []interface{}{"d", strconv.FormatFloat(f, 'g', -1, 64)}
	}
	switch x := v.(type) {
	case nil:
		return []interface{}{"z", ""}
	case bool:
		return []interface{}{"b", x}
	case string:
		return []interface{}{"s", x}
	case float64:
		return num(x)
	case int:
		return num(float64(x))
	case int64:
		return num(float64(x))
	case []interface{}:
		if x == nil { // its text is null
			return []interface{}{"z", ""}
		}
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = enc(e, ids)
		}
		return []interface{}{"a", out}
	case map[string]interface{}:
		if len(x) == 0 { // the empty function of TLA+ is the empty sequence
			return []interface{}{"m", []interface{}{}}
		}
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = enc(e, ids)
		}
		return []interface{}{"m", out}
	case callback:
		return []interface{}{"f", ids[ptr(x)]}
	default:
		return []interface{}{"x", fmt.Sprintf("%T %v", v, v)}
	}
}

// Decoding. Callbacks are looked up in the table of the group.
func (g *group) dec(v interface{}) interface{} {
	p := v.([]interface{})
	switch p[0].(string) {
	case "z":
		return nil
	case "b", "s":
		return p[1]
	case "n":
		n, _ := p[1].(json.Number).Int64()
		if g.ints {
			return int(n)
		}
		return float64(n)
	case "d":
		f, _ := strconv.ParseFloat(p[1].(string), 64)
		return f
	case "a":
		out := make([]interface{}, 0)
		for _, e := range p[1].([]interface{}) {
			out = append(out, g.dec(e))
		}
		return out
	case "m":
		out := map[string]interface{}{}
		if m, ok := p[1].(map[string]interface{}); ok {
			for k, e := range m {
				out[k] = g.dec(e)
			}
		}
		return out
	case "f":
		return g.callback(p[1].(string))
	}
	panic(fmt.Sprint("cannot decode ", v))
}

// --- keys of absolute paths

func encPath(path []json_map.AbsolutePathKey) []interface{} {
	out := make([]interface{}, 0)
	bound := func(k json_map.AbsolutePathKey) []interface{} {
		if n, ok := k.Value.(int); ok && k.KeyType == json_map.IndexKey {
			return []interface{}{"n", n}
		} else if k.KeyType == json_map.StartEnd {
			return []interface{}{"e", ""}
		}
		return []interface{}{"x", fmt.Sprint(k)}
	}
	for _, k := range path {
		var e []interface{}
		switch k.KeyType {
		case json_map.StringKey:
			e = []interface{}{"S", fmt.Sprint(k.Value)}
		case json_map.IndexKey:
			if n, ok := k.Value.(int); ok {
				e = []interface{}{"I", n}
			} else {
				e = []interface{}{"x", fmt.Sprint(k)}
			}
		case json_map.Wildcard:
			e = []interface{}{"W", ""}
		case json_map.Filter:
			e = []interface{}{"F", fmt.Sprint(k.Value)}
		case json_map.First:
			e = []interface{}{"D", ""}
		case json_map.RecursiveLookup:
			e = []interface{}{"R", fmt.Sprint(k.Value)}
		case json_map.StartEnd:
			e = []interface{}{"E", ""}
		case json_map.Slice:
			if s, ok := k.Value.([]json_map.AbsolutePathKey); ok && len(s) == 2 {
				e = []interface{}{"L", bound(s[0]), bound(s[1])}
			} else {
				e = []interface{}{"x", fmt.Sprint(k)}
			}
		default:
			e = []interface{}{"x", fmt.Sprint(k)}
		}
		out = append(out, e)
	}
	return out
}

func toInt(v interface{}) int {
	n, _ := v.(json.Number).Int64()
	return int(n)
}

func decKey(v interface{}) json_map.AbsolutePathKey {
	p := v.([]interface{})
	bound := func(b interface{}) json_map.AbsolutePathKey {
		q := b.([]interface{})
		if q[0] == "n" {
			return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: toInt(q[1])}
		}
		return json_map.AbsolutePathKey{KeyType: json_map.StartEnd, Value: nil}
	}
	switch p[0].(string) {
	case "S":
		return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: p[1].(string)}
	case "I":
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: toInt(p[1])}
	case "W":
		return json_map.AbsolutePathKey{KeyType: json_map.Wildcard, Value: nil}
	case "F":
		return json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: p[1].(string)}
	case "D":
		return json_map.AbsolutePathKey{KeyType: json_map.First, Value: nil}
	case "R":
		return json_map.AbsolutePathKey{KeyType: json_map.RecursiveLookup, Value: p[1].(string)}
	case "E":
		return json_map.AbsolutePathKey{KeyType: json_map.StartEnd, Value: nil}
	default:
		return json_map.AbsolutePathKey{KeyType: json_map.Slice, Value: []json_map.AbsolutePathKey{bound(p[1]), bound(p[2])}}
	}
}

func decKeys(v interface{}) []json_map.AbsolutePathKey {
	out := make([]json_map.AbsolutePathKey, 0)
	for _, k := range v.([]interface{}) {
		out = append(out, decKey(k))
	}
	return out
}

func decPaths(v interface{}) json_map.AbsolutePaths {
	out := make(json_map.AbsolutePaths, 0)
	for _, p := range v.([]interface{}) {
		out = append(out, decKeys(p))
	}
	return out
}
