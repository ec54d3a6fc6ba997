// Package std holds models of standard library functions that rest on
// reflection or the runtime, used in the symbolic execution only.
package std

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"sync"
)

var maps map[*sync.Map]map[any]any

func of(m *sync.Map) map[any]any {
	if maps == nil {
		maps = map[*sync.Map]map[any]any{}
	}
	if maps[m] == nil {
		maps[m] = map[any]any{}
	}
	return maps[m]
}

//verif:replace (*sync.Map).Load
func load(m *sync.Map, k any) (any, bool) { v, ok := of(m)[k]; return v, ok }

//verif:replace (*sync.Map).Store
func store(m *sync.Map, k, v any) { of(m)[k] = v }

//verif:replace (*sync.Map).LoadOrStore
func loadOrStore(m *sync.Map, k, v any) (any, bool) {
	if o, ok := of(m)[k]; ok {
		return o, true
	}
	of(m)[k] = v
	return v, false
}

//verif:replace (*sync.Map).LoadAndDelete
func loadAndDelete(m *sync.Map, k any) (any, bool) {
	v, ok := of(m)[k]
	delete(of(m), k)
	return v, ok
}

//verif:replace (*sync.Map).Delete
func del(m *sync.Map, k any) { delete(of(m), k) }

//verif:replace (*sync.Map).Range
func rng(m *sync.Map, f func(k, v any) bool) {
	for k, v := range of(m) {
		if !f(k, v) {
			return
		}
	}
}

var errJSON = errors.New("json: cannot unmarshal")

func value(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		m := map[string]any{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			m[k.(string)] = v
		}
		_, err := d.Token()
		return m, err
	case json.Delim('['):
		s := []any{}
		for d.More() {
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			s = append(s, v)
		}
		_, err := d.Token()
		return s, err
	}
	return t, nil
}

//verif:replace encoding/json.Unmarshal
func unmarshal(b []byte, p any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	x, err := value(d)
	if err != nil {
		if err == io.EOF {
			err = errJSON
		}
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return errJSON
	}
	ok := true
	switch p := p.(type) {
	case *any:
		*p = x
	case *string:
		if x != nil {
			*p, ok = x.(string)
		}
	case *float64:
		if x != nil {
			*p, ok = x.(float64)
		}
	case *bool:
		if x != nil {
			*p, ok = x.(bool)
		}
	case *map[string]any:
		m, isM := x.(map[string]any)
		if ok = isM || x == nil; ok && *p != nil && m != nil {
			for k, v := range m {
				(*p)[k] = v
			}
		} else if ok {
			*p = m
		}
	case *[]any:
		if *p = nil; x != nil {
			*p, ok = x.([]any)
		}
	case *json.RawMessage:
		*p = append((*p)[:0], bytes.TrimSpace(b)...)
	default:
		panic("json.Unmarshal: no model for this type")
	}
	if !ok {
		return errJSON
	}
	return nil
}
