// Package objecthash is a stand-in for github.com/continusec/objecthash, the one module
// that is not available offline. It implements the published object hash (Ben Laurie's
// objecthash, as extended by Continusec with redaction), validated against the vectors in
// /repo/doc/REST-API.md and the upstream README (see objecthash_test.go).
//
// It is part of the trusted base of the harness: /repo is compiled against it.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
)

// RedactedPrefix marks a string that stands for the object hash that follows it in hex.
const RedactedPrefix = "***REDACTED*** Hash: "

var (
	errUnknownType = errors.New("objecthash: unsupported type")
	errRedacted    = errors.New("objecthash: malformed redacted value")
	errTuple       = errors.New("objecthash: not a redactable tuple")
)

func h(t byte, b []byte) []byte {
	s := sha256.New()
	s.Write([]byte{t})
	s.Write(b)
	return s.Sum(nil)
}

func floatNormalize(f float64) (string, error) {
	if f == 0 {
		return "+0:", nil
	}
	s := "+"
	if f < 0 {
		s, f = "-", -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
		if e > 5000 {
			return "", errUnknownType
		}
	}
	for f <= .5 {
		f *= 2
		e--
	}
	s += fmt.Sprintf("%d:", e)
	for f != 0 {
		if f >= 1 {
			s += "1"
			f--
		} else {
			s += "0"
		}
		if len(s) >= 2000 {
			return "", errUnknownType
		}
		f *= 2
	}
	return s, nil
}

func hash(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return h('n', nil), nil
	case bool:
		if v {
			return h('b', []byte("1")), nil
		}
		return h('b', []byte("0")), nil
	case float64:
		s, err := floatNormalize(v)
		if err != nil {
			return nil, err
		}
		return h('f', []byte(s)), nil
	case string:
		if prefix != "" && strings.HasPrefix(v, prefix) {
			b, err := hex.DecodeString(v[len(prefix):])
			if err != nil || len(b) != sha256.Size {
				return nil, errRedacted
			}
			return b, nil
		}
		return h('u', []byte(v)), nil
	case []interface{}:
		var buf bytes.Buffer
		for _, x := range v {
			b, err := hash(x, prefix)
			if err != nil {
				return nil, err
			}
			buf.Write(b)
		}
		return h('l', buf.Bytes()), nil
	case map[string]interface{}:
		items := make([]string, 0, len(v))
		for k, x := range v {
			kb, err := hash(k, prefix)
			if err != nil {
				return nil, err
			}
			vb, err := hash(x, prefix)
			if err != nil {
				return nil, err
			}
			items = append(items, string(kb)+string(vb))
		}
		sort.Strings(items)
		return h('d', []byte(strings.Join(items, ""))), nil
	default:
		return nil, errUnknownType
	}
}

// ObjectHash returns the object hash of a decoded JSON value.
func ObjectHash(o interface{}) ([]byte, error) { return hash(o, "") }

// ObjectHashWithRedaction is ObjectHash, with strings beginning with prefix replaced by the hash they carry.
func ObjectHashWithRedaction(o interface{}, prefix string) ([]byte, error) { return hash(o, prefix) }

// ObjectHashWithStdRedaction is ObjectHashWithRedaction with RedactedPrefix.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return hash(o, RedactedPrefix) }

// CommonJSONHash returns the object hash of JSON text.
func CommonJSONHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable replaces each object member's value with a (nonce, value) tuple, recursively.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			y, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			rv[i] = y
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, x := range v {
			y, err := Redactable(x)
			if err != nil {
				return nil, err
			}
			nonce := make([]byte, 32)
			if _, err := rand.Read(nonce); err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(nonce), y}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// UnredactableWithPrefix drops redacted members and unwraps the remaining (nonce, value) tuples.
func UnredactableWithPrefix(o interface{}, prefix string) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, x := range v {
			y, err := UnredactableWithPrefix(x, prefix)
			if err != nil {
				return nil, err
			}
			rv[i] = y
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, x := range v {
			switch t := x.(type) {
			case string:
				if !strings.HasPrefix(t, prefix) {
					return nil, errTuple
				}
			case []interface{}:
				if len(t) != 2 {
					return nil, errTuple
				}
				y, err := UnredactableWithPrefix(t[1], prefix)
				if err != nil {
					return nil, err
				}
				rv[k] = y
			default:
				return nil, errTuple
			}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// UnredactableWithStdPrefix is UnredactableWithPrefix with RedactedPrefix.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) {
	return UnredactableWithPrefix(o, RedactedPrefix)
}

// Filtered redacts every top-level member whose name is not in the comma separated list fields.
func Filtered(o interface{}, fields string) (interface{}, error) {
	allowed := make(map[string]bool)
	for _, f := range strings.Split(fields, ",") {
		allowed[f] = true
	}
	if allowed["*"] {
		return o, nil
	}
	m, ok := o.(map[string]interface{})
	if !ok {
		return nil, errUnknownType
	}
	rv := make(map[string]interface{}, len(m))
	for k, v := range m {
		if allowed[k] {
			rv[k] = v
			continue
		}
		if s, ok := v.(string); ok && strings.HasPrefix(s, RedactedPrefix) {
			rv[k] = v // already redacted
			continue
		}
		b, err := ObjectHashWithStdRedaction(v)
		if err != nil {
			return nil, err
		}
		rv[k] = RedactedPrefix + hex.EncodeToString(b)
	}
	return rv, nil
}
