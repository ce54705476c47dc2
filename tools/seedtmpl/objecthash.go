// Package objecthash is a stand-in for github.com/continusec/objecthash, the one
// dependency of /repo that is not in this sandbox. It implements the published
// object hash (type tag + value, dictionaries as sorted hash pairs, lists in order,
// redaction by a "***REDACTED*** Hash: " prefix) behind the same functions.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
)

// RedactedPrefix marks a string that stands for a redacted value.
const RedactedPrefix = "***REDACTED*** Hash: "

// Rand is where nonces come from (a simulator may replace it).
var Rand io.Reader = rand.Reader

var (
	errType  = errors.New("objecthash: unknown type")
	errFloat = errors.New("objecthash: bad float")
	errHash  = errors.New("objecthash: bad redacted hash")
)

func tagged(tag byte, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte{tag})
	h.Write(b)
	return h.Sum(nil)
}

func floatNormalize(f float64) (string, error) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", errFloat
	}
	if f == 0 {
		return "+0:", nil
	}
	s := "+"
	if f < 0 {
		s = "-"
		f = -f
	}
	e := 0
	for f > 1 {
		f /= 2
		e++
	}
	for f <= .5 {
		f *= 2
		e--
	}
	s += fmt.Sprintf("%d:", e)
	if f > 1 || f <= .5 {
		return "", errFloat
	}
	for f != 0 {
		if f >= 1 {
			s += "1"
			f--
		} else {
			s += "0"
		}
		if f >= 1 || len(s) > 1000 {
			return "", errFloat
		}
		f *= 2
	}
	return s, nil
}

func isRedacted(s string) bool { return strings.HasPrefix(s, RedactedPrefix) }

func hashOf(o interface{}, redaction bool) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return tagged('n', nil), nil
	case bool:
		if v {
			return tagged('b', []byte("1")), nil
		}
		return tagged('b', []byte("0")), nil
	case string:
		if redaction && isRedacted(v) {
			b, err := hex.DecodeString(v[len(RedactedPrefix):])
			if err != nil || len(b) != sha256.Size {
				return nil, errHash
			}
			return b, nil
		}
		return tagged('u', []byte(v)), nil
	case float64:
		s, err := floatNormalize(v)
		if err != nil {
			return nil, err
		}
		return tagged('f', []byte(s)), nil
	case int:
		return tagged('i', []byte(fmt.Sprintf("%d", v))), nil
	case int64:
		return tagged('i', []byte(fmt.Sprintf("%d", v))), nil
	case []interface{}:
		var b bytes.Buffer
		for _, e := range v {
			h, err := hashOf(e, redaction)
			if err != nil {
				return nil, err
			}
			b.Write(h)
		}
		return tagged('l', b.Bytes()), nil
	case map[string]interface{}:
		pairs := make([]string, 0, len(v))
		for k, e := range v {
			kh, err := hashOf(k, false)
			if err != nil {
				return nil, err
			}
			vh, err := hashOf(e, redaction)
			if err != nil {
				return nil, err
			}
			pairs = append(pairs, string(kh)+string(vh))
		}
		sort.Strings(pairs)
		return tagged('d', []byte(strings.Join(pairs, ""))), nil
	default:
		return nil, errType
	}
}

// ObjectHash hashes an object; strings that look redacted are hashed as strings.
func ObjectHash(o interface{}) ([]byte, error) { return hashOf(o, false) }

// ObjectHashWithStdRedaction hashes an object; redacted strings stand for the hash they carry.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return hashOf(o, true) }

// CommonJSONHash hashes a JSON document.
func CommonJSONHash(j []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(j, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable replaces every value of every dictionary by a <nonce, value> pair.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		rv := make(map[string]interface{}, len(v))
		for _, k := range keys {
			x, err := Redactable(v[k])
			if err != nil {
				return nil, err
			}
			nonce := make([]byte, 32)
			if _, err := io.ReadFull(Rand, nonce); err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(nonce), x}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// UnredactableWithStdPrefix drops redacted fields and replaces the pairs by their values.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(v))
		for i, e := range v {
			x, err := UnredactableWithStdPrefix(e)
			if err != nil {
				return nil, err
			}
			rv[i] = x
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(v))
		for k, e := range v {
			switch f := e.(type) {
			case []interface{}:
				if len(f) != 2 {
					return nil, errType
				}
				x, err := UnredactableWithStdPrefix(f[1])
				if err != nil {
					return nil, err
				}
				rv[k] = x
			case string:
				if !isRedacted(f) {
					return nil, errType
				}
			default:
				return nil, errType
			}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// Filtered redacts every top-level field that is not in the comma separated list ("*" is all).
func Filtered(o interface{}, fields string) (interface{}, error) {
	v, ok := o.(map[string]interface{})
	if !ok {
		return o, nil
	}
	allowed := make(map[string]bool)
	for _, f := range strings.Split(fields, ",") {
		if f == "*" {
			return o, nil
		}
		allowed[f] = true
	}
	rv := make(map[string]interface{}, len(v))
	for k, e := range v {
		if allowed[k] {
			rv[k] = e
			continue
		}
		h, err := ObjectHashWithStdRedaction(e)
		if err != nil {
			return nil, err
		}
		rv[k] = RedactedPrefix + hex.EncodeToString(h)
	}
	return rv, nil
}
