package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf16"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- C20 ----

// refObjectHash is the published object hash of a JSON value, written apart from the stand-in that /repo is built with.
func refObjectHash(o any) []byte {
	tag := func(t string, parts ...[]byte) []byte {
		h := sha256.Sum256(append([]byte(t), bytes.Join(parts, nil)...))
		return h[:]
	}
	switch v := o.(type) {
	case nil:
		return tag("n")
	case bool:
		return tag("b", []byte(strconv.Itoa(map[bool]int{true: 1}[v])))
	case float64:
		if v == 0 {
			return tag("f", []byte("+0:"))
		}
		sign := "+"
		if v < 0 {
			sign, v = "-", -v
		}
		m, e := math.Frexp(v) // v = m * 2^e, 1/2 <= m < 1
		if m == 0.5 {         // the mantissa is over 1/2, up to 1
			m, e = 1, e-1
		}
		// the mantissa in binary: the digit before the point, then the fraction
		x := new(big.Int)
		big.NewFloat(math.Ldexp(m, 53)).Int(x)
		bits := x.Text(2)
		if m < 1 {
			bits = "0" + bits
		}
		return tag("f", []byte(sign+strconv.Itoa(e)+":"+strings.TrimRight(bits, "0")))
	case string:
		if strings.HasPrefix(v, redacted) {
			b, err := hex.DecodeString(v[len(redacted):])
			if err != nil {
				panic(v)
			}
			return b
		}
		return tag("u", []byte(v))
	case []any:
		var l [][]byte
		for _, x := range v {
			l = append(l, refObjectHash(x))
		}
		return tag("l", l...)
	case map[string]any:
		var l [][]byte
		for k, x := range v {
			l = append(l, append(refObjectHash(k), refObjectHash(x)...))
		}
		sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
		return tag("d", l...)
	}
	panic(fmt.Sprintf("%T", o))
}

var jsonStrings = []string{"", "a", "b", "foo", "name", "日本", "é", "e\u0301", "😀", "\x00", "\n\t\"\\/", "<&>", "\u2028", "***REDACTED***", "x " + redacted, "0", "null", "true",
	strings.Repeat("long ", 60), "leaf_input", "value", "a,b", "*"}

func genJSONString(t *rapid.T, label string) string {
	if pick(t, label+"-kind", 4) == 0 {
		var rs []rune
		for i := pick(t, label+"-len", 12); i > 0; i-- {
			rs = append(rs, oneOf(t, label+"-rune", 'a', 'Z', '0', ' ', '"', '\\', 'é', '日', '😀', 0x7f, 0x80, 1, 0xfffd, 0xffff, 0x10ffff, rune(33+pick(t, label+"-r", 90))))
		}
		return string(rs)
	}
	return oneOf(t, label, jsonStrings...)
}

func genJSONNumber(t *rapid.T) float64 {
	switch pick(t, "numkind", 6) {
	case 0:
		return float64(pick(t, "num", 20)) - 5
	case 1:
		return float64(pick(t, "num", 1<<30)) / 1024
	case 2:
		return oneOf(t, "num", 0.1, -0.1, 1e-7, 1e300, 5e-324, math.MaxFloat64, 1<<53, 1<<53+2, 0.5, 0.25, 1, -1, 2, 3, 1e21, 1e20, 123456789012345680, math.Copysign(0, -1), 2.2250738585072014e-308)
	case 3:
		return math.Ldexp(float64(1+pick(t, "mant", 1<<20)), pick(t, "exp", 400)-200)
	default:
		return float64(int64(pick(t, "num", 1<<40)) - 1<<39)
	}
}

func genJSONValue(t *rapid.T, depth int) any {
	n := 10
	if depth <= 0 {
		n = 5
	}
	switch pick(t, "json", n) {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		return genJSONNumber(t)
	case 3, 4:
		return genJSONString(t, "string")
	case 5, 6:
		l := []any{}
		for i := pick(t, "len", 5); i > 0; i-- {
			l = append(l, genJSONValue(t, depth-1))
		}
		return l
	default:
		m := map[string]any{}
		for i := pick(t, "len", 6); i > 0; i-- {
			m[genJSONString(t, "key")] = genJSONValue(t, depth-1)
		}
		return m
	}
}

// jsonText writes the value as JSON in a drawn style: order of members, white space, escapes, number forms.
func jsonText(t *rapid.T, o any) []byte {
	seed := rapid.Uint64Range(0, 1<<30).Draw(t, "style")
	r := expand(seed, 4096)
	i := 0
	next := func(n int) int { // style choices are derived, not drawn
		i++
		if i%4096 == 0 {
			seed++
			r = expand(seed, 4096)
		}
		return int(r[i%4096]) % n
	}
	plain := seed%4 == 0
	var buf bytes.Buffer
	ws := func() {
		if !plain {
			buf.WriteString([]string{"", "", "", " ", "\n", "\t", "\r\n  "}[next(7)])
		}
	}
	str := func(s string) {
		buf.WriteByte('"')
		for _, c := range s {
			esc := !plain && next(5) == 0
			switch {
			case c == '"' || c == '\\':
				if esc {
					fmt.Fprintf(&buf, "\\u%04x", c)
				} else {
					buf.WriteString("\\" + string(c))
				}
			case c == '\n' && !esc:
				buf.WriteString("\\n")
			case c == '/' && esc:
				buf.WriteString("\\/")
			case c < 0x20 || esc && c < 0x10000:
				fmt.Fprintf(&buf, []string{"\\u%04x", "\\u%04X"}[next(2)], c)
			case esc:
				a, b := utf16.EncodeRune(c)
				fmt.Fprintf(&buf, "\\u%04x\\u%04x", a, b)
			default:
				buf.WriteRune(c)
			}
		}
		buf.WriteByte('"')
	}
	var val func(o any)
	val = func(o any) {
		ws()
		switch v := o.(type) {
		case nil:
			buf.WriteString("null")
		case bool:
			buf.WriteString(strconv.FormatBool(v))
		case float64:
			f := byte('g')
			if !plain && math.Abs(v) < 1e25 && (v == 0 || math.Abs(v) > 1e-10) {
				f = "gfeE"[next(4)]
			}
			buf.WriteString(strconv.FormatFloat(v, f, -1, 64))
		case string:
			str(v)
		case []any:
			buf.WriteByte('[')
			for i, x := range v {
				if i > 0 {
					buf.WriteByte(',')
				}
				val(x)
				ws()
			}
			ws()
			buf.WriteByte(']')
		case map[string]any:
			var ks []string
			for k := range v {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for i := len(ks) - 1; i > 0 && !plain; i-- {
				j := next(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
			buf.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					buf.WriteByte(',')
				}
				ws()
				str(k)
				ws()
				buf.WriteByte(':')
				val(v[k])
				ws()
			}
			ws()
			buf.WriteByte('}')
		}
		ws()
	}
	val(o)
	return buf.Bytes()
}

// other draws a value that differs from o in one place.
func other(t *rapid.T, o any) any {
	switch v := o.(type) {
	case nil:
		return oneOf[any](t, "other", false, 0.0, "", []any{}, map[string]any{}, "null")
	case bool:
		return oneOf[any](t, "other", !v, nil, 1.0)
	case float64:
		if math.Abs(v) > 1e300 {
			v = 7
		}
		return oneOf[any](t, "other", v+1+math.Abs(v), -v-1, strconv.FormatFloat(v, 'g', -1, 64), math.Nextafter(v, math.Inf(1)-v)) // the last at least differs in a bit
	case string:
		return oneOf[any](t, "other", v+"x", v+"\x00", "x"+v, []any{v})
	case []any:
		if len(v) == 0 || pick(t, "grow", 3) == 0 {
			return append(append([]any{}, v...), oneOf[any](t, "more", nil, "", 0.0, []any{}))
		}
		i := pick(t, "at", len(v))
		switch {
		case pick(t, "drop", 3) == 0:
			return append(append([]any{}, v[:i]...), v[i+1:]...)
		case i > 0 && !reflect.DeepEqual(v[i], v[0]) && pick(t, "swap", 2) == 0:
			rv := append([]any{}, v...)
			rv[0], rv[i] = rv[i], rv[0]
			return rv
		}
		rv := append([]any{}, v...)
		rv[i] = other(t, v[i])
		return rv
	default:
		m := v.(map[string]any)
		rv := map[string]any{}
		var ks []string
		for k, x := range m {
			rv[k] = x
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 || pick(t, "grow", 3) == 0 {
			for n := "new"; ; n += "w" {
				if _, ok := rv[n]; !ok {
					rv[n] = oneOf[any](t, "more", nil, "", 0.0)
					return rv
				}
			}
		}
		k := oneOf(t, "member", ks...)
		switch pick(t, "how", 4) {
		case 0:
			delete(rv, k)
		case 1:
			n := k + "'"
			for _, ok := rv[n]; ok; _, ok = rv[n] {
				n += "'"
			}
			rv[n] = rv[k]
			delete(rv, k)
		default:
			rv[k] = other(t, m[k])
		}
		return rv
	}
}

func checkJSONLeaf(t tb, l *pb.LeafData, text []byte, value any, what string) {
	t.Helper()
	eqBytes(t, l.LeafInput, refObjectHash(value), "%s: leaf input for %s", what, text)
	eqBytes(t, l.ExtraData, text, "%s: extra data for %s", what, text)
	if l.Format != pb.DataFormat_JSON {
		t.Fatalf("%s: format %v", what, l.Format)
	}
	noErr(t, verifiable.ValidateJSONLeafData(bg, l), "%s: validating %s", what, text)
}

func TestC20_JSON(t *testing.T) {
	check(t, 120000, 1200000, func(t *rapid.T) {
		k := newCase("C20")
		v := genJSONValue(t, 4)
		text := jsonText(t, v)
		k.Op("%s", text)
		keep := append([]byte{}, text...)
		l, err := verifiable.CreateJSONLeafData(text)
		noErr(t, err, "leaf data for %s", text)
		checkJSONLeaf(t, l, keep, v, "leaf data")
		if len(text) > 2 {
			k.NT("json")
		}
		// the same value written differently
		text2 := jsonText(t, v)
		l2, err := verifiable.CreateJSONLeafData(text2)
		noErr(t, err, "leaf data for %s", text2)
		checkJSONLeaf(t, l2, text2, v, "leaf data")
		if !bytes.Equal(text, text2) {
			k.NT("rewritten")
		}
		noErr(t, verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: l.LeafInput, ExtraData: text2}), "validating %s for %s", text2, text)
		// from a Go value
		lo, err := verifiable.CreateJSONLeafDataFromObject(v)
		noErr(t, err, "leaf data from object")
		b, err := json.Marshal(v)
		noErr(t, err, "json")
		checkJSONLeaf(t, lo, b, v, "leaf data from an object")
		// another value
		w := other(t, v)
		wt := jsonText(t, w)
		lw, err := verifiable.CreateJSONLeafData(wt)
		noErr(t, err, "leaf data for %s", wt)
		if !bytes.Equal(refObjectHash(w), refObjectHash(v)) {
			k.NT("differs")
			for _, x := range []*pb.LeafData{{LeafInput: l.LeafInput, ExtraData: wt}, {LeafInput: lw.LeafInput, ExtraData: text, Format: pb.DataFormat_JSON}} {
				if err := verifiable.ValidateJSONLeafData(bg, x); err == nil {
					t.Fatalf("%s validates with the leaf input of %s", wt, text)
				}
			}
		} else if _, isNum := v.(float64); !isNum && !reflect.DeepEqual(v, w) {
			t.Fatalf("harness: %s and %s hash alike", text, wt)
		}
		// a leaf input of another length or with a bit flipped
		bad := append([]byte{}, l.LeafInput...)
		switch pick(t, "tamper", 4) {
		case 0:
			bad = nil
		case 1:
			bad = bad[:pick(t, "cut", 32)]
		case 2:
			bad = append(bad, 0)
		default:
			bad[pick(t, "byte", 32)] ^= 1 << pick(t, "bit", 8)
		}
		if verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: bad, ExtraData: text}) == nil {
			t.Fatalf("%s validates with leaf input %x", text, bad)
		}
		// text that is not JSON
		broken := append([]byte{}, text...)
		switch pick(t, "break", 5) {
		case 0:
			broken = broken[:pick(t, "cut", len(broken))]
		case 1:
			broken = append(broken, oneOf(t, "trailing", "x", ",", "{}", "]", "\x00", " 1")...)
		case 2:
			broken[pick(t, "at", len(broken))] = byte(pick(t, "byte", 256))
		case 3:
			broken = genBytes(false).Draw(t, "bytes")
		default:
			broken = []byte(oneOf(t, "literal", "", " ", "nul", "'a'", "{a:1}", "[1,]", "01", "+1", "1.", ".5", "NaN", "Infinity", "\"\n\"", "{\"a\":1,}", "tru", "1e", "\ufeff{}"))
		}
		if !json.Valid(broken) {
			k.NT("not-json")
			if l, err := verifiable.CreateJSONLeafData(broken); err != verifiable.ErrInvalidJSON {
				t.Fatalf("%q is taken as JSON: %v %v", broken, l, err)
			}
			if l, err := verifiable.CreateRedactableJSONLeafData(broken); err != verifiable.ErrInvalidJSON {
				t.Fatalf("%q is taken as JSON: %v %v", broken, l, err)
			}
			if verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: l.LeafInput, ExtraData: broken}) == nil {
				t.Fatalf("%q validates", broken)
			}
			if r, err := verifiable.ShedRedactedJSONFields(broken); err == nil {
				t.Fatalf("%q sheds to %q", broken, r)
			}
		}
		k.Done()
	})
}

// redactSome returns a redactable value with drawn members redacted, and the original with these left out.
// r has a (nonce, value) tuple for each member of an object in o.
func redactSome(t *rapid.T, k *kase, r, o any, nonces map[string]bool) (any, any) {
	switch v := o.(type) {
	case []any:
		l := r.([]any)
		if len(l) != len(v) {
			t.Fatalf("redactable form of %v is %v", o, r)
		}
		rr, oo := []any{}, []any{}
		for i := range v {
			a, b := redactSome(t, k, l[i], v[i], nonces)
			rr, oo = append(rr, a), append(oo, b)
		}
		return rr, oo
	case map[string]any:
		m := r.(map[string]any)
		if len(m) != len(v) {
			t.Fatalf("redactable form of %v is %v", o, r)
		}
		rr, oo := map[string]any{}, map[string]any{}
		var ks []string
		for f := range v {
			ks = append(ks, f)
		}
		sort.Strings(ks)
		for _, f := range ks {
			tuple, ok := m[f].([]any)
			if !ok || len(tuple) != 2 {
				t.Fatalf("redactable form of %v is %v", o, r)
			}
			nonce, ok := tuple[0].(string)
			if !ok || len(nonce) < 16 || nonces[nonce] {
				t.Fatalf("nonce %v of %q is short or used again", tuple[0], f)
			}
			nonces[nonce] = true
			a, b := redactSome(t, k, tuple[1], v[f], nonces)
			if pick(t, "redact", 3) == 0 {
				k.NT("redacted")
				rr[f] = redacted + hex.EncodeToString(refObjectHash([]any{nonce, a}))
				continue
			}
			rr[f], oo[f] = []any{nonce, a}, b
		}
		return rr, oo
	default:
		if !reflect.DeepEqual(r, o) {
			t.Fatalf("redactable form of %v is %v", o, r)
		}
		return r, o
	}
}

func TestC20_Redactable(t *testing.T) {
	check(t, 72000, 800000, func(t *rapid.T) {
		k := newCase("C20")
		k.Class("redactable")
		v := genJSONValue(t, 4)
		if _, ok := v.(map[string]any); !ok && pick(t, "object", 4) > 0 {
			v = map[string]any{genJSONString(t, "key"): v, "second": genJSONValue(t, 2)}
		}
		text := jsonText(t, v)
		k.Op("%s", text)
		l, err := verifiable.CreateRedactableJSONLeafData(text)
		noErr(t, err, "redactable leaf data for %s", text)
		if l.Format != pb.DataFormat_JSON {
			t.Fatalf("format %v", l.Format)
		}
		var r any
		noErr(t, json.Unmarshal(l.ExtraData, &r), "extra data")
		eqBytes(t, l.LeafInput, refObjectHash(r), "leaf input of %s", l.ExtraData)
		noErr(t, verifiable.ValidateJSONLeafData(bg, l), "validating %s", l.ExtraData)
		shed := func(b []byte, want any) {
			s, err := verifiable.ShedRedactedJSONFields(b)
			noErr(t, err, "shedding %s", b)
			var got any
			noErr(t, json.Unmarshal(s, &got), "shed %s", s)
			if !bytes.Equal(refObjectHash(got), refObjectHash(want)) || !reflect.DeepEqual(got, want) && !strings.Contains(fmt.Sprint(want), "-0") {
				t.Fatalf("%s sheds to %s, want %v", b, s, want)
			}
		}
		shed(l.ExtraData, v)
		nonces := map[string]bool{}
		rr, left := redactSome(t, k, r, v, nonces)
		rt := jsonText(t, rr)
		rl := &pb.LeafData{LeafInput: l.LeafInput, ExtraData: rt, Format: pb.DataFormat_JSON}
		noErr(t, verifiable.ValidateJSONLeafData(bg, rl), "validating %s, redacted from %s", rt, l.ExtraData)
		shed(rt, left)
		// redacting more of what is left validates as well
		var again any
		noErr(t, json.Unmarshal(rt, &again), "json")
		if m, ok := again.(map[string]any); ok && len(m) > 0 {
			for f, x := range m {
				if _, isRedacted := x.(string); !isRedacted {
					m[f] = redacted + hex.EncodeToString(refObjectHash(x))
				}
			}
			all := jsonText(t, m)
			noErr(t, verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: l.LeafInput, ExtraData: all}), "validating %s, wholly redacted from %s", all, l.ExtraData)
			shed(all, map[string]any{})
			// another redaction does not
			for f := range m {
				h := refObjectHash("not " + f)
				m[f] = redacted + hex.EncodeToString(h)
				break
			}
			bad := jsonText(t, m)
			if verifiable.ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: l.LeafInput, ExtraData: bad}) == nil {
				t.Fatalf("%s validates although a redacted hash was replaced", bad)
			}
		}
		// made again, the nonces are others
		if len(nonces) > 0 {
			l2, err := verifiable.CreateRedactableJSONLeafData(text)
			noErr(t, err, "redactable leaf data for %s", text)
			if bytes.Equal(l2.LeafInput, l.LeafInput) {
				t.Fatalf("redactable leaf data for %s is guessable: it is the same when made again", text)
			}
		}
		k.Done()
	})
}

func TestC20_Mutation(t *testing.T) {
	check(t, 48000, 400000, func(t *rapid.T) {
		k := newCase("C20")
		k.Class("mutation")
		m := &pb.MapMutation{Action: oneOf(t, "action", "set", "delete", "update", "", "other"), Key: genBytes(false).Draw(t, "key"), Timestamp: oneOf(t, "ts", "", "2017-04-20T09:09:25.865086412+10:00", "x")}
		if pick(t, "prev", 2) == 0 {
			m.PreviousLeafHash = genBytes(false).Draw(t, "prev")
		}
		if pick(t, "value", 4) > 0 {
			m.Value = genLeaf(false, true).Draw(t, "value")
			if pick(t, "json", 3) == 0 {
				m.Value, _ = verifiable.CreateJSONLeafDataFromObject(genJSONValue(t, 2))
			}
		}
		k.Op("%v", m)
		before := proto.Clone(m)
		l, err := verifiable.CreateJSONLeafDataFromMutation(m)
		noErr(t, err, "leaf data")
		if !proto.Equal(m, before) {
			t.Fatalf("the mutation was changed to %v", m)
		}
		if l.Format != pb.DataFormat_JSON {
			t.Fatalf("format %v", l.Format)
		}
		noErr(t, verifiable.ValidateJSONLeafDataFromMutation(l), "validating mutation %s", l.ExtraData)
		// the extra data is the mutation in JSON
		var back pb.MapMutation
		noErr(t, json.Unmarshal(l.ExtraData, &back), "extra data")
		norm := func(m *pb.MapMutation) *pb.MapMutation {
			b := wire(t, m)
			rv := &pb.MapMutation{}
			noErr(t, proto.Unmarshal(b, rv), "proto")
			return rv
		}
		if !proto.Equal(norm(&back), norm(m)) {
			t.Fatalf("extra data %s of %v", l.ExtraData, m)
		}
		// the leaf input is the object hash without the value's extra data and format
		o := decodeJSON[map[string]any](t, l.ExtraData, "mutation")
		if v, ok := (*o)["value"].(map[string]any); ok {
			delete(v, "extra_data")
			delete(v, "format")
			k.NT("value")
		}
		eqBytes(t, l.LeafInput, refObjectHash(map[string]any(*o)), "leaf input of %s", l.ExtraData)
		// so these may be redacted, or replaced
		if m.Value != nil {
			n := proto.Clone(m).(*pb.MapMutation)
			n.Value.ExtraData, n.Value.Format = genBytes(false).Draw(t, "extra"), pb.DataFormat(pick(t, "format", 2))
			ln, err := verifiable.CreateJSONLeafDataFromMutation(n)
			noErr(t, err, "leaf data")
			eqBytes(t, ln.LeafInput, l.LeafInput, "leaf input with other extra data of the value")
			noErr(t, verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: l.LeafInput, ExtraData: ln.ExtraData}), "validating with other extra data of the value")
		}
		// anything else may not
		n := proto.Clone(m).(*pb.MapMutation)
		switch pick(t, "change", 6) {
		case 0:
			n.Action += "x"
		case 1:
			n.Key = append(n.Key, 0)
		case 2:
			n.Timestamp += "0"
		case 3:
			n.PreviousLeafHash = append(n.PreviousLeafHash, 1)
		case 4:
			if n.Value == nil {
				n.Value = &pb.LeafData{}
			} else {
				n.Value.LeafInput = append(n.Value.LeafInput, 'x')
			}
		default:
			if n.Value == nil {
				n.Value = &pb.LeafData{LeafInput: []byte{1}}
			} else {
				n.Value = nil
			}
		}
		ln, err := verifiable.CreateJSONLeafDataFromMutation(n)
		noErr(t, err, "leaf data")
		if bytes.Equal(ln.LeafInput, l.LeafInput) {
			t.Fatalf("%v and %v have the same leaf input", m, n)
		}
		k.NT("changed")
		if verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: l.LeafInput, ExtraData: ln.ExtraData}) == nil {
			t.Fatalf("%s validates with the leaf input of %s", ln.ExtraData, l.ExtraData)
		}
		if bad := genBytes(false).Draw(t, "bad"); verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: l.LeafInput, ExtraData: bad}) == nil {
			t.Fatalf("%q validates", bad)
		}
		// any message
		msg := oneOf[proto.Message](t, "message", m, &pb.LeafData{LeafInput: m.Key}, &pb.LogTreeHashResponse{TreeSize: int64(pick(t, "n", 1000)), RootHash: m.Key},
			&pb.MapTreeHashResponse{RootHash: m.Key, MutationLog: &pb.LogTreeHashResponse{TreeSize: 5}}, &pb.LogRef{Name: m.Action, LogType: 2})
		lp, err := verifiable.CreateJSONLeafDataFromProto(msg)
		noErr(t, err, "leaf data of %v", msg)
		text, err := json.Marshal(msg)
		noErr(t, err, "json")
		checkJSONLeaf(t, lp, text, *decodeJSON[any](t, text, "message"), "leaf data of a message")
		k.Done()
	})
}
