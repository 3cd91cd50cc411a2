package world

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/piprate/json-gold/ld"

	"vcsim/core"
)

// J is a JSON object.
type J = map[string]any

// Enc marshals v.
func Enc(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}

// Dec unmarshals b into an object (nil if it is none).
func Dec(b []byte) J {
	var m J

	if json.Unmarshal(b, &m) != nil {
		return nil
	}

	return m
}

// Clone copies a JSON value.
func Clone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := J{}
		for k, e := range x {
			o[k] = Clone(e)
		}

		return o
	case []any:
		o := make([]any, len(x))
		for i, e := range x {
			o[i] = Clone(e)
		}

		return o
	}

	return v
}

// CloneJ copies a JSON object.
func CloneJ(m J) J { return Clone(m).(J) }

// Same compares two values by their JSON.
func Same(a, b any) bool {
	x, e1 := json.Marshal(a)
	y, e2 := json.Marshal(b)

	if e1 != nil || e2 != nil {
		return false
	}

	var p, q any

	if json.Unmarshal(x, &p) != nil || json.Unmarshal(y, &q) != nil {
		return false
	}

	return bytes.Equal(Enc(p), Enc(q))
}

type path struct {
	parent any
	key    string
	idx    int
	full   string
	set    func(v any)
	del    func()
	get    any
}

func walk(v any, at string, skip func(string) bool, out *[]path) {
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sort.Strings(ks)

		for _, k := range ks {
			p := at + "/" + k
			if skip != nil && skip(p) {
				continue
			}

			*out = append(*out, path{parent: v, key: k, full: p, get: x[k], set: func(n any) { x[k] = n }, del: func() { delete(x, k) }})
			walk(x[k], p, skip, out)
		}
	case []any:
		for i := range x {
			p := fmt.Sprintf("%s/%d", at, i)
			*out = append(*out, path{parent: v, idx: i, full: p, get: x[i], set: func(n any) { x[i] = n }})
			walk(x[i], p, skip, out)
		}
	}
}

// Mutate changes one place of a JSON object and says where. Places skip accepts are left alone.
func Mutate(r *core.Run, doc J, skip func(p string) bool) string {
	var ps []path

	walk(doc, "", skip, &ps)

	if len(ps) == 0 {
		return ""
	}

	p := ps[r.Choose(len(ps), "mut-path")]

	switch r.Choose(6, "mut-op") {
	case 0: // change the value
		switch x := p.get.(type) {
		case string:
			switch r.Choose(4, "mut-str") {
			case 0:
				p.set(x + "x")
			case 1:
				if len(x) > 0 {
					p.set(x[:len(x)-1])
				} else {
					p.set("x")
				}
			case 2:
				p.set(flipChar(x, r.Choose(len(x)+1, "mut-ch")))
			case 3:
				p.set(strings.ToUpper(x) + "U")
			}
		case float64:
			p.set(x + 1)
		case bool:
			p.set(!x)
		case int:
			p.set(x + 1)
		default:
			p.set("replaced")
		}

		return "change " + p.full
	case 1:
		if p.del != nil {
			p.del()

			return "delete " + p.full
		}

		p.set("mut")

		return "set " + p.full
	case 2: // add a member
		if m, ok := p.get.(map[string]any); ok {
			m["simAdded"] = "added"

			return "add in " + p.full
		}

		doc["simAdded"] = "added"

		return "add at the top"
	case 3: // swap with another place's value
		q := ps[r.Choose(len(ps), "mut-other")]
		if strings.HasPrefix(q.full, p.full) || strings.HasPrefix(p.full, q.full) {
			p.set("swapped")

			return "set " + p.full
		}

		p.set(Clone(q.get))

		return "copy " + q.full + " to " + p.full
	case 4: // wrap or extend
		if a, ok := p.get.([]any); ok {
			p.set(append(append([]any{}, a...), "extra"))

			return "append " + p.full
		}

		p.set([]any{p.get, "extra"})

		return "extend " + p.full
	default: // odd types
		p.set([]any{nil, "", 0, 1.5, true, J{}, []any{}, []any{nil}, J{"id": ""}, J{"id": 1}, "null", []any{J{}}}[r.Choose(12, "mut-odd")])

		return "odd value at " + p.full
	}
}

func flipChar(s string, i int) string {
	if i >= len(s) {
		return s + "!"
	}

	b := []byte(s)
	if b[i] == 'a' {
		b[i] = 'b'
	} else {
		b[i] = 'a'
	}

	return string(b)
}

// Canon is the RDF canonical form of doc without its proof, computed with json-gold alone.
func Canon(doc J) (out string, err error) {
	defer func() {
		if p := recover(); p != nil { // json-gold has its own troubles
			err = fmt.Errorf("json-gold: %v", p)
		}
	}()

	d := Dec(Enc(doc))
	delete(d, "proof")

	p := ld.NewJsonLdProcessor()
	o := ld.NewJsonLdOptions("")
	o.ProcessingMode = ld.JsonLd_1_1
	o.Format = "application/n-quads"
	o.Algorithm = ld.AlgorithmURDNA2015
	o.DocumentLoader = plainLoader{}
	o.ProduceGeneralizedRdf = true

	v, err := p.Normalize(d, o)
	if err != nil {
		return "", err
	}

	s, _ := v.(string)

	return s, nil
}

type plainLoader struct{}

func (plainLoader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	if d := ldDocs[u]; d != nil {
		return d, nil
	}

	return nil, ld.NewJsonLdError(ld.LoadingDocumentFailed, "no such context: "+u)
}
