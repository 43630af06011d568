package lsp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
)

type vMsg struct {
	kind string // open change close request
	uri  string
	text []string // open: one, change: any number
	req  string
	id   any
	par  map[string]any
}

func vFrame(v any) []byte {
	b, _ := json.Marshal(v)
	return []byte(fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b))
}

func (m vMsg) frame() []byte {
	td := map[string]any{"uri": m.uri}
	j := map[string]any{"jsonrpc": "2.0"}
	switch m.kind {
	case "open":
		j["method"] = "textDocument/didOpen"
		j["params"] = map[string]any{"textDocument": map[string]any{"uri": m.uri, "languageId": "teal", "version": 1, "text": m.text[0]}}
	case "change":
		j["method"] = "textDocument/didChange"
		cs := []any{}
		for _, t := range m.text {
			cs = append(cs, map[string]any{"text": t})
		}
		j["params"] = map[string]any{"textDocument": td, "contentChanges": cs}
	case "close":
		j["method"] = "textDocument/didClose"
		j["params"] = map[string]any{"textDocument": td}
	case "save":
		j["method"] = "textDocument/didSave"
		j["params"] = map[string]any{"textDocument": td}
	default:
		j["id"] = m.id
		j["method"] = m.req
		p := map[string]any{"textDocument": td}
		for k, v := range m.par {
			p[k] = v
		}
		j["params"] = p
	}
	return vFrame(j)
}

func vServe(init any, ms []vMsg) (out []map[string]any, err error) {
	var in bytes.Buffer
	in.Write(vFrame(map[string]any{"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": map[string]any{"initializationOptions": init}}))
	in.Write(vFrame(map[string]any{"jsonrpc": "2.0", "method": "initialized", "params": map[string]any{}}))
	for _, m := range ms {
		in.Write(m.frame())
	}
	in.Write(vFrame(map[string]any{"jsonrpc": "2.0", "method": "exit"}))
	var w bytes.Buffer
	l, err := New(&in, &w)
	if err != nil {
		return nil, err
	}
	if _, err = l.Run(); err != nil {
		return nil, err
	}
	b := w.Bytes()
	for len(b) > 0 {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			return nil, fmt.Errorf("no header end in %q", b)
		}
		var n int
		for _, h := range strings.Split(string(b[:i]), "\r\n") {
			fmt.Sscanf(h, "Content-Length: %d", &n)
		}
		b = b[i+4:]
		if n > len(b) {
			return nil, io.ErrUnexpectedEOF
		}
		var v map[string]any
		if err := json.Unmarshal(b[:n], &v); err != nil {
			return nil, err
		}
		out = append(out, v)
		b = b[n:]
	}
	return out, nil
}

func vNorm(req string, v any) string {
	if m, ok := v.(map[string]any); ok && req == "textDocument/diagnostic" {
		v = m["items"]
	}
	switch req { // answers that are sets: their order is not determined
	case "textDocument/completion", "textDocument/diagnostic", "textDocument/codeAction":
		if a, ok := v.([]any); ok {
			var s []string
			for _, x := range a {
				b, _ := json.Marshal(x)
				s = append(s, string(b))
			}
			sort.Strings(s)
			return strings.Join(s, "\n")
		}
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// ---- reference for labels: definitions and references by plain scanning ----

type vOcc struct {
	name    string
	l, b, e int
	def     bool
}

func vOccs(text string) (out []vOcc) {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	for ln, s := range strings.Split(text, "\n") {
		var toks []vOcc
		for i := 0; i < len(s); {
			if s[i] == ' ' || s[i] == '\t' {
				i++
				continue
			}
			j := i
			for j < len(s) && s[j] != ' ' && s[j] != '\t' {
				j++
			}
			toks = append(toks, vOcc{name: s[i:j], l: ln, b: i, e: j})
			i = j
		}
		if len(toks) == 0 {
			continue
		}
		h := toks[0]
		if strings.HasSuffix(h.name, ":") && len(h.name) > 1 {
			h.name, h.def, h.e = h.name[:len(h.name)-1], true, h.e-1
			out = append(out, h)
			continue
		}
		switch h.name {
		case "b", "bz", "bnz", "callsub":
			if len(toks) > 1 {
				out = append(out, toks[1])
			}
		case "switch", "match":
			out = append(out, toks[1:]...)
		}
	}
	return
}

func vRg(o vOcc) map[string]any {
	return map[string]any{"start": map[string]any{"line": o.l, "character": o.b}, "end": map[string]any{"line": o.l, "character": o.e}}
}

func vSet(vs []string) string { sort.Strings(vs); return strings.Join(vs, "\n") }

func vJ(v any) string {
	b, _ := json.Marshal(v)
	var x any
	json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

// vLabels checks the answers about the symbol under the cursor.
func vLabels(m vMsg, text string, got any, fail func(string, string, any, any)) {
	pos, _ := m.par["position"].(map[string]any)
	occs := vOccs(text)
	var under *vOcc
	for i := range occs {
		o := occs[i]
		end := o.e
		if o.def {
			end++ // the colon belongs to the definition
		}
		if pos != nil && o.l == pos["line"].(int) && o.b <= pos["character"].(int) && pos["character"].(int) <= end {
			under = &occs[i]
			break
		}
	}
	var all []vOcc
	if under != nil {
		for _, o := range occs {
			if o.name == under.name {
				all = append(all, o)
			}
		}
	}
	switch m.req {
	case "textDocument/rename":
		var want, have []string
		for _, o := range all {
			want = append(want, vJ(map[string]any{"range": vRg(o), "newText": m.par["newName"]}))
		}
		g, _ := got.(map[string]any)
		ch, _ := g["changes"].(map[string]any)
		for u, es := range ch {
			if u != m.uri {
				fail("rename-uri", "rename edits stay in the document", m.uri, u)
			}
			a, _ := es.([]any)
			for _, e := range a {
				have = append(have, vJ(e))
			}
		}
		if w, h := vSet(want), vSet(have); w != h {
			fail("rename", "rename edits cover exactly the definitions and references", w, h)
		}
	case "textDocument/documentHighlight":
		var want, have []string
		for _, o := range all {
			want = append(want, vJ(vRg(o)))
		}
		a, _ := got.([]any)
		for _, e := range a {
			x, _ := e.(map[string]any)
			have = append(have, vJ(x["range"]))
		}
		if w, h := vSet(want), vSet(have); w != h {
			fail("highlight", "highlights cover exactly the definitions and references", w, h)
		}
	case "textDocument/definition":
		var want, have []string
		if under != nil && !under.def {
			for _, o := range all {
				if o.def {
					want = append(want, vJ(map[string]any{"uri": m.uri, "range": vRg(o)}))
				}
			}
		}
		a, _ := got.([]any)
		for _, e := range a {
			have = append(have, vJ(e))
		}
		if w, h := vSet(want), vSet(have); w != h {
			fail("definition", "definition targets are exactly the definitions of the reference under the cursor", w, h)
		}
	case "textDocument/prepareRename":
		g, _ := got.(map[string]any)
		if under == nil {
			if g["placeholder"] != nil {
				fail("prepare", "nothing to rename", nil, got)
			}
			return
		}
		if w, h := vJ(map[string]any{"range": vRg(*under), "placeholder": under.name}), vJ(got); w != h {
			fail("prepare", "the symbol under the cursor", w, h)
		}
	case "textDocument/documentSymbol":
		var want, have []string
		for _, o := range occs {
			if o.def {
				want = append(want, o.name+fmt.Sprint(o.l, ":", o.b))
			}
		}
		a, _ := got.([]any)
		for _, e := range a {
			x, _ := e.(map[string]any)
			r, _ := x["range"].(map[string]any)
			st, _ := r["start"].(map[string]any)
			have = append(have, fmt.Sprint(x["name"])+fmt.Sprint(st["line"], ":", st["character"]))
		}
		if w, h := strings.Join(want, "\n"), strings.Join(have, "\n"); w != h {
			fail("symbols", "document symbols are the label definitions in order", w, h)
		}
	}
}

func TestOracleC09(t *testing.T) {
	o := vNew(t, "message histories (open, change, close, save, requests of every kind on several documents) through the real server; every answer is compared with a fresh server that only saw the latest text, and label answers with a plain scan of that text")
	uris := []string{"file:///a.teal", "file:///b.teal", "file:///c.teal"}
	names := []string{"a", "b", "aa", "x"}
	line := func() string {
		n := func() string { return names[o.R.Intn(len(names))] }
		ind := []string{"", "", "\t", "  "}[o.R.Intn(4)]
		switch o.R.Intn(10) {
		case 0, 1, 2:
			return ind + n() + ":"
		case 3, 4:
			return ind + []string{"b", "bz", "bnz", "callsub"}[o.R.Intn(4)] + " " + n()
		case 5:
			return ind + []string{"switch", "match"}[o.R.Intn(2)] + " " + n() + "  " + n() + " " + n()
		case 6:
			return []string{"int 1", "int NoOp", "txn Sender", "byte 0x6162", "return", "zzz", "txn 0", "int 5"}[o.R.Intn(8)]
		case 7:
			return []string{"", "#pragma version 8", "#pragma version 2"}[o.R.Intn(3)]
		default:
			return ind + []string{"int", "txn", "pop", "log", "box_get"}[o.R.Intn(5)]
		}
	}
	text := func() string {
		var ls []string
		for k := o.R.Intn(8); k > 0; k-- {
			ls = append(ls, line())
		}
		return strings.Join(ls, []string{"\n", "\n", "\r\n"}[o.R.Intn(3)])
	}
	reqs := []string{"textDocument/rename", "textDocument/documentHighlight", "textDocument/definition", "textDocument/prepareRename", "textDocument/documentSymbol",
		"textDocument/rename", "textDocument/documentHighlight", "textDocument/definition",
		"textDocument/hover", "textDocument/completion", "textDocument/inlayHint", "textDocument/codeLens", "textDocument/codeAction", "textDocument/diagnostic",
		"textDocument/signatureHelp", "textDocument/semanticTokens/full", "textDocument/formatting", "textDocument/inlineValue"}
	for i := 0; i < o.N(4000) && !o.Expired(); i++ {
		init := map[string]any{}
		for _, k := range []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"} {
			if o.R.Intn(3) == 0 {
				init[k] = o.R.Intn(2) == 0
			}
		}
		var ms []vMsg
		id := 0
		for k := 3 + o.R.Intn(16); k > 0; k-- {
			m := vMsg{uri: uris[o.R.Intn(3)]}
			switch o.R.Intn(10) {
			case 0, 1:
				m.kind, m.text = "open", []string{text()}
			case 2, 3:
				m.kind = "change"
				for j := o.R.Intn(3); j >= 0; j-- {
					m.text = append(m.text, text())
				}
				if o.R.Intn(12) == 0 {
					m.text = nil
				}
			case 4:
				m.kind = []string{"close", "close", "save"}[o.R.Intn(3)]
			default:
				id++
				m.kind, m.req, m.id = "request", reqs[o.R.Intn(len(reqs))], id
				if o.R.Intn(3) == 0 {
					m.id = fmt.Sprintf("id-%d", id)
				}
				l, c := o.R.Intn(8), o.R.Intn(12)
				pos := map[string]any{"line": l, "character": c}
				m.par = map[string]any{"position": pos, "newName": "renamed",
					"range": map[string]any{"start": map[string]any{"line": o.R.Intn(l + 1), "character": 0}, "end": map[string]any{"line": l, "character": c}}, "context": map[string]any{"diagnostics": []any{}}}
			}
			ms = append(ms, m)
		}
		js, _ := json.Marshal(vDesc(ms))
		o.Case(string(js), true, func(fail func(string, string, any, any)) {
			outs, err := vServe(init, ms)
			if err != nil {
				fail("serve", "the server answers", "ok", err)
				return
			}
			byId := map[string][]map[string]any{}
			for _, r := range outs {
				if r["method"] != nil {
					continue
				}
				byId[vJ(r["id"])] = append(byId[vJ(r["id"])], r)
			}
			docs := map[string]*string{}
			known := map[string]bool{`"init"`: true}
			for _, m := range ms {
				switch m.kind {
				case "open":
					s := m.text[0]
					docs[m.uri] = &s
				case "change":
					if docs[m.uri] != nil && len(m.text) > 0 {
						s := m.text[len(m.text)-1]
						docs[m.uri] = &s
					}
				case "close":
					delete(docs, m.uri)
				case "request":
					known[vJ(m.id)] = true
					rs := byId[vJ(m.id)]
					cur := docs[m.uri]
					if cur == nil {
						for _, r := range rs {
							if m.req == "textDocument/diagnostic" {
								res, _ := r["result"].(map[string]any)
								if it, _ := res["items"].([]any); len(it) != 0 {
									fail("closed", "no diagnostics for a document that is not open", 0, r)
								}
								continue
							}
							if r["result"] != nil {
								fail("closed", "a request on a document that is not open fails", "no result", r)
							}
						}
						continue
					}
					if len(rs) != 1 {
						fail("once", fmt.Sprintf("exactly one response to %s with id %v", m.req, m.id), 1, len(rs))
						return
					}
					if rs[0]["error"] != nil {
						fail("error", "a request on an open document succeeds", "result", rs[0])
						return
					}
					fresh, err := vServe(init, []vMsg{{kind: "open", uri: m.uri, text: []string{*cur}}, m})
					if err != nil || len(fresh) != 2 {
						fail("fresh", "the server answers once", 2, fmt.Sprint(len(fresh), err))
						return
					}
					if w, g := vNorm(m.req, fresh[1]["result"]), vNorm(m.req, rs[0]["result"]); w != g {
						fail("latest", fmt.Sprintf("%s is answered from the latest text %q", m.req, *cur), vClip(w, 600), vClip(g, 600))
						return
					}
					vLabels(m, *cur, rs[0]["result"], func(k, what string, w, g any) { fail(k, fmt.Sprintf("%s on %q", what, *cur), w, g) })
				}
			}
			for k, rs := range byId {
				if !known[k] || len(rs) > 1 {
					fail("stray", "responses only to requests, once", 1, k)
				}
			}
		})
	}
	o.Done()
}

func vDesc(ms []vMsg) (out []any) {
	for _, m := range ms {
		switch m.kind {
		case "request":
			out = append(out, map[string]any{"id": m.id, "method": m.req, "uri": m.uri, "position": m.par["position"]})
		case "close", "save":
			out = append(out, m.kind+" "+m.uri)
		default:
			out = append(out, map[string]any{m.kind: m.uri, "text": m.text})
		}
	}
	return
}
