package main

import (
	"fmt"
	"io"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// produce opens a writer, runs f, closes everything and returns the bytes.
func produce(st *Setup, f func(w *xw.Writer) error) (string, error) {
	var s sink
	w := st.open(&s)
	if err := f(w); err != nil {
		return "", err
	}
	if err := w.EndAllFlush(); err != nil {
		return "", fmt.Errorf("EndAllFlush: %v", err)
	}
	return s.String(), nil
}

// apply runs ops on w and returns the error pattern, one byte per call.
func apply(w *xw.Writer, ops []Op) string {
	b := make([]byte, len(ops))
	for i, o := range ops {
		b[i] = '.'
		if o.Do(w) != nil {
			b[i] = 'E'
		}
	}
	return string(b)
}

// snapshot runs ops, then closes everything: the bytes at the end of the calls
// (after a flush), the bytes after closing, the error pattern.
func snapshot(st *Setup, ops []Op) (mid, final, errs string) {
	var s sink
	w := st.open(&s)
	errs = apply(w, ops)
	if err := w.Flush(); err != nil {
		errs += " flush:" + err.Error()
	}
	mid = s.String()
	if err := w.EndAllFlush(); err != nil {
		errs += " end:" + err.Error()
		w.Flush()
	}
	final = s.String()
	return
}

func opt(f func(w *xw.Writer)) xw.Option { return func(w *xw.Writer) { f(w) } }

func withBuf(n int) xw.Option { return opt(func(w *xw.Writer) { w.InitialBufSize = n }) }
func noEnforce() xw.Option    { return opt(func(w *xw.Writer) { w.Enforce = false }) }
func lax() xw.Option          { return opt(func(w *xw.Writer) { w.StrictChars = false }) }

var small = &Setup{Opts: []xw.Option{withBuf(64)}}

// smallDo runs f on a fresh writer with a small buffer into the void.
func smallDo(f func(w *xw.Writer) error) error {
	return f(xw.Open(io.Discard, withBuf(16)))
}

// modelState replays ops on a fresh model; ok is false when one of them is not
// plainly accepted.
func modelState(ops []Op) (m *Model, ok bool) {
	m = newModel()
	for _, o := range ops {
		if o.M(m) != Accept {
			return m, false
		}
	}
	return m, true
}

// context is one reachable control state of the writer with a shortest call
// sequence that reaches it.
type context struct {
	key string
	ops []Op
}

// contexts explores the model breadth first over alpha, deduplicating on the
// canonical state, with at most maxOpen nodes open.
func contexts(alpha []Op, maxOpen, maxStates int) (out []context, transitions int) {
	seen := map[string]bool{}
	frontier := []context{{"", nil}}
	seen[newModel().canon()] = true
	out = append(out, frontier[0])
	for len(frontier) > 0 {
		c := frontier[0]
		frontier = frontier[1:]
		for _, o := range alpha {
			ops := append(append([]Op{}, c.ops...), o)
			m, ok := modelState(ops)
			if !ok || m.Depth() > maxOpen {
				continue
			}
			transitions++
			k := m.canon()
			if seen[k] {
				continue
			}
			seen[k] = true
			n := context{k, ops}
			out = append(out, n)
			frontier = append(frontier, n)
			if len(out) >= maxStates {
				return
			}
		}
	}
	return
}

// alphaStates drives the writer into every control state.
func alphaStates() []Op {
	return []Op{
		opStart(xw.Elem{Name: "e"}),
		opStart(xw.Doc{}),
		opStart(xw.DTD{Name: "d"}),
		opStart(xw.DTDAttList{Name: "l"}),
		opStart(xw.Comment{}),
		opStart(xw.CData{}),
		opStart(xw.Elem{Prefix: "p", URI: "u", Name: "n"}),
		opWrite(xw.Text("t")),
		opWrite(xw.CommentContent("c")),
		opWrite(xw.CDataContent("d")),
		opWrite(xw.DTDElem{Name: "x", Decl: "ANY"}),
		opWrite(xw.DTDAttr{Name: "y", Type: xw.DTDAttrID}),
		opWrite(xw.CommentContent("-")),
		opWrite(xw.CDataContent("]")),
		opStart(xw.Comment{Content: "cc"}),
		opStart(xw.CData{Content: "dd"}),
		opStart(xw.Elem{Name: "s", Content: []xw.Writable{xw.Text("x")}}),
		opStart(xw.Elem{Name: "f", Full: true}),
	}
}

// allStrings enumerates every string of up to n items of alpha, shortest first.
func allStrings(alpha []string, n int, f func(s string, parts []string) bool) {
	var rec func(left int, parts []string) bool
	rec = func(left int, parts []string) bool {
		if left == 0 {
			return f(strings.Join(parts, ""), parts)
		}
		for _, a := range alpha {
			if !rec(left-1, append(parts, a)) {
				return false
			}
		}
		return true
	}
	for k := 0; k <= n; k++ {
		if !rec(k, make([]string, 0, k)) {
			return
		}
	}
}

// chunkings calls f with every way of cutting parts into consecutive non-empty
// chunks.
func chunkings(parts []string, f func(chunks []string)) {
	n := len(parts)
	if n == 0 {
		f(nil)
		return
	}
	for mask := 0; mask < 1<<uint(n-1); mask++ {
		var chunks []string
		cur := parts[0]
		for i := 1; i < n; i++ {
			if mask>>uint(i-1)&1 == 1 {
				chunks = append(chunks, cur)
				cur = ""
			}
			cur += parts[i]
		}
		f(append(chunks, cur))
	}
}

// splitMark cuts s around the only occurrence of mark.
func cutOnce(s, mark string) (before, after string, ok bool) {
	i := strings.Index(s, mark)
	if i < 0 || strings.Contains(s[i+len(mark):], mark) {
		return "", "", false
	}
	return s[:i], s[i+len(mark):], true
}
