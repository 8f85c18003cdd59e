package main

// Generators under judges: the values, lists, pairs, repetitions, depths and
// coincidences that C01-C14 explore against the reference model are explored
// again under the properties that compare two runs of the real code.

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/unicode"
)

type judgeFn func(c *Ctx, ops []Op) error

// judged runs a generator under a judge.
func judged(p Part, how string, j judgeFn) Part {
	return Part{"x-" + p.Name, how + "; over: " + p.What, func(c *Ctx) {
		c.judge = j
		defer func() { c.judge = nil }()
		p.Run(c)
	}}
}

// generators are the case generators of the cross product.
func generators(th bool) []Part {
	rename := func(p Part, n string) Part { p.Name = n; return p }
	return []Part{
		sweepBounds(th, "values", pick(th, 34, 72), pick(th, 4200, 1<<16), "name", "text", "attr", "comment", "cdata", "pi", "public", "system", "decl"),
		prefixesPart(th), listsPart(th), rename(pairsPart("declarations"), "pairs-of-declarations"), rename(pairsPart("attdefs"), "pairs-of-attdefs"), rename(pairsPart("content"), "pairs-of-content"),
		rename(elemCoincidences(), "elements"), repeatPart(th), blocksPart(th),
		atDepthBounds(th, deepDepthsCross(th), "every kind of node through every entry point, every End variant", func() []Op { return append(append(probes(), badNodes()...), enders()...) }),
		uriPairsPart(), nameFieldsPart(), delimFieldsPart(nil),
		wordsPart(th), reservedPart(!th), docsPart(th), countsPart(th), attrListsPart(pick(th, 3, 4), pick(th, 18, 40)), contentTreesPart(1), attDefListsPart(pick(th, 3, 4), pick(th, 18, 40)),
	}
}

// as renames a part.
func as(name string, p Part) Part { p.Name = name; return p }

func cross(id, how string, j judgeFn, except ...string) {
	addParts(id, func(th bool) []Part {
		var out []Part
		for _, g := range generators(th) {
			if strings.Contains(" "+strings.Join(except, " ")+" ", " "+g.Name+" ") {
				continue
			}
			out = append(out, judged(g, how, j))
		}
		return out
	})
}

// clean reports whether every call and the closing were accepted.
func clean(errs string) bool { return strings.Trim(errs, ".") == "" }

// sameAs compares a run under st with a reference run.
func sameAs(c *Ctx, what string, st *Setup, ops []Op, want, errs string) error {
	_, got, gotErrs := snapshot(st, ops)
	if gotErrs != errs {
		return fmt.Errorf("%s the calls return %s, otherwise %s", what, gotErrs, errs)
	}
	if got != want {
		return fmt.Errorf("%s the output is %q, otherwise %q", what, clip(got), clip(want))
	}
	return nil
}

// judgeLax: what is accepted with the checks on is written the same without.
func judgeLax(c *Ctx, ops []Op) error {
	switch r, err := runOps(ops, &Setup{Opts: []xw.Option{withBuf(64), lax()}, Model: func(m *Model) { m.Strict = false }}); {
	case err == errSkip:
	case err != nil:
		return fmt.Errorf("with StrictChars off: %v", err)
	case !r.Poisoned:
		if err := checkTree(r, true); err != nil {
			return fmt.Errorf("with StrictChars off: %v", err)
		}
	}
	_, want, errs := snapshot(small, ops)
	if !clean(errs) {
		// what is refused stays refused after writers without validation
		snapshot(&Setup{Opts: []xw.Option{lax()}}, ops)
		snapshot(&Setup{Opts: []xw.Option{noEnforce()}}, ops)
		return sameAs(c, "with validation, after a writer without,", small, ops, want, errs)
	}
	c.Outcome(want)
	for _, st := range []*Setup{{Opts: []xw.Option{noEnforce()}}, {Opts: []xw.Option{lax()}}, {Opts: []xw.Option{noEnforce(), lax()}}} {
		if err := sameAs(c, "without validation", st, ops, want, errs); err != nil {
			return err
		}
	}
	if err := sameAs(c, "with validation, after writers without,", small, ops, want, errs); err != nil {
		return err
	}
	_, want, errs = snapshot(&Setup{Opts: []xw.Option{xw.WithIndent()}}, ops)
	return sameAs(c, "without validation, indented,", &Setup{Opts: []xw.Option{noEnforce(), lax(), xw.WithIndent()}}, ops, want, errs)
}

// judgeBuf: buffer sizes and flushes do not show.
func judgeBuf(c *Ctx, ops []Op) error {
	_, want, errs := snapshot(&Setup{Opts: []xw.Option{withBuf(1 << 18)}}, ops)
	c.Outcome(want)
	for _, bs := range []int{1, 16, 2048} {
		if err := sameAs(c, fmt.Sprintf("with a buffer of %d", bs), bufSetup(bs), ops, want, errs); err != nil {
			return err
		}
	}
	var s sink
	w := xw.Open(&s, withBuf(64))
	for i, o := range ops {
		if (o.Do(w) != nil) != (errs[i] == 'E') {
			return fmt.Errorf("with a Flush after every call: call %d does not return what it does without", i+1)
		}
		if errs[i] == '.' && strings.HasPrefix(o.Desc, "w.EndAllFlush") {
			continue
		}
		if err := w.Flush(); err != nil {
			return errSkip // deferred content was refused
		}
		if len(ops) > 2000 && i%997 != 0 {
			continue // comparing the whole document again is quadratic
		}
		if !strings.HasPrefix(want, s.String()) {
			return fmt.Errorf("after a Flush the sink holds %q, in the end it is %q", clip(s.String()), clip(want))
		}
	}
	if err := w.EndAllFlush(); (err == nil) != !strings.Contains(errs, "end:") {
		return fmt.Errorf("with a Flush after every call: EndAllFlush: %v", err)
	}
	if clean(errs) && s.String() != want {
		return fmt.Errorf("with a Flush after every call the output is %q, otherwise %q", clip(s.String()), clip(want))
	}
	return nil
}

// judgeStdIndent: the standard indenter changes layout only.
func judgeStdIndent(c *Ctx, ops []Op) error {
	for i, st := range []struct {
		st *Setup
		l  layout
	}{
		{&Setup{Opts: []xw.Option{withBuf(64), xw.WithIndent()}}, layout{"\n", " "}},
		{&Setup{Opts: []xw.Option{withBuf(64), xw.WithIndentString("\t\t")}}, layout{"\n", "\t\t"}},
	} {
		r, err := runOps(ops, st.st)
		if err != nil {
			return err
		}
		if i == 0 {
			c.Outcome(r.Out)
		}
		if err := judgeIndent(st.l)(ops, r); err != nil {
			return err
		}
		if got, err := parseFragment(r.Out); err == nil && !r.Poisoned && !mentions(ops, "Text", "CData", "Raw") {
			if err := lines(got.mergeText(), 0, st.l); err != nil {
				return fmt.Errorf("%v\noutput: %q", err, clip(r.Out))
			}
		}
	}
	return nil
}

// mentions reports whether a call involves one of the kinds; an empty text is
// nothing a reader sees, but it is content.
func mentions(ops []Op, kinds ...string) bool {
	for _, o := range ops {
		for _, k := range kinds {
			if strings.Contains(o.Desc, k) {
				return true
			}
		}
	}
	return false
}

// judgeEncoded: through an encoder the text is that of the plain writer.
func judgeEncoded(c *Ctx, ops []Op) error {
	_, want, errs := snapshot(small, ops)
	if !utf8.ValidString(want) {
		return errSkip
	}
	c.Outcome(want)
	for _, e := range crossEncs {
		if e.enc != nil {
			if _, err := e.enc.NewEncoder().String(want); err != nil {
				continue
			}
		}
		enc := e.enc
		st := &Setup{Open: func(dst io.Writer) *xw.Writer {
			return xw.OpenEncoding(dst, "UTF-8", enc.NewEncoder(), withBuf(24))
		}}
		_, got, gotErrs := snapshot(st, ops)
		if strings.Contains(errs, "E") != strings.Contains(gotErrs, "E") || clean(errs) != clean(gotErrs) {
			return fmt.Errorf("in %s the calls return %s, in UTF-8 %s", e.name, gotErrs, errs)
		}
		dec, err := enc.NewDecoder().String(got)
		if err != nil {
			return fmt.Errorf("in %s: %v", e.name, err)
		}
		if dec != want {
			return fmt.Errorf("in %s the document reads %q, in UTF-8 %q", e.name, clip(dec), clip(want))
		}
	}
	return nil
}

var crossEncs = []struct {
	name string
	enc  encoding.Encoding
}{
	{"UTF-16 big-endian", unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)},
	{"UTF-16 little-endian", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)},
	{"ISO 8859-1", charmap.ISO8859_1}, {"Shift JIS", japanese.ShiftJIS},
}

type crossHistory struct {
	ops      []Op
	out      string
	verdicts string
}

var crossHistoryMemo []crossHistory

// crossHistories end where they began, at the top level, and leave nothing
// behind.
func crossHistories() []crossHistory {
	if crossHistoryMemo != nil {
		return crossHistoryMemo
	}
	for _, h := range [][]Op{
		{opWrite(nest(20, "deep")), opWrite(xw.Elem{Prefix: "p", URI: "other", Name: "x", Attrs: []xw.Attr{{Prefix: "q", URI: "other", Name: "x", Value: "v"}}})},
		{opStart(xw.Elem{Name: "x"}), opEndElem("nope"), opWrite(xw.Attr{}), opWrite(xw.DTDElem{Name: "no", Decl: "ANY"}), opWrite(xw.CData{Content: "]]"}), opWriteX(xw.Text("]]")), opEndAny()},
		{opStart(xw.Comment{Content: "-"}), opWrite(xw.CommentContent("x-")), opWrite(xw.CommentContent("y")), opEndAny(), opStart(xw.Elem{Name: "y"}), opStart(xw.CData{Content: "]"}), opWrite(xw.CDataContent("]")), opEndAny(), opFlush(), opEndAll()},
		{opStart(xw.DTD{Name: "d", SystemID: "s"}), opStart(xw.DTDAttList{Name: "l"}), opWrite(xw.DTDAttr{Name: "a", Type: "ID"}), opEndAny(), opWrite(xw.DTDEntity{Name: "n", Content: "c\""}), opEndAny(), opFlush()},
		{opWrite(xw.Elem{Name: "long", Attrs: []xw.Attr{{Name: "a", Value: strings.Repeat("x<", 60)}}, Content: []xw.Writable{xw.Text(strings.Repeat("&y", 600)), xw.Comment{Content: strings.Repeat("c", 300)}}}), opWrite(xw.PI{Target: "t", Content: strings.Repeat("p", 300)})},
	} {
		_, out, _ := snapshot(small, h)
		vs, ok := verdicts(h)
		if !ok {
			panic("harness: a history the model does not know")
		}
		crossHistoryMemo = append(crossHistoryMemo, crossHistory{h, out, vs})
	}
	return crossHistoryMemo
}

// verdicts are the model's answers to ops.
func verdicts(ops []Op) (string, bool) {
	m := newModel()
	var s strings.Builder
	for _, o := range ops {
		v := o.M(m)
		if v == Out || v == Poison {
			return "", false
		}
		s.WriteString(v.String() + "|")
	}
	return s.String(), true
}

// judgeHistory: calls write the same whatever complete nodes were written
// before them.
func judgeHistory(c *Ctx, ops []Op) error {
	_, want, errs := snapshot(small, ops)
	c.Outcome(want)
	alone, ok := verdicts(ops)
	if !ok {
		return errSkip
	}
	for i, h := range crossHistories() {
		all := append(append([]Op{}, h.ops...), ops...)
		if vs, ok := verdicts(all); !ok || vs != h.verdicts+alone {
			continue
		}
		_, got, gotErrs := snapshot(small, all)
		if !strings.HasPrefix(got, h.out) {
			return fmt.Errorf("history %d: %q does not begin with %q", i, clip(got), clip(h.out))
		}
		if got[len(h.out):] != want || gotErrs[len(h.ops):] != errs {
			return fmt.Errorf("after history %d the calls write %q (%s), alone %q (%s)", i, clip(got[len(h.out):]), gotErrs[len(h.ops):], clip(want), errs)
		}
	}
	return judgeHistoryIndented(c, ops, len(want)+len(ops))
}

// judgeHistoryIndented: after one of the histories (pick says which) the
// indented output is, layout aside, what the calls write alone.
func judgeHistoryIndented(c *Ctx, ops []Op, pick int) error {
	r, err := runOps(ops, small)
	if err != nil || r.Poisoned {
		return nil // decided elsewhere
	}
	alone, ok := verdicts(ops)
	if !ok {
		return nil
	}
	doc := []Op{opStart(xw.Doc{}), opStart(xw.DTD{Name: "x"}), opWrite(xw.DTDElem{Name: "x", Decl: "ANY"}), opEndAny(), opStart(xw.Elem{Name: "x"}), opWrite(xw.Elem{Name: "y"}), opWrite(xw.Comment{Content: "c"}), opEndAll()}
	hs := crossHistories()
	h, text := doc, false
	if k := pick % (len(hs) + 1); k < len(hs) {
		h = hs[k].ops
	}
	for _, k := range r.Tree.Kids {
		text = text || k.Kind == "text" || k.Kind == "cdata"
	}
	if text && (len(h) == len(doc) || pick%2 == 0) {
		h = hs[0].ops // text after a document has ended is left out
	}
	hv, ok := verdicts(h)
	all := append(append([]Op{}, h...), ops...)
	vs, ok2 := verdicts(all)
	if !ok || !ok2 || vs != hv+alone {
		return nil
	}
	st := &Setup{Opts: []xw.Option{withBuf(64), xw.WithIndentString("\t")}}
	_, out, hErrs := snapshot(st, h)
	_, got, errs := snapshot(st, all)
	if strings.Contains(errs, "end:") || strings.Contains(hErrs, "end:") {
		return nil // a comment that cannot be closed
	}
	if !strings.HasPrefix(got, out) {
		return fmt.Errorf("indented: %q does not begin with %q", clip(got), clip(out))
	}
	r.Out = got[len(out):]
	if err := judgeIndent(layout{"\n", "\t"})(ops, r); err != nil && err != errSkip {
		return fmt.Errorf("indented, after %q: %v", clip(out), err)
	}
	return nil
}

// judgeTwice: the same calls (the same values) on two fresh writers, and after
// a run that was cut short by a failing sink, write the same.
func judgeTwice(c *Ctx, ops []Op) error {
	_, want, errs := snapshot(small, ops)
	c.Outcome(want)
	f := &faultSink{at: 1}
	w := xw.Open(f, withBuf(16))
	for _, o := range ops {
		o.Do(w)
	}
	w.EndAllFlush()
	return sameAs(c, "the second time", small, ops, want, errs)
}

// judgeFault: a failing write is reported, whichever it is.
func judgeFault(c *Ctx, ops []Op) error {
	open := func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(48)) }
	cf := &faultSink{}
	w := open(cf)
	if !clean(apply(w, ops)) || w.EndAllFlush() != nil {
		return errSkip
	}
	all := string(cf.b)
	seen := map[int]bool{}
	closable := true
	m := newModel()
	for _, o := range ops {
		if v := o.M(m); v == Out || v == Poison {
			return errSkip
		}
		closable = closable && !dangling(m)
	}
	for _, at := range []int{1, 2, 3, (cf.n + 1) / 2, cf.n - 1, cf.n} {
		if at < 1 || at > cf.n || seen[at] {
			continue
		}
		seen[at] = true
		for _, kind := range []int{0, 1} {
			for _, goOn := range []bool{false, true} {
				if !goOn && !closable {
					continue // stopping half way would itself be an error
				}
				if err := checkFault(c, open, ops, false, all, at, kind, kind == 0, goOn); err != nil {
					return fmt.Errorf("sink write %d of %d, %s, carries on %v: %v", at, cf.n, faultNames[kind], goOn, err)
				}
			}
		}
	}
	return nil
}

// judgeInterleaved: another writer doing the same kind of calls in between does
// not show.
func judgeInterleaved(c *Ctx, ops []Op) error {
	open := func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(16)) }
	a := script{"A", open, ops}
	outA, errA := a.solo()
	c.Outcome(outA)
	for _, b := range crossPartners() {
		b.open = open
		outB, errB := b.solo()
		pa, pb := newStepper(a), newStepper(b)
		for i := 0; i < a.steps() || i < b.steps(); i++ {
			pb.step()
			pa.step()
		}
		if err := pa.check(outA, errA); err != nil {
			return err
		}
		if err := pb.check(outB, errB); err != nil {
			return err
		}
	}
	// against itself
	pa, pb := newStepper(a), newStepper(a)
	for i := 0; i < a.steps(); i++ {
		pa.step()
		if i > 0 {
			pb.step()
		}
	}
	pb.step()
	if err := pa.check(outA, errA); err != nil {
		return err
	}
	return pb.check(outA, errA)
}

// dangling reports whether the innermost node is a comment that ends in a
// hyphen and so cannot be closed yet.
func dangling(m *Model) bool {
	f := m.top()
	return f != nil && f.Kind == "comment" && strings.HasSuffix(f.Node.Value+f.content, "-")
}

// judgeProtocol is protocol for calls the model knows.
func judgeProtocol(c *Ctx, ops []Op) error {
	m := newModel()
	for _, o := range ops {
		if v := o.M(m); v == Out || v == Poison {
			return errSkip
		}
	}
	if err := protocol(c, ops); err != nil {
		return err
	}
	return indentFails(ops)
}

// indentFails: a call during which Indent fails returns its error.
func indentFails(ops []Op) error {
	run := func(k int) (*probeIndenter, *xw.Writer, string, error) {
		q := &probeIndenter{failAt: k}
		w := q.setup().open(&sink{})
		for _, o := range ops {
			before := len(q.events)
			err := o.Do(w)
			switch hit := k > 0 && before < k && len(q.events) >= k; {
			case hit && !errors.Is(err, errIndent):
				return q, w, o.Desc, fmt.Errorf("it returned %v", err)
			case hit:
				return q, w, o.Desc, nil
			case err != nil:
				return q, w, o.Desc, errSkip
			}
		}
		err := w.EndAllFlush()
		if k > 0 && !errors.Is(err, errIndent) {
			return q, w, "EndAllFlush", fmt.Errorf("it returned %v", err)
		}
		return q, w, "EndAllFlush", nil
	}
	q, _, _, err := run(0)
	if err != nil {
		return nil
	}
	n := len(q.events)
	for k := 1; k <= n; k++ {
		if k > 3 && k < n-2 && k != n/2 {
			continue
		}
		if _, _, what, err := run(k); err != nil {
			return fmt.Errorf("Indent fails at event %d of %d, during %s: %v", k, n, what, err)
		}
	}
	return nil
}

func crossPartners() []script {
	return []script{
		{"B", nil, []Op{opStart(xw.Elem{Prefix: "p", URI: "b", Name: "b", Attrs: []xw.Attr{{Name: "a", Value: "<b>"}}}), opWrite(xw.Text("b&b")), opStart(xw.Comment{Content: "b-"}), opWrite(xw.CommentContent("b")), opEndAny(), opStart(xw.CData{Content: "b]"}), opWrite(xw.CDataContent("]b")), opEndAny()}},
		{"C", nil, []Op{opStart(xw.DTD{Name: "c"}), opStart(xw.DTDAttList{Name: "c", Attrs: []xw.DTDAttr{{Name: "c", Type: "ID"}}}), opWrite(xw.DTDAttr{Name: "d", Type: "CDATA", Value: "c\"c"}), opEndAny(), opWrite(xw.DTDEntity{Name: "c", Content: "c'c"}), opEndAny()}},
	}
}

// judgeEnders: EndAll, EndDoc and EndToDepth do what EndAny calls do.
func judgeEnders(c *Ctx, ops []Op) error {
	m := newModel()
	for _, o := range ops {
		if v := o.M(m); v == Out || v == Poison {
			return errSkip
		}
	}
	if dangling(m) {
		return errSkip
	}
	n := m.Depth()
	run := func(end func(w *xw.Writer) error) (string, error) {
		var s sink
		w := small.open(&s)
		apply(w, ops)
		if d := w.Depth() - depthBase; d != n {
			return "", fmt.Errorf("Depth() is %d with %d nodes open", d, n)
		}
		if err := end(w); err != nil {
			return "", err
		}
		err := w.Flush()
		return fmt.Sprintf("%s|%d", s.String(), w.Depth()-depthBase), err
	}
	anys := func(k int) func(w *xw.Writer) error {
		return func(w *xw.Writer) error {
			for i := 0; i < k; i++ {
				if err := w.EndAny(); err != nil {
					return err
				}
			}
			return nil
		}
	}
	same := func(what string, k int, end func(w *xw.Writer) error) error {
		want, err := run(anys(k))
		if err != nil {
			return fmt.Errorf("%d calls of EndAny: %v", k, err)
		}
		got, err := run(end)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if got != want {
			return fmt.Errorf("%s leaves %q, EndAny called %d times %q", what, clip(got), k, clip(want))
		}
		c.Outcome(got)
		return nil
	}
	if err := same("EndAll", n, func(w *xw.Writer) error { return w.EndAll() }); err != nil {
		return err
	}
	if n > 0 && m.Stack[0].Kind == "doc" {
		if err := same("EndDoc", n, func(w *xw.Writer) error { return w.EndDoc() }); err != nil {
			return err
		}
	}
	for open := 0; open < n; open++ {
		if open > 1 && open < n-4 && open != n/2 {
			continue
		}
		f := m.Stack[open]
		for k, ks := range kindOf {
			right := ks == f.Kind
			do := func(w *xw.Writer) error { return w.EndToDepth(depthFor(open), k) }
			what := fmt.Sprintf("EndToDepth(%d, %v) of %d", open, k, n)
			if right {
				if err := same(what, n-open, do); err != nil {
					return err
				}
				if f.Kind == "elem" {
					if err := same(what+" with the name", n-open, func(w *xw.Writer) error { return w.EndToDepth(depthFor(open), k, f.Name) }); err != nil {
						return err
					}
					if err := same(what+" with prefix and name", n-open, func(w *xw.Writer) error { return w.EndToDepth(depthFor(open), k, f.Prefix, f.Name) }); err != nil {
						return err
					}
					if _, err := run(func(w *xw.Writer) error { return w.EndToDepth(depthFor(open), k, f.Name+"x") }); err == nil {
						return fmt.Errorf("%s with another name returned nil", what)
					}
				}
				continue
			}
			if _, err := run(do); err == nil {
				return fmt.Errorf("%s, where %s is open, returned nil", what, f.Kind)
			}
		}
	}
	// depths at which no node is open
	refused := func(what string, before func(w *xw.Writer) error, calls []refusedCall) error {
		want, err := run(before)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		got, err := run(func(w *xw.Writer) error {
			if err := before(w); err != nil {
				return err
			}
			d := w.Depth()
			for _, rc := range calls {
				if rc.do(w) == nil {
					return fmt.Errorf("%s returned nil", rc.what())
				}
				if w.Depth() != d {
					return fmt.Errorf("the refused %s takes Depth() from %d to %d", rc.what(), d, w.Depth())
				}
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("%s, with %d nodes open before: %v", what, n, err)
		}
		if got != want {
			return fmt.Errorf("%s: refused EndToDepth calls leave %q, without them %q", what, clip(got), clip(want))
		}
		return nil
	}
	toDepth := func(open int) []refusedCall {
		var out []refusedCall
		for k := range kindOf {
			k := k
			for _, names := range [][]string{nil, {"e"}, {"p", "e"}} {
				names := names
				if names != nil && k != xw.ElemNode {
					continue
				}
				out = append(out, refusedCall{func() string { return fmt.Sprintf("EndToDepth(%d, %v, %q)", open, k, names) }, func(w *xw.Writer) error { return w.EndToDepth(depthBase+open, k, names...) }})
			}
		}
		return out
	}
	var calls []refusedCall
	for _, open := range []int{n, n + 1, -1} {
		calls = append(calls, toDepth(open)...)
	}
	if err := refused("at the end of the calls", anys(0), calls); err != nil {
		return err
	}
	calls = []refusedCall{{func() string { return "EndAny" }, func(w *xw.Writer) error { return w.EndAny() }}, {func() string { return "EndElem" }, func(w *xw.Writer) error { return w.EndElem() }}, {func() string { return "EndElemFull" }, func(w *xw.Writer) error { return w.EndElemFull() }}}
	for _, open := range []int{0, n - 1} {
		calls = append(calls, toDepth(open)...)
	}
	if err := refused("after EndAll", func(w *xw.Writer) error { return w.EndAll() }, calls); err != nil {
		return err
	}
	if n > 1 {
		return refused("after EndAny", anys(1), toDepth(n-1))
	}
	return nil
}

type refusedCall struct {
	what func() string
	do   func(w *xw.Writer) error
}

// judgeDropped: a history without its refused calls writes the same.
func judgeDropped(c *Ctx, ops []Op) error {
	m := newModel()
	var kept []Op
	n := 0
	for _, o := range ops {
		v := o.M(m)
		if v == Out || v == Poison || v != Accept && v != Refuse {
			return errSkip
		}
		if v == Accept {
			kept = append(kept, o)
			continue
		}
		n++
	}
	if n == 0 {
		return errSkip
	}
	for _, st := range []*Setup{small, {Opts: []xw.Option{withBuf(64), xw.WithIndent()}}} {
		_, got, errs := snapshot(st, ops)
		_, want, wantErrs := snapshot(st, kept)
		if st == small {
			c.Outcome(got)
		}
		if strings.Count(errs, "E") != n {
			return fmt.Errorf("%d calls must be refused, the calls return %s", n, errs)
		}
		if strings.Contains(errs, ":") != strings.Contains(wantErrs, ":") {
			return fmt.Errorf("closing: %s with the refused calls, %s without", errs, wantErrs)
		}
		if got != want {
			return fmt.Errorf("the output is %q, without the refused calls %q", clip(got), clip(want))
		}
	}
	return nil
}

// judgeNext: ending a start tag with Next before content changes nothing.
func judgeNext(c *Ctx, ops []Op) error {
	err := judgeRawNothing(c, ops)
	if err != nil && err != errSkip {
		return err
	}
	if e := judgeNext1(c, ops); e != errSkip {
		return e
	}
	return err
}

// judgeRawNothing: writing an empty Raw after a call changes nothing.
func judgeRawNothing(c *Ctx, ops []Op) error {
	if len(ops) > 12 {
		return errSkip
	}
	_, want, errs := snapshot(small, ops)
	c.Outcome(want)
	for i := 0; i <= len(ops); i++ {
		with := append(append(append([]Op{}, ops[:i]...), rawNothing), ops[i:]...)
		_, got, errs2 := snapshot(small, with)
		if len(errs2) <= i || errs2[i] != '.' {
			return fmt.Errorf("an empty Raw as call %d is refused (%s)", i+1, errs2)
		}
		if got != want || errs2[:i]+errs2[i+1:] != errs {
			return fmt.Errorf("with an empty Raw as call %d the calls return %s and the output is %q, without it %s, %q", i+1, errs2, clip(got), errs, clip(want))
		}
	}
	return nil
}

var rawNothing = Op{Desc: `w.WriteRaw("")`, Do: func(w *xw.Writer) error { return w.WriteRaw("") }}

func judgeNext1(c *Ctx, ops []Op) error {
	m := newModel()
	var with []Op
	n := 0
	for i, o := range ops {
		f := m.top()
		startTag := f != nil && f.Kind == "elem" && f.Open
		before := m.Depth()
		if o.M(m) != Accept {
			return errSkip
		}
		if startTag && m.Depth() >= before {
			// is this call content of the element?
			trial, _ := modelState(ops[:i])
			if opNext().M(trial) == Accept && o.M(trial) == Accept && trial.canon() == m.canon() {
				with = append(with, opNext())
				n++
			}
		}
		with = append(with, o)
	}
	if n == 0 {
		return errSkip
	}
	_, want, errs := snapshot(small, ops)
	if !clean(errs) {
		return errSkip
	}
	_, got, errs2 := snapshot(small, with)
	if !clean(errs2) {
		return fmt.Errorf("with Next before content the calls return %s", errs2)
	}
	c.Outcome(got)
	if got != want {
		return fmt.Errorf("with Next before content the output is %q, without %q", clip(got), clip(want))
	}
	return nil
}

// --- ends with names ---------------------------------------------------------

// judgeEndNames: after the calls every End that names another kind or another
// name is refused without effect, and one that fits is accepted.
func judgeEndNames(c *Ctx, ops []Op) error {
	m := newModel()
	for _, o := range ops {
		if v := o.M(m); v == Out || v == Poison {
			return errSkip
		}
	}
	f := m.top()
	if f == nil {
		return errSkip
	}
	all := append([]Op{}, ops...)
	var fits []Op
	open := m.Depth() - 1
	for _, k := range []xw.NodeKind{xw.ElemNode, xw.DTDNode, xw.DTDAttListNode, xw.CommentNode, xw.CDataNode, xw.DocNode, xw.AttrNode, xw.NoNode, xw.TextNode} {
		for _, ns := range [][]string{nil, {f.Name}, {f.Name + "x"}, {""}, {f.Prefix, f.Name}, {f.Prefix + "x", f.Name}, {f.Prefix, f.Name + "x"}, {"", f.Name}, {f.Name, f.Prefix}, {qname(f.Prefix, f.Name)}, {f.Prefix, f.Name, ""}} {
			var os []Op
			os = append(os, opEnd(k, ns...), opEndScope(open, k, ns...))
			if k == xw.ElemNode {
				os = append(os, opEndElem(ns...), opEndElemFull(ns...))
			}
			if kindOf[k] == f.Kind && m.ends(f, k, ns) {
				fits = append(fits, os...)
			} else {
				all = append(all, os...)
			}
		}
	}
	n := len(ops) + len(f.Name)
	st := small
	if n%3 == 0 {
		st = &Setup{Opts: []xw.Option{withBuf(64), xw.WithIndentString("")}}
	}
	for i := 0; i < 2; i++ {
		r, err := runOps(append(all, fits[(n+i*5)%len(fits)]), st)
		if err != nil {
			return err
		}
		c.Outcome(r.Out)
		if st == small && !r.Poisoned {
			if err := checkTree(r, true); err != nil {
				return err
			}
		}
		all = ops
	}
	return nil
}

// --- structured and procedural ---------------------------------------------------

// procWrite writes a node by the procedural calls.
func procWrite(w *xw.Writer, n xw.Writable) error {
	switch t := n.(type) {
	case xw.Elem:
		if err := procStart(w, t); err != nil {
			return err
		}
		return w.EndElem()
	case xw.Comment:
		if err := procStart(w, t); err != nil {
			return err
		}
		return w.EndComment()
	case xw.CData:
		if err := procStart(w, t); err != nil {
			return err
		}
		return w.EndCData()
	case xw.DTDAttList:
		if err := procStart(w, t); err != nil {
			return err
		}
		return w.EndDTDAttList()
	}
	return opWriteX(n).Do(w)
}

// procStart starts a node bare and then adds what it carries.
func procStart(w *xw.Writer, s xw.Startable) error {
	switch t := s.(type) {
	case xw.Elem:
		if err := w.StartElem(xw.Elem{Prefix: t.Prefix, URI: t.URI, Name: t.Name, Full: t.Full}); err != nil {
			return err
		}
		for _, a := range t.Attrs {
			if err := w.WriteAttr(a); err != nil {
				return err
			}
		}
		for _, k := range t.Content {
			if err := procWrite(w, k); err != nil {
				return err
			}
		}
		return nil
	case xw.Comment:
		if err := w.StartComment(xw.Comment{}); err != nil || t.Content == "" {
			return err
		}
		return w.WriteCommentContent(t.Content)
	case xw.CData:
		if err := w.StartCData(xw.CData{}); err != nil || t.Content == "" {
			return err
		}
		return w.WriteCDataContent(t.Content)
	case xw.DTDAttList:
		if err := w.StartDTDAttList(xw.DTDAttList{Name: t.Name}); err != nil {
			return err
		}
		for _, a := range t.Attrs {
			if err := w.WriteDTDAttr(a); err != nil {
				return err
			}
		}
		return nil
	}
	return opStartX(s).Do(w)
}

// procedural turns calls that carry nodes into procedural calls. Attributes
// may follow a start that carries content (it is kept back), so such a start is
// only taken apart when they do not.
func procedural(ops []Op) (out []Op, changed bool) {
	for i, o := range ops {
		o := o
		if len(o.Starts)+len(o.Nodes) == 0 {
			out = append(out, o)
			continue
		}
		late := false
		after := o.Nodes
		if !o.Block && i+1 < len(ops) {
			after = ops[i+1].Nodes
		}
		for _, n := range after {
			_, a := n.(xw.Attr)
			late = late || a
		}
		if e, ok := lastElem(o.Starts); late && ok && len(e.Content) > 0 {
			out = append(out, o)
			continue
		}
		changed = true
		out = append(out, Op{Desc: o.Desc, M: o.M, Do: func(w *xw.Writer) error {
			for _, s := range o.Starts {
				if err := procStart(w, s); err != nil {
					return err
				}
			}
			for _, n := range o.Nodes {
				if err := procWrite(w, n); err != nil {
					return err
				}
			}
			if !o.Block {
				return nil
			}
			return w.EndAny()
		}})
	}
	return
}

func lastElem(ss []xw.Startable) (e xw.Elem, ok bool) {
	if len(ss) > 0 {
		e, ok = ss[len(ss)-1].(xw.Elem)
	}
	return
}

// judgeProcedural: what is written by values is what the procedural calls
// write.
func judgeProcedural(c *Ctx, ops []Op) error {
	m := newModel()
	for _, o := range ops {
		if v := o.M(m); v == Out || v == Poison {
			return errSkip
		}
	}
	proc, changed := procedural(ops)
	if !changed {
		return errSkip
	}
	for i, st := range []*Setup{small, {Opts: []xw.Option{withBuf(64), xw.WithIndent()}}} {
		_, want, errs := snapshot(st, proc)
		_, got, gotErrs := snapshot(st, ops)
		if clean(errs) != clean(gotErrs) {
			return fmt.Errorf("configuration %d: by values the calls return %s, by procedural calls %s", i, gotErrs, errs)
		}
		if !clean(errs) {
			if i == 0 {
				continue
			}
			return nil
		}
		c.Outcome(got)
		if got != want {
			return fmt.Errorf("configuration %d: by values %q, by procedural calls %q", i, clip(got), clip(want))
		}
	}
	return nil
}

func init() {
	for _, id := range []string{"C01", "C02", "C26"} {
		id := id
		addParts(id, func(th bool) []Part {
			var out []Part
			for _, g := range generators(th) {
				for _, have := range []string{"lists", "elements", "repeated-calls", "blocks", "delimiters"} {
					if id != "C26" && g.Name == have {
						g.Name = ""
					}
				}
				if g.Name == "" || id == "C26" && (g.Name == "values" || g.Name == "delimiters" || strings.HasPrefix(g.Name, "pairs-of-d") || g.Name == "prefixes") {
					continue
				}
				g.Name = "x-" + g.Name
				out = append(out, g)
			}
			return out
		})
	}
	addParts("C04", func(th bool) []Part { return []Part{sectionPart(th), switchedPart(pick(th, 4, 5))} })
	plain := func() []*Setup {
		return []*Setup{small, {Opts: []xw.Option{withBuf(3000), noEnforce()}}, {Open: func(dst io.Writer) *xw.Writer {
			return xw.OpenEncoding(dst, "UTF-8", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM).NewEncoder(), withBuf(24))
		}}}
	}
	indented := func() []*Setup {
		return []*Setup{{Opts: []xw.Option{withBuf(64), xw.WithIndent()}}, {Opts: []xw.Option{xw.WithIndentString("\t")}}}
	}
	addParts("C08", func(th bool) []Part {
		return []Part{countsPart(th), periodicPart(th, "with and without validation, and through an encoder", plain, nil)}
	})
	addParts("C14", func(th bool) []Part {
		return []Part{countsPart(th), periodicPart(th, "plain, without validation, through an encoder, and indented, inside a DTD", func() []*Setup { return append(plain(), indented()...) }, func(h []Op) bool { return len(h) > 0 && strings.Contains(h[0].Desc, "DTD") })}
	})
	addParts("C17", func(th bool) []Part { return []Part{periodicPart(th, "indented", indented, nil)} })
	addParts("C19", func(th bool) []Part {
		return []Part{layoutsPart(th), docsPart(th), as("indented", judged(docsPart(th), "with the standard indenter, two layouts", judgeStdIndent)), as("encoded", judged(docsPart(th), "through encoders", judgeEncoded)), as("later", judged(docsPart(th), "after histories", judgeHistory))}
	})
	addParts("C05", func(th bool) []Part { return []Part{partialPart()} })
	addParts("C09", func(th bool) []Part { return []Part{as("refused-parts", partialPart()), otherContentPart()} })
	addParts("C23", func(th bool) []Part { return []Part{discouragedPart(), uncheckedPart(), misplacedPart()} })
	for _, id := range []string{"C01", "C26"} {
		addParts(id, func(th bool) []Part { return []Part{contentTreesPart(2)} })
	}
	addParts("C09", func(th bool) []Part {
		return []Part{judged(contentTreesPart(2), "every call that carries nodes against the procedural calls, indented and not", judgeProcedural)}
	})
	addParts("C14", func(th bool) []Part { return []Part{attDefListsPart(4, pick(th, 20, 60))} })
	addParts("C22", func(th bool) []Part { return []Part{attrValuesPart(th)} })
	addParts("C10", func(th bool) []Part { return []Part{attrListsPart(pick(th, 4, 5), pick(th, 18, 40))} })
	addParts("C03", func(th bool) []Part { return []Part{as("attribute-orders", attrListsPart(4, 9))} })
	addParts("C03", func(th bool) []Part { return []Part{wordsPart(true, "text", "attr")} })
	addParts("C04", func(th bool) []Part { return []Part{wordsPart(true, "comment", "cdata", "pi")} })
	addParts("C12", func(th bool) []Part { return []Part{wordsPart(true, "name")} })
	addParts("C14", func(th bool) []Part { return []Part{wordsPart(true, "public", "system")} })
	addParts("C10", func(th bool) []Part { return []Part{reservedPart(false)} })
	cross("C09", "every call that carries nodes against the procedural calls, indented and not", judgeProcedural)
	cross("C05", "the same calls without the refused ones write the same, plain and indented", judgeDropped)
	cross("C06", "after the calls every End of another kind or name is refused and has no effect, and one that fits ends the node", judgeEndNames, "blocks", "delimiters", "words", "elements", "reserved")
	addParts("C16", func(th bool) []Part { return []Part{encOptionsPart(th)} })
	addParts("C18", func(th bool) []Part { return []Part{rawSweepPart(th)} })
	cross("C07", "after the calls, EndAll, EndDoc and EndToDepth to every depth (every kind, right and wrong name) equal EndAny calls", judgeEnders)
	cross("C15", "buffers of 1, 16, 2048 bytes and one larger than the document, and a Flush after every call", judgeBuf)
	cross("C16", "through encoders (UTF-16 both ways, and ISO 8859-1 and Shift JIS where they can represent the document) the decoded document is that of the plain writer", judgeEncoded)
	cross("C17", "with the standard indenter, two layouts", judgeStdIndent)
	cross("C18", "Next before the first content of every open element, and an empty Raw before or after any call, change nothing", judgeNext)
	cross("C21", "interleaved call by call with two other writers and with a writer doing the same calls", judgeInterleaved)
	cross("C22", "after each of 5 histories of complete nodes the calls write the same", judgeHistory)
	cross("C23", "with Enforce, StrictChars or both off, accepted calls write the same", judgeLax)
	cross("C24", "the event protocol, the plain output around the indenter's marks, and an Indent that fails at one of the first three, middle and last three events", judgeProtocol)
	cross("C27", "a fault at the first three, middle and last two sink writes", judgeFault)
}
