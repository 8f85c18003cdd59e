package main

// Operations: one public API call each, applied to the real Writer and to the
// model, and the runner that compares the two after every call.

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

type Op struct {
	Desc string
	Do   func(w *xw.Writer) error
	M    func(m *Model) Verdict
	// the nodes the call carries: Start and those below it (a Block), Start
	// alone, or Nodes alone (a Write)
	Starts []xw.Startable
	Nodes  []xw.Writable
	Block  bool
}

// describe prints a node as Go source, without zero fields.
func describe(v interface{}) string {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		if rv.Type().Name() == "string" {
			return fmt.Sprintf("%q", rv.String())
		}
		return fmt.Sprintf("%s(%q)", rv.Type().Name(), rv.String())
	case reflect.Struct:
		var fs []string
		for i := 0; i < rv.NumField(); i++ {
			f := rv.Type().Field(i)
			if f.PkgPath != "" || rv.Field(i).IsZero() {
				continue
			}
			fs = append(fs, f.Name+": "+describe(rv.Field(i).Interface()))
		}
		return rv.Type().Name() + "{" + strings.Join(fs, ", ") + "}"
	case reflect.Slice:
		var fs []string
		for i := 0; i < rv.Len(); i++ {
			fs = append(fs, describe(rv.Index(i).Interface()))
		}
		return "{" + strings.Join(fs, ", ") + "}"
	case reflect.Ptr:
		if rv.IsNil() {
			return "nil"
		}
		return "&" + describe(rv.Elem().Interface())
	}
	return fmt.Sprintf("%v", v)
}

func opStart(n xw.Startable) Op {
	return Op{Desc: "w.Start(" + describe(n) + ")", Do: func(w *xw.Writer) error { return w.Start(n) }, M: func(m *Model) Verdict { return m.Start(n) }, Starts: []xw.Startable{n}}
}

// opStartX uses the named start method of the node's kind.
func opStartX(n xw.Startable) Op {
	o := opStart(n)
	switch t := n.(type) {
	case xw.Doc:
		o.Desc, o.Do = "w.StartDoc("+describe(n)+")", func(w *xw.Writer) error { return w.StartDoc(t) }
	case xw.DTD:
		o.Desc, o.Do = "w.StartDTD("+describe(n)+")", func(w *xw.Writer) error { return w.StartDTD(t) }
	case xw.DTDAttList:
		o.Desc, o.Do = "w.StartDTDAttList("+describe(n)+")", func(w *xw.Writer) error { return w.StartDTDAttList(t) }
	case xw.Elem:
		o.Desc, o.Do = "w.StartElem("+describe(n)+")", func(w *xw.Writer) error { return w.StartElem(t) }
	case xw.Comment:
		o.Desc, o.Do = "w.StartComment("+describe(n)+")", func(w *xw.Writer) error { return w.StartComment(t) }
	case xw.CData:
		o.Desc, o.Do = "w.StartCData("+describe(n)+")", func(w *xw.Writer) error { return w.StartCData(t) }
	}
	return o
}

func opWrite(n xw.Writable) Op {
	return Op{Desc: "w.Write(" + describe(n) + ")", Do: func(w *xw.Writer) error { return w.Write(n) }, M: func(m *Model) Verdict { return m.Write(n) }, Nodes: []xw.Writable{n}}
}

// opWriteX uses the named write method of the node's kind.
func opWriteX(n xw.Writable) Op {
	o := opWrite(n)
	set := func(name, arg string, f func(w *xw.Writer) error) { o.Desc, o.Do = "w."+name+"("+arg+")", f }
	d := describe(n)
	switch t := n.(type) {
	case xw.Attr:
		set("WriteAttr", d, func(w *xw.Writer) error { return w.WriteAttr(t) })
	case xw.Text:
		set("WriteText", describe(string(t)), func(w *xw.Writer) error { return w.WriteText(string(t)) })
	case xw.PI:
		set("WritePI", d, func(w *xw.Writer) error { return w.WritePI(t) })
	case xw.Comment:
		set("WriteComment", d, func(w *xw.Writer) error { return w.WriteComment(t) })
	case xw.CData:
		set("WriteCData", d, func(w *xw.Writer) error { return w.WriteCData(t) })
	case xw.Elem:
		set("WriteElem", d, func(w *xw.Writer) error { return w.WriteElem(t) })
	case xw.CommentContent:
		set("WriteCommentContent", describe(string(t)), func(w *xw.Writer) error { return w.WriteCommentContent(string(t)) })
	case xw.CDataContent:
		set("WriteCDataContent", describe(string(t)), func(w *xw.Writer) error { return w.WriteCDataContent(string(t)) })
	case xw.DTDElem:
		set("WriteDTDElem", d, func(w *xw.Writer) error { return w.WriteDTDElem(t) })
	case xw.DTDEntity:
		set("WriteDTDEntity", d, func(w *xw.Writer) error { return w.WriteDTDEntity(t) })
	case xw.DTDAttr:
		set("WriteDTDAttr", d, func(w *xw.Writer) error { return w.WriteDTDAttr(t) })
	case xw.DTDAttList:
		set("WriteDTDAttList", d, func(w *xw.Writer) error { return w.WriteDTDAttList(t) })
	case xw.Notation:
		set("WriteNotation", d, func(w *xw.Writer) error { return w.WriteNotation(t) })
	}
	return o
}

func opBlock(s xw.Startable, ns ...xw.Writable) Op {
	d := "w.Block(" + describe(s)
	for _, n := range ns {
		d += ", " + describe(n)
	}
	return Op{Desc: d + ")", Do: func(w *xw.Writer) error { return w.Block(s, ns...) }, M: func(m *Model) Verdict {
		if v := m.Start(s); v != Accept {
			return v
		}
		for _, n := range ns {
			if v := m.Write(n); v != Accept {
				return deferred(v)
			}
		}
		return deferred(m.pop())
	}, Starts: []xw.Startable{s}, Nodes: ns, Block: true}

}

func opNext() Op {
	return Op{Desc: "w.Next()", Do: func(w *xw.Writer) error { return w.Next() }, M: func(m *Model) Verdict { return deferred(m.next()) }}
}

func kindConst(k xw.NodeKind) string {
	for n, s := range map[xw.NodeKind]string{xw.DocNode: "DocNode", xw.DTDNode: "DTDNode", xw.DTDAttListNode: "DTDAttListNode",
		xw.ElemNode: "ElemNode", xw.CommentNode: "CommentNode", xw.CDataNode: "CDataNode"} {
		if n == k {
			return s
		}
	}
	return fmt.Sprintf("NodeKind(%d)", int(k))
}

func quoteAll(ss []string) string {
	out := ""
	for _, s := range ss {
		out += fmt.Sprintf(", %q", s)
	}
	return out
}

func opEnd(k xw.NodeKind, name ...string) Op {
	return Op{Desc: "w.End(" + kindConst(k) + quoteAll(name) + ")", Do: func(w *xw.Writer) error { return w.End(k, name...) }, M: func(m *Model) Verdict { return m.End(k, name...) }}

}

func opEndElem(name ...string) Op {
	return Op{Desc: "w.EndElem(" + strings.TrimPrefix(quoteAll(name), ", ") + ")", Do: func(w *xw.Writer) error { return w.EndElem(name...) }, M: func(m *Model) Verdict { return m.End(xw.ElemNode, name...) }}

}

func opEndElemFull(name ...string) Op {
	return Op{Desc: "w.EndElemFull(" + strings.TrimPrefix(quoteAll(name), ", ") + ")", Do: func(w *xw.Writer) error { return w.EndElemFull(name...) }, M: func(m *Model) Verdict { return m.EndElemFull(name...) }}

}

// opEndX uses the named end method of a kind.
func opEndX(k xw.NodeKind) Op {
	o := opEnd(k)
	set := func(n string, f func(w *xw.Writer) error) { o.Desc, o.Do = "w."+n+"()", f }
	switch k {
	case xw.CommentNode:
		set("EndComment", func(w *xw.Writer) error { return w.EndComment() })
	case xw.CDataNode:
		set("EndCData", func(w *xw.Writer) error { return w.EndCData() })
	case xw.DTDNode:
		set("EndDTD", func(w *xw.Writer) error { return w.EndDTD() })
	case xw.DTDAttListNode:
		set("EndDTDAttList", func(w *xw.Writer) error { return w.EndDTDAttList() })
	case xw.ElemNode:
		set("EndElem", func(w *xw.Writer) error { return w.EndElem() })
	}
	return o
}

func opEndAny() Op {
	return Op{Desc: "w.EndAny()", Do: func(w *xw.Writer) error { return w.EndAny() }, M: func(m *Model) Verdict { return m.pop() }}
}
func opEndAll() Op {
	return Op{Desc: "w.EndAll()", Do: func(w *xw.Writer) error { return w.EndAll() }, M: func(m *Model) Verdict { return m.EndAll() }}
}
func opEndDoc() Op {
	return Op{Desc: "w.EndDoc()", Do: func(w *xw.Writer) error { return w.EndDoc() }, M: func(m *Model) Verdict { return m.EndDoc() }}
}
func opFlush() Op {
	return Op{Desc: "w.Flush()", Do: func(w *xw.Writer) error { return w.Flush() }, M: func(m *Model) Verdict { return Accept }}
}

// opEndScope ends everything above the first `open` nodes, the way a caller
// does who recorded Depth() when `open` nodes were open.
func opEndScope(open int, k xw.NodeKind, name ...string) Op {
	return Op{Desc: fmt.Sprintf("w.EndToDepth(<Depth() when %d nodes were open>, %s%s)", open, kindConst(k), quoteAll(name)), Do: func(w *xw.Writer) error { return w.EndToDepth(depthFor(open), k, name...) }, M: func(m *Model) Verdict { return m.EndToDepth(open, k, name...) }}

}

// depthFor is what Depth() returns when `open` nodes are open, learnt from the
// library itself (see the known finding of C07 on its absolute value).
var depthCache = map[int]int{}

func depthFor(open int) int {
	if d, ok := depthCache[open]; ok {
		return d
	}
	w := xw.Open(io.Discard)
	for i := 0; i < open; i++ {
		if err := w.StartElem(xw.Elem{Name: "x"}); err != nil {
			panic(err)
		}
	}
	d := w.Depth()
	depthCache[open] = d
	return d
}

func descOps(ops []Op) string {
	ds := make([]string, len(ops))
	for i, o := range ops {
		ds[i] = o.Desc
	}
	return strings.Join(ds, "; ")
}

// sink is the default destination; it refuses runaway output.
type sink struct {
	b []byte
}

const runaway = 64 << 20

func (s *sink) Write(p []byte) (int, error) {
	if len(s.b)+len(p) > runaway {
		panic("runaway output: more than 64 MiB")
	}
	s.b = append(s.b, p...)
	return len(p), nil
}
func (s *sink) String() string { return string(s.b) }

type Setup struct {
	Opts  []xw.Option
	Model func(m *Model)
	// Enc opens a writer other than the default
	Open func(dst io.Writer) *xw.Writer
}

func (s *Setup) open(dst io.Writer) *xw.Writer {
	if s != nil && s.Open != nil {
		return s.Open(dst)
	}
	if s != nil {
		return xw.Open(dst, s.Opts...)
	}
	return xw.Open(dst)
}

// runResult is one validated trace.
type runResult struct {
	Out      string // bytes after closing everything and flushing
	Tree     *XNode // what the model says the reader must see
	Poisoned bool
	Verdicts []Verdict
	Final    string // canonical model state before closing
}

var depthBase = depthFor(0)

// rec, when set, records the canonical model states and the calls of every
// trace runOps validates (for the checks that do not go through sequences).
var rec *Ctx

// runOps applies ops to a fresh real writer and a fresh model and compares
// every verdict and the depth; then closes both. errSkip: out of scope.
func runOps(ops []Op, st *Setup) (*runResult, error) {
	var s sink
	w := st.open(&s)
	m := newModel()
	if st != nil && st.Model != nil {
		st.Model(m)
	}
	r := &runResult{}
	for i, o := range ops {
		if rec != nil {
			before := m.canon()
			rec.State(before)
			rec.Trans(before, o.Desc)
		}
		v := o.M(m)
		if v == Out {
			return nil, errSkip
		}
		err := o.Do(w)
		r.Verdicts = append(r.Verdicts, v)
		switch {
		case v == Accept && err != nil:
			return nil, fmt.Errorf("call %d %s must be accepted but returned: %v", i+1, o.Desc, err)
		case v != Accept && err == nil:
			return nil, fmt.Errorf("call %d %s must be refused (%s) but returned nil", i+1, o.Desc, v)
		case v == Poison:
			r.Poisoned = true
			return r, nil
		}
		if d := w.Depth() - depthBase; d != m.Depth() {
			return nil, fmt.Errorf("after call %d %s: %d nodes open according to Depth(), want %d", i+1, o.Desc, d, m.Depth())
		}
	}
	r.Final = m.canon()
	if f := m.top(); f != nil && f.Kind == "comment" && strings.HasSuffix(f.Node.Value+f.content, "-") {
		// cannot be closed like this; the caller has to add something
		if v := m.commentContent("."); v != Accept {
			return nil, errSkip
		}
		if err := w.WriteCommentContent("."); err != nil {
			return nil, fmt.Errorf("content that completes a comment refused: %v", err)
		}
	}
	v := m.EndAll()
	err := w.EndAllFlush()
	switch {
	case v == Poison:
		if err == nil {
			return nil, fmt.Errorf("EndAllFlush must report the error of deferred content but returned nil")
		}
		r.Poisoned = true
		return r, nil
	case v != Accept:
		return nil, errSkip
	case err != nil:
		return nil, fmt.Errorf("EndAllFlush: %v", err)
	}
	if w.Depth() != depthBase {
		return nil, fmt.Errorf("EndAllFlush left Depth() = %d", w.Depth())
	}
	r.Out = s.String()
	r.Tree = m.Finish()
	return r, nil
}

// checkTree parses the output and compares it with the model's tree.
func checkTree(r *runResult, short bool) error {
	got, err := parseFragment(r.Out)
	if err != nil {
		return fmt.Errorf("%v\noutput: %q", err, clip(r.Out))
	}
	if d := diffNodes(got.mergeText(), r.Tree, "", short); d != "" {
		return fmt.Errorf("%s\noutput: %q", d, clip(r.Out))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 800 {
		return s[:400] + "..." + s[len(s)-400:]
	}
	return s
}

// --- exhaustive enumeration of call sequences -----------------------------

type seqOpts struct {
	depth int
	// prune sequences that continue after a refused call
	pruneRefused bool
	setup        *Setup
	prefix       []Op
	judge        func(ops []Op, r *runResult) error
	minLen       int
	countOnlyMax bool
}

// sequences runs every sequence of up to o.depth calls from the alphabets
// (alpha(i) is the alphabet of position i).
func (c *Ctx) sequences(o seqOpts, alpha func(i int) []Op) {
	alphas := make([][]Op, o.depth)
	for i := range alphas {
		alphas[i] = alpha(i)
	}
	var rec func(seq []Op, n int)
	rec = func(seq []Op, n int) {
		if c.Stop() {
			return
		}
		// the model alone decides whether the sequence can be extended
		m := newModel()
		if o.setup != nil && o.setup.Model != nil {
			o.setup.Model(m)
		}
		var before string
		v := Accept
		for i, op := range seq {
			if i == len(seq)-1 {
				before = m.canon()
			}
			v = op.M(m)
			if v == Out || v == Poison {
				break
			}
		}
		if n >= o.minLen && v != Out && c.Take() {
			ops := append([]Op{}, seq...)
			c.Run(func() string { return descOps(ops) }, func() error {
				r, err := runOps(ops, o.setup)
				if err != nil {
					return err
				}
				c.res.Traces++
				if len(ops) > 0 {
					c.State(before)
					c.Trans(before, ops[len(ops)-1].Desc)
				}
				if r.Final != "" {
					c.State(r.Final)
				}
				c.Outcome(r.Out)
				if o.judge != nil {
					if err := o.judge(ops, r); err != nil {
						return err
					}
				}
				if c.part.Evals%50021 == 17 {
					c.Sample(descOps(ops) + " => " + fmt.Sprintf("%q", clip(r.Out)))
				}
				return nil
			})
		}
		if n == o.depth || v == Out || v == Poison || v == Refuse && o.pruneRefused {
			return
		}
		for _, op := range alphas[n] {
			rec(append(seq, op), n+1)
		}
	}
	rec(append([]Op{}, o.prefix...), 0)
}
