package main

// C17 the standard indenter, C24 the protocol custom indenters see.

import (
	"errors"
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// --- C17 ------------------------------------------------------------------------

func isWSOnly(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

type layout struct {
	newline string
	indent  string
}

// unindent compares the indented tree with the plain one, allowing inserted
// white space between markup only.
func (l layout) unindent(got, want *XNode, path string) error {
	if got.Kind != want.Kind || got.Name != want.Name || got.Value != want.Value || !sameAttrs(got.Attrs, want.Attrs) || !sameAttrs(got.NS, want.NS) {
		g, w := *got, *want
		g.Kids, w.Kids = nil, nil
		return fmt.Errorf("%s: indented document has %s, want %s", path, g.String(), w.String())
	}
	if got.Kind == "elem" && got.Short != want.Short {
		return fmt.Errorf("%s/%s: written in the short form: %v, without the indenter: %v", path, got.Name, got.Short, want.Short)
	}
	j := 0
	for i, k := range got.Kids {
		if j < len(want.Kids) && sameShallow(k, want.Kids[j]) {
			if err := l.unindent(k, want.Kids[j], fmt.Sprintf("%s/%s[%d]", path, want.Name, j)); err != nil {
				return err
			}
			j++
			continue
		}
		if k.Kind != "text" || !isWSOnly(k.Value) {
			w := "nothing"
			if j < len(want.Kids) {
				w = want.Kids[j].String()
			}
			return fmt.Errorf("%s/%s: the indented document has %s where the plain one has %s", path, got.Name, k.String(), w)
		}
		if got.Kind == "elem" && len(want.Kids) == 0 {
			return fmt.Errorf("%s/%s: the indenter put %q into an empty element", path, got.Name, k.Value)
		}
		for _, d := range []int{i - 1, i + 1} {
			if d >= 0 && d < len(got.Kids) && got.Kids[d].Kind == "cdata" {
				return fmt.Errorf("%s/%s: the indenter put %q next to character data %q", path, got.Name, k.Value, got.Kids[d].Value)
			}
		}
		if err := l.run(k.Value); err != nil {
			return fmt.Errorf("%s/%s: %v", path, got.Name, err)
		}
	}
	if j < len(want.Kids) {
		return fmt.Errorf("%s/%s: the indented document lacks %s", path, got.Name, want.Kids[j].String())
	}
	return nil
}

// run checks one inserted run: newlines, then whole indents.
func (l layout) run(s string) error {
	if s == "" || l.newline == "" {
		return nil
	}
	t := strings.TrimLeft(s, "\n") // the parser has normalised line ends
	n := len(s) - len(t)
	if n == 0 || t != "" && (l.indent == "" || strings.Replace(t, l.indent, "", -1) != "") {
		return fmt.Errorf("inserted white space %q is not a newline followed by indents", s)
	}
	return nil
}

func sameShallow(a, b *XNode) bool {
	if a.Kind != b.Kind || a.Name != b.Name {
		return false
	}
	if a.Kind == "text" {
		return a.Value == b.Value
	}
	return true
}

func judgeIndent(l layout) func(ops []Op, r *runResult) error {
	return func(ops []Op, r *runResult) error {
		if r.Poisoned {
			return nil
		}
		decl, text := false, false
		for _, k := range r.Tree.Kids {
			decl = decl || k.Kind == "xmldecl"
			text = text || k.Kind == "text" || k.Kind == "cdata"
		}
		if decl && text {
			return errSkip // character data outside the root element of a document
		}
		got, err := parseFragment(r.Out)
		if err != nil {
			return fmt.Errorf("%v\noutput: %q", err, clip(r.Out))
		}
		if err := l.unindent(got.mergeText(), r.Tree, ""); err != nil {
			return fmt.Errorf("%v\noutput: %q", err, clip(r.Out))
		}
		// the short forms and everything inside markup: white space aside, the
		// bytes are those of the plain writer
		return nil
	}
}

// --- C24 ------------------------------------------------------------------------

var errIndent = errors.New("indenter failed")

type seenEvent struct {
	last, next xw.Event
	depth      int
}

// probeIndenter records every event, writes a numbered mark through the
// writer, and can fail or wrap.
type probeIndenter struct {
	events []seenEvent
	wraps  []string
	wrap   func(s string) string
	failAt int // 1-based
	mark   int // 0: none, 1: with the indenter detached, 2: guarding against Raw only
}

func (p *probeIndenter) Indent(w *xw.Writer, last xw.Event, next xw.Event) error {
	if p.mark == 2 && next.Node == xw.RawNode {
		return nil
	}
	p.events = append(p.events, seenEvent{last, next, w.Depth()})
	if p.failAt == len(p.events) {
		return errIndent
	}
	switch p.mark {
	case 1:
		w.Indenter = nil
		err := w.WriteRaw(fmt.Sprintf("\x01%d\x02", len(p.events)))
		w.Indenter = p
		return err
	case 2:
		return w.WriteRaw(fmt.Sprintf("\x01%d\x02", len(p.events)))
	}
	return nil
}

func (p *probeIndenter) Wrap(s string) string {
	p.wraps = append(p.wraps, s)
	if p.wrap != nil {
		return p.wrap(s)
	}
	return s
}

func (p *probeIndenter) setup(opts ...xw.Option) *Setup {
	return &Setup{Opts: append([]xw.Option{opt(func(w *xw.Writer) { w.Indenter = p })}, opts...)}
}

func startable(k xw.NodeKind) bool {
	switch k {
	case xw.DocNode, xw.DTDNode, xw.DTDAttListNode, xw.ElemNode, xw.CommentNode, xw.CDataNode:
		return true
	}
	return false
}

// openers: what the bytes announced by an event must begin with.
var openers = map[xw.NodeKind][]string{
	xw.DocNode: {"<?xml"}, xw.DTDNode: {"<!DOCTYPE "}, xw.DTDAttListNode: {"<!ATTLIST "}, xw.ElemNode: {"<"}, xw.CommentNode: {"<!--"},
	xw.CDataNode: {"<![CDATA["}, xw.PINode: {"<?"}, xw.DTDElemNode: {"<!ELEMENT "}, xw.DTDEntityNode: {"<!ENTITY "}, xw.NotationNode: {"<!NOTATION "},
	xw.DTDAttrNode: {" "}, xw.AttrNode: {" ", ""},
}
var openedTokens = map[xw.NodeKind][]string{xw.ElemNode: {">", "/>", " xmlns:"}, xw.DTDNode: {" [", ">", "\x01"}}
var endedTokens = map[xw.NodeKind][]string{xw.ElemNode: {"</"}, xw.CommentNode: {"-->"}, xw.CDataNode: {"]]>"}, xw.DTDNode: {"]>", ">"}, xw.DTDAttListNode: {">"}}

// checkEvents: the stream is one properly nested Open, Opened, Ended triple per
// startable node and one event per leaf.
func checkEvents(evs []seenEvent, counts map[xw.NodeKind]int) error {
	type fr struct {
		k     xw.NodeKind
		state xw.NodeState
	}
	var st []fr
	var prev xw.Event
	prevPI := false
	for i, e := range evs {
		n := e.next
		if e.last.State != prev.State || e.last.Node != prev.Node {
			return fmt.Errorf("event %d (%v %v): last is %v %v, but the transition before it was %v %v", i+1, n.Node, n.State.Name(), e.last.Node, e.last.State.Name(), prev.Node, prev.State.Name())
		}
		if e.last.Children != prev.Children {
			return fmt.Errorf("event %d (%v %v): last has %d children, the transition before it %d", i+1, n.Node, n.State.Name(), e.last.Children, prev.Children)
		}
		prev = n
		if !startable(n.Node) {
			prev = xw.Event{State: xw.StateEnded, Node: n.Node}
			if n.Node == xw.RawNode && prevPI {
				// a PI announces its content as a Raw event of its own
				prev = xw.Event{State: xw.StateEnded, Node: xw.PINode}
				prevPI = false
				continue
			}
			prevPI = n.Node == xw.PINode
			if n.State != xw.StateOpen {
				return fmt.Errorf("event %d: leaf %v in state %v", i+1, n.Node, n.State.Name())
			}
			counts[n.Node]++
			if len(st) > 0 && st[len(st)-1].state == xw.StateOpen && n.Node != xw.AttrNode && n.Node != xw.RawNode {
				return fmt.Errorf("event %d: %v inside a %v that was not announced as opened", i+1, n.Node, st[len(st)-1].k)
			}
			continue
		}
		prevPI = false
		switch n.State {
		case xw.StateOpen:
			if len(st) > 0 && st[len(st)-1].state != xw.StateOpened {
				return fmt.Errorf("event %d: %v opens inside a %v that was not announced as opened", i+1, n.Node, st[len(st)-1].k)
			}
			counts[n.Node]++
			st = append(st, fr{n.Node, n.State})
		case xw.StateOpened:
			if len(st) == 0 || st[len(st)-1] != (fr{n.Node, xw.StateOpen}) {
				return fmt.Errorf("event %d: %v opened, but the open nodes are %v", i+1, n.Node, st)
			}
			st[len(st)-1].state = xw.StateOpened
		case xw.StateEnded:
			if len(st) == 0 || st[len(st)-1] != (fr{n.Node, xw.StateOpened}) {
				return fmt.Errorf("event %d: %v ended, but the open nodes are %v", i+1, n.Node, st)
			}
			st = st[:len(st)-1]
		default:
			return fmt.Errorf("event %d: unknown state %d", i+1, n.State)
		}
	}
	if len(st) > 0 {
		return fmt.Errorf("never announced as ended: %v", st)
	}
	return nil
}

// checkChildren: Event.Children of a startable node is the number of nodes
// announced inside it (explicit calls of Next may add up to slack).
func checkChildren(evs []seenEvent, slack int) error {
	var kids []int
	pi := false
	for i, e := range evs {
		n := e.next
		wasPI := pi
		pi = n.Node == xw.PINode
		if !startable(n.Node) {
			if n.Children != 0 {
				return fmt.Errorf("event %d: %v, which holds nothing, has %d children", i+1, n.Node, n.Children)
			}
			if n.Node == xw.AttrNode || n.Node == xw.RawNode && wasPI {
				continue
			}
			if len(kids) > 0 && n.Node != xw.RawNode {
				kids[len(kids)-1]++
			}
			continue
		}
		switch n.State {
		case xw.StateOpen:
			if len(kids) > 0 {
				kids[len(kids)-1]++
			}
			kids = append(kids, 0)
			if n.Children != 0 {
				return fmt.Errorf("event %d: %v opens with %d children", i+1, n.Node, n.Children)
			}
		case xw.StateOpened:
			if n.Children > 1+slack {
				return fmt.Errorf("event %d: %v has %d children when its first one is written", i+1, n.Node, n.Children)
			}
		case xw.StateEnded:
			if len(kids) == 0 {
				return nil // reported by checkEvents
			}
			k := kids[len(kids)-1]
			kids = kids[:len(kids)-1]
			if n.Children < k || n.Children > k+slack {
				return fmt.Errorf("event %d: %v ends with Children=%d, but %d nodes were written inside it", i+1, n.Node, n.Children, k)
			}
		}
	}
	return nil
}

// modelCounts is how many events of every leaf kind and Open events of every
// startable kind the accepted calls amount to.
func treeCounts(n *XNode, c map[xw.NodeKind]int) {
	switch n.Kind {
	case "xmldecl":
		c[xw.DocNode]++
	case "doctype":
		c[xw.DTDNode]++
	case "elem":
		c[xw.ElemNode]++
	case "cdata":
		c[xw.CDataNode]++
	case "comment":
		c[xw.CommentNode]++
	case "pi":
		c[xw.PINode]++
	case "entity":
		c[xw.DTDEntityNode]++
	case "element":
		c[xw.DTDElemNode]++
	case "attlist":
		c[xw.DTDAttListNode]++
	case "attdef":
		c[xw.DTDAttrNode]++
	case "notation":
		c[xw.NotationNode]++
	}
	for _, k := range n.Kids {
		treeCounts(k, c)
	}
}

var treeKinds = []xw.NodeKind{xw.DocNode, xw.DTDNode, xw.ElemNode, xw.CDataNode, xw.CommentNode, xw.PINode, xw.DTDEntityNode, xw.DTDElemNode, xw.DTDAttListNode, xw.DTDAttrNode, xw.NotationNode}

// splitMarks removes the marks and returns, for each event, where it stood.
func splitMarks(s string) (plain string, at map[int]int, err error) {
	at = map[int]int{}
	var b strings.Builder
	for {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			b.WriteString(s)
			return b.String(), at, nil
		}
		b.WriteString(s[:i])
		s = s[i+1:]
		j := strings.IndexByte(s, 2)
		if j < 0 {
			return "", nil, fmt.Errorf("a mark is torn")
		}
		var n int
		if _, err := fmt.Sscanf(s[:j], "%d", &n); err != nil {
			return "", nil, err
		}
		at[n] = b.Len()
		s = s[j+1:]
	}
}

// protocol checks one accepted history against the indenter protocol.
func protocol(c *Ctx, ops []Op) error {
	// without an indenter
	var s sink
	w := xw.Open(&s)
	wantErrs := apply(w, ops)
	if err := w.EndAllFlush(); err != nil {
		return errSkip
	}
	plainOut := s.String()
	tree, err := parseFragment(plainOut)
	if err != nil {
		return errSkip
	}
	for _, mark := range []int{1, 2} {
		p := &probeIndenter{mark: mark}
		var s sink
		w := p.setup().open(&s)
		if errs := apply(w, ops); errs != wantErrs {
			return fmt.Errorf("with an indenter the calls return %s, without %s", errs, wantErrs)
		}
		if err := w.EndAllFlush(); err != nil {
			return fmt.Errorf("with an indenter: EndAllFlush: %v", err)
		}
		c.res.Traces++
		got, at, err := splitMarks(s.String())
		if err != nil {
			return err
		}
		if got != plainOut {
			return fmt.Errorf("without what the indenter wrote the output is %q, without an indenter %q", clip(got), clip(plainOut))
		}
		if mark == 2 {
			continue // its own Raw events hide the order
		}
		counts := map[xw.NodeKind]int{}
		nexts := strings.Count(wantErrs, "E") // a refused call may or may not count
		for _, o := range ops {
			if o.Desc == "w.Next()" {
				nexts++
			}
		}
		err = checkEvents(p.events, counts)
		if err == nil {
			err = checkChildren(p.events, nexts)
		}
		if err != nil {
			return fmt.Errorf("%v\nevents: %v", err, showEvents(p.events))
		}
		want := map[xw.NodeKind]int{}
		treeCounts(tree, want)
		for _, k := range treeKinds {
			if counts[k] != want[k] {
				return fmt.Errorf("%d open events for %v, but the document has %d\nevents: %v", counts[k], k, want[k], showEvents(p.events))
			}
		}
		for i, e := range p.events {
			pos, ok := at[i+1]
			if !ok {
				return fmt.Errorf("what the indenter wrote at event %d is missing", i+1)
			}
			rest := got[pos:]
			var tokens []string
			switch {
			case e.next.State == xw.StateOpen && e.next.Node == xw.ElemNode:
				if len(rest) < 2 || rest[0] != '<' || strings.IndexByte("/!?", rest[1]) >= 0 {
					return fmt.Errorf("event %d announces an element but what follows is %q", i+1, clip(rest))
				}
			case e.next.State == xw.StateOpen:
				tokens = openers[e.next.Node]
			case e.next.State == xw.StateOpened:
				tokens = openedTokens[e.next.Node]
			case e.next.State == xw.StateEnded && e.next.Node == xw.ElemNode && pos >= 2 && got[pos-2:pos] == "/>":
			case e.next.State == xw.StateEnded:
				tokens = endedTokens[e.next.Node]
			}
			ok = len(tokens) == 0
			for _, t := range tokens {
				ok = ok || strings.HasPrefix(rest, t)
			}
			if !ok {
				return fmt.Errorf("event %d (%v %v) is not right before what it announces: %q follows", i+1, e.next.Node, e.next.State.Name(), clip(rest))
			}
		}
		var sb strings.Builder
		for _, e := range p.events {
			fmt.Fprintf(&sb, "%d.%d ", e.next.Node, e.next.State)
		}
		c.Outcome(sb.String())
	}
	return nil
}

func showEvents(evs []seenEvent) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "%s.%s ", e.next.Node.Name(), e.next.State.Name())
	}
	return b.String()
}

// wrapAlpha is an alphabet whose text-like values pass through f.
func wrapAlpha(f, g func(s string) string) func(i int) []Op {
	return func(i int) []Op {
		k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
		return []Op{
			opStartX(xw.Elem{Name: k("e")}),
			opWriteX(xw.Text(f(k("t")))),
			opWriteX(xw.Text(f(""))),
			opWriteX(xw.CData{Content: k("d")}),
			opStartX(xw.CData{}),
			opWrite(xw.CDataContent(k("q"))),
			opWriteX(xw.Comment{Content: g(k("c"))}),
			opStartX(xw.Comment{}),
			opStartX(xw.Comment{Content: g(k("s"))}),
			opWrite(xw.CommentContent(g(k("m")))),
			opWrite(xw.CommentContent(g(""))),
			opEndAny(),
			opNext(),
			opWriteX(xw.PI{Target: "p", Content: k("z")}),
			opStart(xw.Elem{Name: k("w"), Attrs: []xw.Attr{{Name: "a", Value: k("v")}}, Content: []xw.Writable{xw.Text(f(k("u"))), xw.Comment{Content: g(k("v"))}, xw.CData{Content: "d"}, xw.Elem{Name: "x", Content: []xw.Writable{xw.Text(f(k("y")))}}}}),
			opStart(xw.DTD{Name: k("d")}),
			opWrite(xw.DTDEntity{Name: k("n"), Content: k("ec")}),
			opWriteX(xw.Attr{Name: k("b"), Value: k("bv")}),
		}
	}
}

func indexSeqs(c *Ctx, depth int, prefix []int, alphas []([]Op), f func(idx []int)) {
	var rec func(idx []int, n int)
	rec = func(idx []int, n int) {
		if c.Stop() {
			return
		}
		m := newModel()
		for i, k := range idx {
			if alphas[i][k].M(m) != Accept {
				return
			}
		}
		f(append([]int{}, idx...))
		if n == 0 {
			return
		}
		for k := range alphas[len(idx)] {
			rec(append(idx, k), n-1)
		}
	}
	rec(prefix, depth)
}

func init() {
	register(&Prop{ID: "C17", Level: "model_checking", Rule: ruleSeq + "; the writer has the standard indenter, and the tree that is read back must be the model's plus white space between markup",
		Assumptions: append([]string{"white space may be inserted between two pieces of markup even when an element also has text elsewhere (the indenter documents itself as primitive); it may never touch character data"}, stdAssume...),
		Parts: func(th bool) []Part {
			std := layout{"\n", " "}
			ind := func(l layout) *Setup {
				return &Setup{Opts: []xw.Option{xw.WithIndentString(l.indent), opt(func(w *xw.Writer) { w.NewlineString = l.newline })}}
			}
			plainInd := &Setup{Opts: []xw.Option{xw.WithIndent()}}
			doc := []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}
			return []Part{
				{"full", "every call sequence of up to 3 (thorough: 4) calls over the full alphabet", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 3, 4), setup: plainInd, judge: judgeIndent(std)}, alphaFull)
				}},
				{"in-doc", "the same below an open document and root element", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 3, 4), setup: plainInd, judge: judgeIndent(std), prefix: doc}, alphaFull)
				}},
				{"tree-deep", "element content, longer sequences", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 5, 7), setup: plainInd, judge: judgeIndent(std), pruneRefused: true}, alphaTree)
				}},
				{"tree-deep-in-doc", "element content inside a document, longer sequences", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 5, 6), setup: plainInd, judge: judgeIndent(std), pruneRefused: true, prefix: doc}, alphaTree)
				}},
				{"dtd-deep", "markup declarations", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 4, 5), setup: plainInd, judge: judgeIndent(std), pruneRefused: true, prefix: doc[:1]}, alphaDTD)
				}},
				{"content-deep", "comment and CDATA sections in pieces", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 4, 5), setup: plainInd, judge: judgeIndent(std), prefix: []Op{opStart(xw.Elem{Name: "root"})}}, alphaContent)
				}},
				{"layouts", "the full alphabet, two calls deep in four contexts, with other indent and newline strings", func(c *Ctx) {
					for _, l := range []layout{{"\n", ""}, {"\n", "\t"}, {"\n", "    "}, {"\r\n", "  "}, {"\n\n", " "}, {"", ""}, {"", " "}} {
						for _, pre := range [][]Op{nil, doc, {opStart(xw.Doc{}), opStart(xw.DTD{Name: "d"})}, {opStart(xw.Elem{Name: "a"}), opStart(xw.Elem{Name: "b"}), opWrite(xw.Elem{Name: "c"})}} {
							c.sequences(seqOpts{depth: pick(th, 2, 3), setup: ind(l), judge: judgeIndent(l), prefix: pre, pruneRefused: true}, alphaFull)
						}
					}
				}},
				{"trees", "every forest of up to 5 (thorough: 6) nodes, structured and procedural: same document, and elements that hold only elements have each child on a line of its own at the right indent", func(c *Ctx) {
					forestsLayout(c, pick(th, 5, 6))
				}},
				{"deep", fmt.Sprintf("every nesting depth 1..%d (and every walk of 10 up and down steps from the depths 0, 6, 14, 30, 62, 126), several indent and newline strings, procedural and structured: every element on a line of its own at exactly its depth", pick(th, 200, 800)), func(c *Ctx) {
					ls := []layout{{"\n", " "}, {"\n", "\t"}, {"\n", "    "}, {"\n\n", "  "}, {"\n", ""}}
					judge := func(l layout, f func(w *xw.Writer) error, want string) error {
						out, err := produce(ind(l), f)
						if err != nil {
							return err
						}
						c.res.Traces++
						c.Outcome(out)
						if got := strings.Trim(out, l.newline); got != want {
							return fmt.Errorf("got %q, want %q", clip(got), clip(want))
						}
						return nil
					}
					for d := 1; d <= pick(th, 200, 800); d++ {
						for li, l := range ls {
							for style := 0; style < 4; style++ {
								d, l, style := d, l, style
								c.Case(func() string { return fmt.Sprintf("depth %d, layout %d, style %d", d, li, style) }, func() error {
									// <n0> <a/> <n1> ... </n1> <b/> </n0>
									var want []string
									pad := func(k int) string { return strings.Repeat(l.indent, k) }
									for i := 0; i < d; i++ {
										want = append(want, pad(i)+fmt.Sprintf("<n%d>", i), pad(i+1)+"<a/>")
									}
									for i := d - 1; i >= 0; i-- {
										want = append(want, pad(i+1)+"<b/>", pad(i)+fmt.Sprintf("</n%d>", i))
									}
									return judge(l, func(w *xw.Writer) error {
										var in []xw.Writable
										from := d
										switch style {
										case 1:
											from = 0
										case 2:
											from = d / 2
										}
										for i := d - 1; i >= from; i-- {
											c := append(append([]xw.Writable{xw.Elem{Name: "a"}}, in...), xw.Elem{Name: "b"})
											in = []xw.Writable{xw.Elem{Name: fmt.Sprintf("n%d", i), Content: c}}
										}
										for i := 0; i < from; i++ {
											if err := w.StartElem(xw.Elem{Name: fmt.Sprintf("n%d", i)}); err != nil {
												return err
											}
											if err := w.WriteElem(xw.Elem{Name: "a"}); err != nil {
												return err
											}
										}
										if err := w.Write(in...); err != nil {
											return err
										}
										for i := from - 1; i >= 0; i-- {
											if err := w.WriteElem(xw.Elem{Name: "b"}); err != nil {
												return err
											}
											if style == 3 {
												if err := w.EndAny(); err != nil {
													return err
												}
											} else if err := w.EndElem(fmt.Sprintf("n%d", i)); err != nil {
												return err
											}
										}
										return nil
									}, strings.Join(want, l.newline))
								})
							}
						}
					}
					for _, base := range []int{0, 6, 14, 30, 62, 126} {
						for code := 0; code < 1<<10; code++ {
							for li, l := range ls[:3] {
								base, code, l := base, code, l
								c.Case(func() string { return fmt.Sprintf("walk %010b from depth %d, layout %d", code, base, li) }, func() error {
									type nd struct{ kids []*nd }
									root := &nd{}
									stack := []*nd{root}
									up := func() {
										n := &nd{}
										t := stack[len(stack)-1]
										t.kids = append(t.kids, n)
										stack = append(stack, n)
									}
									var steps []bool
									for i := 0; i < base+1; i++ {
										steps = append(steps, true)
									}
									for i := 0; i < 10; i++ {
										steps = append(steps, code>>uint(i)&1 == 1)
									}
									depth := 0
									for i, s := range steps {
										if s {
											depth++
											up()
										} else if depth > 1 {
											depth--
											stack = stack[:len(stack)-1]
										} else {
											return errSkip
										}
										_ = i
									}
									var want []string
									var ren func(n *nd, d int)
									ren = func(n *nd, d int) {
										p := strings.Repeat(l.indent, d)
										if len(n.kids) == 0 {
											want = append(want, p+"<e/>")
											return
										}
										want = append(want, p+"<e>")
										for _, k := range n.kids {
											ren(k, d+1)
										}
										want = append(want, p+"</e>")
									}
									ren(root.kids[0], 0)
									return judge(l, func(w *xw.Writer) error {
										for _, s := range steps {
											var err error
											if s {
												err = w.StartElem(xw.Elem{Name: "e"})
											} else {
												err = w.EndElem()
											}
											if err != nil {
												return err
											}
										}
										return nil
									}, strings.Join(want, l.newline))
								})
							}
						}
					}
				}},
				{"document-ends", "every legal sequence of up to 4 (thorough: 5) comments, processing instructions, document types and elements in a document, ended by EndDoc, EndAll, End or EndAllFlush: the document ends with exactly one newline", func(c *Ctx) {
					kinds := []struct {
						name string
						f    func(w *xw.Writer) error
					}{
						{"comment", func(w *xw.Writer) error { return w.WriteComment(xw.Comment{Content: "c"}) }},
						{"pi", func(w *xw.Writer) error { return w.WritePI(xw.PI{Target: "p", Content: "x"}) }},
						{"pi without content", func(w *xw.Writer) error { return w.WritePI(xw.PI{Target: "p"}) }},
						{"comment in pieces", func(w *xw.Writer) error { return w.Block(xw.Comment{}, xw.CommentContent("a"), xw.CommentContent("b")) }},
						{"document type", func(w *xw.Writer) error { return w.Block(xw.DTD{Name: "d"}) }},
						{"document type with declarations", func(w *xw.Writer) error {
							return w.Block(xw.DTD{Name: "d"}, xw.DTDElem{Name: "e", Decl: "ANY"}, xw.Comment{Content: "c"})
						}},
						{"short element", func(w *xw.Writer) error { return w.WriteElem(xw.Elem{Name: "e"}) }},
						{"full element", func(w *xw.Writer) error { return w.WriteElem(xw.Elem{Name: "e", Full: true}) }},
						{"element with text", func(w *xw.Writer) error { return w.Block(xw.Elem{Name: "e"}, xw.Text("t")) }},
						{"element with content", func(w *xw.Writer) error {
							return w.WriteElem(xw.Elem{Name: "e", Content: []xw.Writable{xw.Elem{Name: "f"}, xw.Comment{Content: "c"}}})
						}},
						{"element left open", func(w *xw.Writer) error { return w.StartElem(xw.Elem{Name: "e"}) }},
						{"element left open with a child", func(w *xw.Writer) error {
							return w.Start(xw.Elem{Name: "e"}, xw.Elem{Name: "f"}, xw.Comment{Content: "c"})
						}},
					}
					enders := []string{"EndDoc", "EndAll", "EndAllFlush", "EndToDepth(0, DocNode)"}
					var rec func(seq []int, dtd, root bool)
					rec = func(seq []int, dtd, root bool) {
						if c.Stop() {
							return
						}
						if root {
							for ei, en := range enders {
								seq, ei, en := append([]int{}, seq...), ei, en
								desc := func() string {
									var ns []string
									for _, k := range seq {
										ns = append(ns, kinds[k].name)
									}
									return "document of " + strings.Join(ns, ", ") + "; " + en
								}
								c.Case(desc, func() error {
									out, err := produce(plainInd, func(w *xw.Writer) error {
										if err := w.StartDoc(xw.Doc{}); err != nil {
											return err
										}
										for _, k := range seq {
											if err := kinds[k].f(w); err != nil {
												return err
											}
										}
										switch ei {
										case 0:
											return w.EndDoc()
										case 1:
											return w.EndAll()
										case 2:
											return w.EndAllFlush()
										}
										return w.EndToDepth(0, xw.DocNode)
									})
									if err != nil {
										return err
									}
									c.res.Traces++
									c.Outcome(out)
									if !strings.HasSuffix(out, ">\n") || strings.HasSuffix(out, "\n\n") {
										return fmt.Errorf("the document ends in %q", clip(out))
									}
									_, err = parseDocument(out)
									return err
								})
							}
						}
						if len(seq) == pick(th, 4, 5) || len(seq) > 0 && seq[len(seq)-1] >= 10 {
							return
						}
						for k := range kinds {
							switch {
							case k < 4:
								rec(append(seq[:len(seq):len(seq)], k), dtd, root)
							case k < 6 && !dtd && !root:
								rec(append(seq[:len(seq):len(seq)], k), true, root)
							case k >= 6 && !root:
								rec(append(seq[:len(seq):len(seq)], k), dtd, true)
							}
						}
					}
					rec(nil, false, false)
				}},
				{"documents", "every document ends with exactly one newline after the root's end tag", func(c *Ctx) {
					for n := 1; n <= pick(th, 4, 5); n++ {
						forests(n, leaves, elemsFor, func(kids []*tnode) {
							c.Case(func() string { return "document over " + descForest(kids) }, func() error {
								out, err := produce(plainInd, func(w *xw.Writer) error {
									if err := w.StartDoc(xw.Doc{}); err != nil {
										return err
									}
									if err := w.StartElem(xw.Elem{Name: "root"}); err != nil {
										return err
									}
									for _, k := range kids {
										if err := w.Write(k.structured()); err != nil {
											return err
										}
									}
									return w.EndDoc()
								})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(out)
								if !strings.HasSuffix(out, ">\n") || strings.HasSuffix(out, "\n\n") {
									return fmt.Errorf("the document ends in %q", clip(out))
								}
								if _, err := parseDocument(out); err != nil {
									return err
								}
								return nil
							})
						})
					}
				}},
			}
		}})

	register(&Prop{ID: "C24", Level: "model_checking", Rule: "every accepted call sequence up to the stated length over the stated alphabet, with an indenter that records every event and marks the output at every event; the event stream is checked against the protocol automaton and the marks against the document without an indenter; faults: an error at every event; non-trivial = a distinct event stream",
		Assumptions: []string{"a PI announces its content as a Raw event of its own (accepted either way)"},
		Parts: func(th bool) []Part {
			run := func(c *Ctx, depth int, prefix []Op, alpha func(i int) []Op) {
				c.sequences(seqOpts{depth: depth, prefix: prefix, judge: func(ops []Op, r *runResult) error {
					if r.Poisoned {
						return nil
					}
					return protocol(c, ops)
				}}, alpha)
			}
			doc := []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}
			return []Part{
				{"full", "every call sequence of up to 2 (thorough: 3) calls over the full alphabet", func(c *Ctx) { run(c, pick(th, 2, 3), nil, alphaFull) }},
				{"in-doc", "the same below an open document and root element", func(c *Ctx) { run(c, pick(th, 3, 3), doc, alphaFull) }},
				{"in-dtd", "markup declarations", func(c *Ctx) { run(c, pick(th, 3, 4), doc[:1], alphaDTD) }},
				{"refusals", "calls refused for their values mixed with ordinary ones, at the top, in an element and in a DTD", func(c *Ctx) {
					for _, pre := range refusePrefixes {
						run(c, pick(th, 3, 4), pre, alphaRefuse)
					}
				}},
				{"tree-deep", "element content", func(c *Ctx) { run(c, pick(th, 4, 5), nil, alphaTree) }},
				{"content", "comment and CDATA sections in pieces", func(c *Ctx) { run(c, pick(th, 3, 4), []Op{opStart(xw.Elem{Name: "root"})}, alphaContent) }},
				{"wrap", "every accepted sequence of up to 4 (thorough: 5) calls with a wrapping indenter: the output is that of a plain writer given the wrapped values, and Wrap saw each value once in order", func(c *Ctx) {
					wrap := func(s string) string { return "⟦" + s + "⟧" }
					id := func(s string) string { return s }
					n := pick(th, 4, 5)
					raw, pre := make([][]Op, n+1), make([][]Op, n+1)
					for i := range raw {
						raw[i], pre[i] = wrapAlpha(id, id)(i), wrapAlpha(wrap, wrap)(i)
					}
					indexSeqs(c, n, nil, raw, func(idx []int) {
						if !c.Take() {
							return
						}
						a, b := make([]Op, len(idx)), make([]Op, len(idx))
						for i, k := range idx {
							a[i], b[i] = raw[i][k], pre[i][k]
						}
						c.Run(func() string { return descOps(a) + " with Wrap" }, func() error {
							p := &probeIndenter{wrap: wrap}
							got, err := runAll(p.setup(), a)
							if err != nil {
								return err
							}
							want, err := runAll(nil, b)
							if err != nil {
								return err
							}
							c.res.Traces++
							c.Outcome(got)
							if got != want {
								return fmt.Errorf("wrapped output %q, want %q", clip(got), clip(want))
							}
							// each text and comment value reaches Wrap once
							texts := strings.Count(want, "⟦")
							if len(p.wraps) != texts {
								return fmt.Errorf("Wrap was called %d times (%q) for %d values: %q", len(p.wraps), p.wraps, texts, clip(want))
							}
							return nil
						})
					})
				}},
				{"wrap-checked", "what Wrap returns is checked and escaped like the caller's own value, for every string of up to 4 items", func(c *Ctx) { wrapChecked(c, th) }},
				{"indent-errors", "an error from Indent at every event of every accepted sequence of up to 3 calls, and of rich documents, is returned by a call", func(c *Ctx) {
					sweep := func(ops []Op) {
						p := &probeIndenter{}
						w := p.setup().open(&sink{})
						apply(w, ops)
						w.EndAllFlush()
						for k := 1; k <= len(p.events); k++ {
							k := k
							c.Case(func() string {
								return fmt.Sprintf("%s with Indent failing at event %d of %d", descOps(ops), k, len(p.events))
							}, func() error {
								c.res.Traces++
								c.Outcome(fmt.Sprint(descOps(ops), k))
								q := &probeIndenter{failAt: k}
								w := q.setup().open(&sink{})
								for _, o := range ops {
									before := len(q.events)
									err := o.Do(w)
									hit := before < k && len(q.events) >= k
									if err != nil && !hit {
										return fmt.Errorf("%s: unexpected error %v", o.Desc, err)
									}
									if hit {
										if !errors.Is(err, errIndent) {
											return fmt.Errorf("Indent failed during %s, which returned %v", o.Desc, err)
										}
										return nil
									}
								}
								if err := w.EndAllFlush(); !errors.Is(err, errIndent) {
									return fmt.Errorf("Indent failed during EndAllFlush, which returned %v", err)
								}
								return nil
							})
						}
					}
					for _, ops := range richDocs() {
						sweep(ops)
					}
					for n := 1; n <= pick(th, 2, 3); n++ {
						for _, pre := range [][]mop{nil, {{opStart(xw.Doc{}), ""}, {opStart(xw.Elem{Name: "root"}), ""}}, {{opStart(xw.Doc{}), ""}, {opStart(xw.DTD{Name: "root"}), ""}}} {
							mseqs(pre, n, func(ms []mop) bool { sweep(plain(ms)); return !c.Stop() })
						}
					}
				}},
			}
		}})
}

func descForest(kids []*tnode) string {
	var b strings.Builder
	for _, k := range kids {
		k.canonical(&b)
	}
	return b.String()
}

func forestsLayout(c *Ctx, max int) {
	simple := func(i int) []xw.Elem { return []xw.Elem{{Name: fmt.Sprintf("e%d", i)}} }
	lv := func(i int) []*tnode {
		return append(leaves(i), &tnode{kind: "text", text: " "})
	}
	for n := 1; n <= max; n++ {
		forests(n, lv, simple, func(kids []*tnode) {
			if !c.Take() {
				return
			}
			c.Run(func() string { return descForest(kids) }, func() error {
				var outs []string
				for _, style := range []int{0, 1} {
					out, err := produce(&Setup{Opts: []xw.Option{xw.WithIndentString("  ")}}, func(w *xw.Writer) error {
						if err := w.StartElem(xw.Elem{Name: "root"}); err != nil {
							return err
						}
						styles := make([]int, 32)
						for i := range styles {
							styles[i] = style
						}
						for _, k := range kids {
							next := 0
							if err := k.write(w, styles, &next); err != nil {
								return err
							}
						}
						return nil
					})
					if err != nil {
						return err
					}
					plainOut, err := produce(nil, func(w *xw.Writer) error {
						return w.WriteElem((&tnode{kind: "elem", elem: xw.Elem{Name: "root"}, kids: kids}).structured().(xw.Elem))
					})
					if err != nil {
						return err
					}
					want, err := parseFragment(plainOut)
					if err != nil {
						return err
					}
					got, err := parseFragment(out)
					if err != nil {
						return fmt.Errorf("%v: %q", err, out)
					}
					c.res.Traces++
					if err := (layout{"\n", "  "}).unindent(got.mergeText(), want.mergeText(), ""); err != nil {
						return fmt.Errorf("%v\noutput: %q", err, out)
					}
					if err := lines(got, 0, layout{"\n", "  "}); err != nil {
						return fmt.Errorf("%v\noutput: %q", err, out)
					}
					outs = append(outs, out)
				}
				c.Outcome(outs[0])
				return nil
			})
		})
	}
}

// lines: an element that holds only elements has each on its own line, indented
// one step more than itself, and its end tag on a line of its own.
func lines(n *XNode, depth int, l layout) error {
	elems, other := 0, false
	for _, k := range n.Kids {
		switch {
		case k.Kind == "elem":
			elems++
		case k.Kind == "text" && isWSOnly(k.Value) && strings.HasPrefix(k.Value, readBack(l.newline)):
		default:
			other = true
		}
	}
	if n.Kind == "elem" && elems > 0 && !other {
		for i, k := range n.Kids {
			if k.Kind != "elem" {
				d := depth + 1
				if i == len(n.Kids)-1 {
					d = depth
				}
				if want := l.newline + strings.Repeat(l.indent, d); k.Value != want {
					return fmt.Errorf("in %s: line break %q, want %q", n.Name, k.Value, want)
				}
				continue
			}
			if i == 0 || n.Kids[i-1].Kind == "elem" || i == len(n.Kids)-1 {
				return fmt.Errorf("%s inside %s does not have a line of its own", k.Name, n.Name)
			}
		}
	}
	d := depth
	if n.Kind == "elem" {
		d++
	}
	for _, k := range n.Kids {
		if err := lines(k, d, l); err != nil {
			return err
		}
	}
	return nil
}

// wrapChecked: what Wrap returns is treated like the caller's own value.
func wrapChecked(c *Ctx, th bool) {
	allStrings([]string{"-", "<", "&", ">", "a", "\x01", "\r", "\xff"}, pick(th, 4, 5), func(s string, _ []string) bool {
		c.Case(func() string { return fmt.Sprintf("Wrap returning %q", s) }, func() error {
			for _, kind := range []string{"text", "content", "comment", "deferred"} {
				do := func(w *xw.Writer, v string) error {
					switch kind {
					case "text":
						if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
							return err
						}
						return w.WriteText(v)
					case "content":
						if err := w.StartComment(xw.Comment{}); err != nil {
							return err
						}
						return w.WriteCommentContent(v)
					case "comment":
						return w.WriteComment(xw.Comment{Content: v})
					}
					return w.WriteElem(xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(v), xw.Comment{Content: v}}})
				}
				if s == "" && (kind == "comment" || kind == "deferred") {
					continue // an empty Content is no content
				}
				p := &probeIndenter{wrap: func(string) string { return s }}
				got, gerr := produce(p.setup(), func(w *xw.Writer) error { return do(w, "orig") })
				want, werr := produce(nil, func(w *xw.Writer) error { return do(w, s) })
				c.res.Traces++
				if (gerr == nil) != (werr == nil) || gerr == nil && got != want {
					return fmt.Errorf("%s: Wrap returning %q gives %q (%v); writing %q gives %q (%v)", kind, s, got, gerr, s, want, werr)
				}
			}
			c.Outcome(s)
			return nil
		})
		return !c.Stop()
	})
}
