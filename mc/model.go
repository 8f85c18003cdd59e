package main

// The reference model: what the documentation says each call does, kept as a
// stack of open nodes and a tree of what the reader must see. It knows nothing
// about bytes, buffers or how the library is organised.

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

type Verdict int

const (
	Accept Verdict = iota
	Refuse         // must return an error and have no effect
	Poison         // must return an error; what happens to the writer afterwards is not promised
	Out            // outside the properties' preconditions: not judged
)

func (v Verdict) String() string { return [...]string{"accept", "refuse", "poison", "out"}[v] }

type Frame struct {
	Kind   string // doc dtd attlist elem comment cdata
	Prefix string
	Name   string
	Open   bool // start tag (or equivalent) not yet closed
	Kids   bool // anything was put inside
	Full   bool
	NS     map[string]string
	Node   *XNode

	content  string        // comment, cdata: deferred
	kids     []xw.Writable // elem: deferred
	attrs    []xw.DTDAttr  // attlist: deferred
	hadKids  bool
	attNames map[string]bool
}

type Model struct {
	Stack   []*Frame
	Root    *XNode
	Strict  bool
	Version string
	Enc     string
	// NewName is false when the caller wants every name checked as the spec
	// says; the alphabets only use names on which spec and library agree.
}

func newModel() *Model {
	return &Model{Root: &XNode{Kind: "frag"}, Strict: true, Enc: "UTF-8"}
}

func (m *Model) Depth() int { return len(m.Stack) }

func (m *Model) top() *Frame {
	if len(m.Stack) == 0 {
		return nil
	}
	return m.Stack[len(m.Stack)-1]
}

func (m *Model) cur() string {
	if f := m.top(); f != nil {
		return f.Kind
	}
	return "none"
}

// canon is the canonical form of the control state: what later calls' accept /
// refuse decisions and framing can depend on.
func (m *Model) canon() string {
	var b strings.Builder
	for i, f := range m.Stack {
		fmt.Fprintf(&b, "%s:%s", f.Kind, f.Name)
		if f.Open {
			b.WriteByte('<')
		}
		if f.Kids {
			b.WriteByte('+')
		}
		if f.Full {
			b.WriteByte('F')
		}
		if f.Open && len(f.kids) > 0 {
			fmt.Fprintf(&b, "c%d", len(f.kids))
		}
		if f.Open && f.content != "" {
			b.WriteByte('d')
		}
		if i == len(m.Stack)-1 && f.Node != nil {
			v := f.Node.Value + f.content
			switch f.Kind {
			case "comment":
				if strings.HasSuffix(v, "-") {
					b.WriteByte('-')
				}
			case "cdata":
				if strings.HasSuffix(v, "]]") {
					b.WriteString("]]")
				} else if strings.HasSuffix(v, "]") {
					b.WriteString("]")
				}
			}
		}
		var ps []string
		for p, u := range f.NS {
			ps = append(ps, p+"="+u)
		}
		sort.Strings(ps)
		b.WriteString(strings.Join(ps, ","))
		b.WriteByte('/')
	}
	return b.String()
}

func (m *Model) container() *XNode {
	for i := len(m.Stack) - 1; i >= 0; i-- {
		if m.Stack[i].Node != nil {
			return m.Stack[i].Node
		}
	}
	return m.Root
}

func (m *Model) add(n *XNode) { c := m.container(); c.Kids = append(c.Kids, n) }

var allowedParents = map[string]string{
	"doc":            "none",
	"dtd":            "none doc",
	"attlist":        "none dtd",
	"dtdattr":        "none attlist",
	"dtdelem":        "none dtd",
	"dtdentity":      "none dtd",
	"notation":       "none dtd",
	"elem":           "none doc elem",
	"attr":           "none elem",
	"text":           "none elem",
	"cdata":          "none elem",
	"cdatacontent":   "none cdata",
	"comment":        "none doc dtd elem",
	"commentcontent": "none comment",
	"pi":             "none doc elem",
}

func (m *Model) allowed(kind string) bool {
	cur := m.cur()
	for _, p := range strings.Fields(allowedParents[kind]) {
		if p == cur {
			return true
		}
	}
	return false
}

// next closes the start tag of the innermost node because something is about
// to be written inside it.
func (m *Model) next() Verdict {
	f := m.top()
	if f == nil {
		return Accept
	}
	f.Kids = true
	if f.Open {
		return m.opened(f)
	}
	return Accept
}

func (m *Model) opened(f *Frame) Verdict {
	f.Open = false
	switch f.Kind {
	case "comment":
		if f.content != "" {
			c := f.content
			f.content = ""
			return deferred(m.commentContent(c))
		}
	case "cdata":
		if f.content != "" {
			c := f.content
			f.content = ""
			return deferred(m.cdataContent(c))
		}
	case "attlist":
		as := f.attrs
		f.attrs = nil
		for _, a := range as {
			if v := m.Write(a); v != Accept {
				return deferred(v)
			}
		}
	case "elem":
		ks := f.kids
		f.kids = nil
		for _, k := range ks {
			switch k.(type) {
			case xw.Text, xw.Elem, xw.Comment, xw.CData:
			default:
				return Poison // documented: elements cannot carry this as Content
			}
			if v := m.Write(k); v != Accept {
				return deferred(v)
			}
		}
	}
	return Accept
}

func deferred(v Verdict) Verdict {
	if v == Refuse {
		return Poison
	}
	return v
}

func specDiscouraged(r rune) bool {
	return r >= 0x7F && r <= 0x84 || r >= 0x86 && r <= 0x9F || r >= 0xFDD0 && r <= 0xFDEF || r > 0xFFFF && r&0xFFFF >= 0xFFFE
}

func specChars(s string, strict bool) bool {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !isXMLChar(r) || strict && specDiscouraged(r) {
			return false
		}
		i += w
	}
	return true
}

// readBack is what a reader must get for text or an attribute value s: every
// character that XML can carry, U+FFFD for every byte or character it cannot.
func readBack(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 || !isXMLChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
		i += w
	}
	return b.String()
}

func (m *Model) commentContent(s string) Verdict {
	f := m.top()
	if f == nil {
		return Out
	}
	if f.Kind != "comment" {
		return Refuse
	}
	// the deferred content comes first
	prev := f.Node.Value
	if f.Open {
		prev += f.content
		if strings.Contains(prev, "--") || !specChars(prev, m.Strict) {
			// the deferred content itself is bad: whichever call opens it fails
			if strings.Contains(s, "--") || !specChars(s, m.Strict) {
				return Refuse
			}
			m.next()
			return Poison
		}
	}
	if strings.Contains(s, "--") || !specChars(s, m.Strict) || s != "" && s[0] == '-' && strings.HasSuffix(prev, "-") {
		return Refuse
	}
	if v := m.next(); v != Accept {
		return deferred(v)
	}
	f.Node.Value += s
	return Accept
}

func (m *Model) cdataContent(s string) Verdict {
	f := m.top()
	if f == nil {
		return Out
	}
	if f.Kind != "cdata" {
		return Refuse
	}
	prev := f.Node.Value
	if f.Open {
		prev += f.content
		if strings.Contains(prev, "]]>") || !specChars(prev, m.Strict) {
			if strings.Contains(s, "]]>") || !specChars(s, m.Strict) {
				return Refuse
			}
			m.next()
			return Poison
		}
	}
	if strings.Contains(prev+s, "]]>") || !specChars(s, m.Strict) {
		return Refuse
	}
	if v := m.next(); v != Accept {
		return deferred(v)
	}
	f.Node.Value += s
	return Accept
}

func (m *Model) push(f *Frame) {
	f.Open = true
	m.Stack = append(m.Stack, f)
}

func qname(prefix, name string) string {
	if prefix != "" {
		return prefix + ":" + name
	}
	return name
}

func (n *XNode) addNS(prefix, uri string) {
	nm := "xmlns"
	if prefix != "" {
		nm += ":" + prefix
	}
	n.NS = append(n.NS, XAttr{nm, readBack(uri)})
	sort.Slice(n.NS, func(i, j int) bool { return n.NS[i].Name < n.NS[j].Name })
}

// Start models Writer.Start(n).
func (m *Model) Start(n xw.Startable) Verdict {
	switch t := n.(type) {
	case xw.Doc:
		if !m.allowed("doc") {
			return Refuse
		}
		x := &XNode{Kind: "xmldecl"}
		if !t.SuppressVersion {
			v := m.Version
			if v == "" {
				v = "1.0"
			}
			if t.ForcedVersion != nil {
				v = *t.ForcedVersion
			}
			x.Attrs = append(x.Attrs, XAttr{"version", v})
		}
		if !t.SuppressEncoding {
			e := m.Enc
			if t.ForcedEncoding != nil {
				e = *t.ForcedEncoding
			}
			if e != "" {
				if !specEncName(e) {
					return Refuse
				}
				x.Attrs = append(x.Attrs, XAttr{"encoding", e})
			}
		}
		if t.Standalone != nil {
			v := "no"
			if *t.Standalone {
				v = "yes"
			}
			x.Attrs = append(x.Attrs, XAttr{"standalone", v})
		}
		m.add(x)
		m.push(&Frame{Kind: "doc"})
		return Accept

	case xw.DTD:
		if !m.allowed("dtd") {
			return Refuse
		}
		x := &XNode{Kind: "doctype", Name: t.Name}
		if !specName(t.Name) || !modelExternalID(x, t.PublicID, t.SystemID) {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(x)
		m.push(&Frame{Kind: "dtd", Name: t.Name, Node: x})
		return Accept

	case xw.DTDAttList:
		if !m.allowed("attlist") {
			return Refuse
		}
		if !specName(t.Name) {
			return Refuse
		}
		for _, a := range t.Attrs {
			if _, ok := modelAttDef(a); !ok {
				return Refuse
			}
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		x := &XNode{Kind: "attlist", Name: t.Name}
		m.add(x)
		m.push(&Frame{Kind: "attlist", Name: t.Name, Node: x, attrs: t.Attrs})
		return Accept

	case xw.Elem:
		if !m.allowed("elem") {
			return Refuse
		}
		nm := qname(t.Prefix, t.Name)
		if !specName(nm) {
			return Refuse
		}
		bound := map[string]string{}
		if t.URI != "" {
			bound[t.Prefix] = t.URI
		}
		for _, a := range t.Attrs {
			if a.Name == "" || !specName(qname(a.Prefix, a.Name)) || a.URI != "" && a.Prefix == "" {
				return Refuse
			}
			if a.URI != "" {
				if u, ok := bound[a.Prefix]; ok && u != a.URI {
					return Refuse
				}
				bound[a.Prefix] = a.URI
			}
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		x := &XNode{Kind: "elem", Name: nm}
		f := &Frame{Kind: "elem", Prefix: t.Prefix, Name: t.Name, Full: t.Full, Node: x, kids: t.Content, hadKids: len(t.Content) > 0}
		m.add(x)
		m.push(f)
		if t.URI != "" {
			f.NS = map[string]string{t.Prefix: t.URI}
			x.addNS(t.Prefix, t.URI)
		}
		for _, a := range t.Attrs {
			if v := m.attr(a); v != Accept {
				return deferred(v)
			}
		}
		return Accept

	case xw.Comment:
		if !m.allowed("comment") {
			return Refuse
		}
		if strings.Contains(t.Content, "--") || !specChars(t.Content, m.Strict) {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		x := &XNode{Kind: "comment"}
		m.add(x)
		m.push(&Frame{Kind: "comment", Node: x, content: t.Content})
		return Accept

	case xw.CData:
		if !m.allowed("cdata") {
			return Refuse
		}
		if strings.Contains(t.Content, "]]>") || !specChars(t.Content, m.Strict) {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		x := &XNode{Kind: "cdata"}
		m.add(x)
		m.push(&Frame{Kind: "cdata", Node: x, content: t.Content})
		return Accept
	}
	panic("model: unknown startable")
}

func modelExternalID(x *XNode, pub, sys string) bool {
	if pub == "" && sys == "" {
		return true
	}
	if pub != "" {
		if sys == "" || !specPubID(pub) {
			return false
		}
		x.Attrs = append(x.Attrs, XAttr{"public", pub})
	}
	if !specSystem(sys) {
		return false
	}
	x.Attrs = append(x.Attrs, XAttr{"system", sys})
	return true
}

func specPubID(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isPubidChar(s[i]) {
			return false
		}
	}
	return true
}

// specSystem: representable as a quoted literal of legal characters.
func specSystem(s string) bool {
	return specChars(s, false) && !(strings.Contains(s, `"`) && strings.Contains(s, `'`))
}

func (m *Model) attr(a xw.Attr) Verdict {
	f := m.top()
	if f == nil {
		return Out
	}
	if f.Kind != "elem" {
		return Refuse
	}
	nm := qname(a.Prefix, a.Name)
	if !f.Open {
		return Refuse
	}
	if a.Name == "" || !specName(nm) {
		return Refuse
	}
	if a.URI != "" && a.Prefix == "" {
		return Refuse
	}
	if a.URI != "" {
		if u, ok := f.NS[a.Prefix]; ok {
			if u != a.URI {
				return Refuse
			}
		}
	}
	for _, b := range f.Node.Attrs {
		if b.Name == nm {
			return Out // duplicate attribute names are the caller's responsibility
		}
	}
	if nm == "xmlns" || strings.HasPrefix(nm, "xmlns:") {
		return Out
	}
	if a.URI != "" {
		if _, ok := f.NS[a.Prefix]; !ok {
			if f.NS == nil {
				f.NS = map[string]string{}
			}
			f.NS[a.Prefix] = a.URI
			f.Node.addNS(a.Prefix, a.URI)
		}
	}
	f.Node.Attrs = append(f.Node.Attrs, XAttr{nm, readBack(a.Value)})
	return Accept
}

// Write models Writer.Write(n).
func (m *Model) Write(n xw.Writable) Verdict {
	switch t := n.(type) {
	case xw.Attr:
		return m.attr(t)
	case xw.Text:
		if !m.allowed("text") {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(&XNode{Kind: "text", Value: readBack(string(t))})
		return Accept
	case xw.PI:
		if !m.allowed("pi") {
			return Refuse
		}
		if t.Target == "" {
			return Out // accepted by the library (known finding of C12)
		}
		if !specName(t.Target) || strings.ToLower(t.Target) == "xml" || strings.Contains(t.Content, "?>") || !specChars(t.Content, m.Strict) {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(&XNode{Kind: "pi", Name: t.Target, Value: strings.TrimLeft(t.Content, " \t\r\n")})
		return Accept
	case xw.Comment, xw.CData, xw.Elem, xw.DTDAttList:
		if c, ok := n.(xw.Comment); ok && strings.HasSuffix(c.Content, "-") {
			return Refuse
		}
		if v := m.Start(n.(xw.Startable)); v != Accept {
			return v
		}
		return deferred(m.pop())
	case xw.CommentContent:
		return m.commentContent(string(t))
	case xw.CDataContent:
		return m.cdataContent(string(t))
	case xw.DTDElem:
		if !m.allowed("dtdelem") {
			return Refuse
		}
		if !specName(t.Name) || t.Decl == "" {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(&XNode{Kind: "element", Name: t.Name, Value: t.Decl})
		return Accept
	case xw.DTDEntity:
		if !specName(t.Name) || !m.allowed("dtdentity") {
			return Refuse
		}
		x := &XNode{Kind: "entity", Name: t.Name}
		if t.IsPE {
			x.Attrs = append(x.Attrs, XAttr{"pe", "1"})
		}
		if t.PublicID != "" || t.SystemID != "" {
			if t.Content != "" || !modelExternalID(x, t.PublicID, t.SystemID) {
				return Refuse
			}
			if t.NDataID != "" {
				if t.IsPE || !specName(t.NDataID) {
					return Refuse
				}
				x.Attrs = append(x.Attrs, XAttr{"ndata", t.NDataID})
			}
		} else {
			if t.NDataID != "" || !specSystem(t.Content) {
				return Refuse
			}
			x.Attrs = append(x.Attrs, XAttr{"value", t.Content})
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(x)
		return Accept
	case xw.DTDAttr:
		if !m.allowed("dtdattr") {
			return Refuse
		}
		if m.top() == nil {
			return Out
		}
		x, ok := modelAttDef(t)
		if !ok {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(x)
		return Accept
	case xw.Notation:
		if !m.allowed("notation") {
			return Refuse
		}
		if !specName(t.Name) || t.PublicID == "" && t.SystemID == "" {
			return Refuse
		}
		x := &XNode{Kind: "notation", Name: t.Name}
		if t.SystemID == "" {
			if !specPubID(t.PublicID) {
				return Refuse
			}
			x.Attrs = append(x.Attrs, XAttr{"public", t.PublicID})
		} else if !modelExternalID(x, t.PublicID, t.SystemID) {
			return Refuse
		}
		if v := m.next(); v != Accept {
			return deferred(v)
		}
		m.add(x)
		return Accept
	}
	panic("model: unknown writable")
}

// modelAttDef is what a reader must see of an attribute definition.
func modelAttDef(t xw.DTDAttr) (*XNode, bool) {
	if !specName(t.Name) || t.Type == "" {
		return nil, false
	}
	x := &XNode{Kind: "attdef", Name: t.Name, Attrs: []XAttr{{"type", string(t.Type)}}}
	d := t.Default
	if d == xw.DTDAttrInfer {
		d = xw.DTDAttrImplied
		if t.Value != "" {
			d = xw.DTDAttrDefault
		}
	}
	switch d {
	case xw.DTDAttrDefault:
		x.Attrs = append(x.Attrs, XAttr{"default", ""}, XAttr{"value", readBack(t.Value)})
	case xw.DTDAttrFixed:
		x.Attrs = append(x.Attrs, XAttr{"default", "#FIXED"}, XAttr{"value", readBack(t.Value)})
	case xw.DTDAttrRequired, xw.DTDAttrImplied:
		if t.Value != "" {
			return nil, false
		}
		v := "#REQUIRED"
		if d == xw.DTDAttrImplied {
			v = "#IMPLIED"
		}
		x.Attrs = append(x.Attrs, XAttr{"default", v})
	default:
		return nil, false
	}
	return x, true
}

// pop ends the innermost node.
func (m *Model) pop() Verdict {
	f := m.top()
	if f == nil {
		return Refuse
	}
	if f.Open {
		if v := m.opened(f); v != Accept {
			return deferred(v)
		}
	}
	switch f.Kind {
	case "comment":
		if strings.HasSuffix(f.Node.Value, "-") {
			return Refuse
		}
	case "elem":
		f.Node.Short = !f.Full && !f.Kids && !f.hadKids
	case "dtd":
		f.Node.Sub = f.Kids
	}
	m.Stack = m.Stack[:len(m.Stack)-1]
	return Accept
}

var kindOf = map[xw.NodeKind]string{
	xw.DocNode: "doc", xw.DTDNode: "dtd", xw.DTDAttListNode: "attlist", xw.ElemNode: "elem",
	xw.CommentNode: "comment", xw.CDataNode: "cdata",
}

// ends: f is the node that ending kind with name means.
func (m *Model) ends(f *Frame, kind xw.NodeKind, name []string) bool {
	if kindOf[kind] != f.Kind {
		return false
	}
	switch len(name) {
	case 0:
		return true
	case 1:
		return (f.Kind == "elem" || f.Kind == "dtd" || f.Kind == "attlist") && f.Name == name[0]
	case 2:
		return f.Kind == "elem" && f.Prefix == name[0] && f.Name == name[1]
	}
	return false
}

// End models Writer.End(kind, name...).
func (m *Model) End(kind xw.NodeKind, name ...string) Verdict {
	if f := m.top(); f == nil || !m.ends(f, kind, name) {
		return Refuse
	}
	return m.pop()
}

func (m *Model) EndElemFull(name ...string) Verdict {
	f := m.top()
	if f == nil || f.Kind != "elem" {
		return Refuse
	}
	old := f.Full
	f.Full = true
	v := m.End(xw.ElemNode, name...)
	if v == Refuse {
		f.Full = old
	}
	return v
}

func (m *Model) EndAll() Verdict {
	for m.top() != nil {
		if v := m.pop(); v != Accept {
			return v
		}
	}
	return Accept
}

func (m *Model) EndDoc() Verdict {
	if m.top() == nil {
		return Refuse
	}
	if m.Stack[0].Kind != "doc" {
		return Refuse
	}
	for len(m.Stack) > 1 {
		if v := m.pop(); v != Accept {
			return v
		}
	}
	return m.End(xw.DocNode)
}

// EndToDepth models EndToDepth(d, kind, name...) where d is the number of
// nodes that were open when the scope was entered.
func (m *Model) EndToDepth(open int, kind xw.NodeKind, name ...string) Verdict {
	if open < 0 || len(m.Stack) <= open || !m.ends(m.Stack[open], kind, name) {
		return Refuse
	}
	n := 0
	for len(m.Stack) > open+1 {
		if v := m.pop(); v != Accept {
			if n > 0 {
				return deferred(v)
			}
			return v
		}
		n++
	}
	v := m.End(kind, name...)
	if n > 0 {
		return deferred(v)
	}
	return v
}

// Finish closes everything and returns the tree the reader must see.
func (m *Model) Finish() *XNode { return m.Root.mergeText() }
