package main

// A small strict XML 1.0 (fifth edition) parser used as the oracle. It shares
// nothing with the library. In document mode it accepts exactly the shape
// prolog element Misc*; in fragment mode it accepts any sequence of complete
// constructs at the top level (including an XML declaration and markup
// declarations, which the writer allows there).

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

type XAttr struct{ Name, Value string }

type XNode struct {
	Kind string // frag xmldecl doctype elem text cdata comment pi entity element attlist attdef notation
	Name string
	// text: normalised value; cdata, comment, pi: raw content; others: see parser
	Value string
	Attrs []XAttr // without xmlns declarations
	NS    []XAttr // prefix -> uri, sorted
	Short bool    // <a/>
	Sub   bool    // doctype: has an internal subset
	Kids  []*XNode
}

type parser struct {
	s    string
	i    int
	frag bool
	// allow general entity references without a declaration
}

type xmlError struct {
	pos int
	msg string
}

func (e xmlError) Error() string { return fmt.Sprintf("not well-formed at byte %d: %s", e.pos, e.msg) }

func (p *parser) fail(format string, a ...interface{}) {
	panic(xmlError{p.i, fmt.Sprintf(format, a...)})
}

func isXMLChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

// XML 1.0 fifth edition, productions [4] and [4a].
func specNameStart(r rune) bool {
	return r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' ||
		r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF ||
		r >= 0x370 && r <= 0x37D || r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D ||
		r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF ||
		r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}
func specNameChar(r rune) bool {
	return specNameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 ||
		r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func specName(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if i == 0 && !specNameStart(r) || i > 0 && !specNameChar(r) {
			return false
		}
	}
	return true
}

func (p *parser) has(s string) bool { return strings.HasPrefix(p.s[p.i:], s) }
func (p *parser) eof() bool         { return p.i >= len(p.s) }
func (p *parser) eat(s string) bool {
	if p.has(s) {
		p.i += len(s)
		return true
	}
	return false
}
func (p *parser) need(s string) {
	if !p.eat(s) {
		p.fail("expected %q", s)
	}
}
func isWS(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }
func (p *parser) ws() bool {
	j := p.i
	for p.i < len(p.s) && isWS(p.s[p.i]) {
		p.i++
	}
	return p.i > j
}
func (p *parser) needWS() {
	if !p.ws() {
		p.fail("expected white space")
	}
}
func (p *parser) name() string {
	j := p.i
	for p.i < len(p.s) {
		r, w := utf8.DecodeRuneInString(p.s[p.i:])
		if r == utf8.RuneError && w <= 1 {
			break
		}
		if p.i == j && !specNameStart(r) || p.i > j && !specNameChar(r) {
			break
		}
		p.i += w
	}
	if p.i == j {
		p.fail("expected a name")
	}
	return p.s[j:p.i]
}

// char reads one legal character.
func (p *parser) char() rune {
	r, w := utf8.DecodeRuneInString(p.s[p.i:])
	if r == utf8.RuneError && w <= 1 {
		p.fail("invalid UTF-8")
	}
	if !isXMLChar(r) {
		p.fail("illegal character %U", r)
	}
	p.i += w
	return r
}

// until returns the text up to the terminator, checking characters.
func (p *parser) until(term, what string) string {
	j := p.i
	for !p.has(term) {
		if p.eof() {
			p.i = j
			p.fail("unterminated %s", what)
		}
		p.char()
	}
	s := p.s[j:p.i]
	p.i += len(term)
	return s
}

func (p *parser) reference(b *strings.Builder) {
	p.need("&")
	if p.eat("#") {
		hex := p.eat("x")
		n, digits := rune(0), 0
		for !p.eof() {
			c := p.s[p.i]
			var d rune
			switch {
			case c >= '0' && c <= '9':
				d = rune(c - '0')
			case hex && c >= 'a' && c <= 'f':
				d = rune(c-'a') + 10
			case hex && c >= 'A' && c <= 'F':
				d = rune(c-'A') + 10
			default:
				goto done
			}
			if hex {
				n = n*16 + d
			} else {
				n = n*10 + d
			}
			if n > 0x10FFFF {
				p.fail("character reference out of range")
			}
			digits++
			p.i++
		}
	done:
		if digits == 0 {
			p.fail("empty character reference")
		}
		p.need(";")
		if !isXMLChar(n) {
			p.fail("reference to illegal character %U", n)
		}
		b.WriteRune(n)
		return
	}
	n := p.name()
	p.need(";")
	switch n {
	case "amp":
		b.WriteByte('&')
	case "lt":
		b.WriteByte('<')
	case "gt":
		b.WriteByte('>')
	case "quot":
		b.WriteByte('"')
	case "apos":
		b.WriteByte('\'')
	default:
		p.fail("undeclared entity %q", n)
	}
}

func (p *parser) attValue() string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected a quoted attribute value")
	}
	q := p.s[p.i]
	p.i++
	var b strings.Builder
	for {
		if p.eof() {
			p.fail("unterminated attribute value")
		}
		c := p.s[p.i]
		switch {
		case c == q:
			p.i++
			return b.String()
		case c == '<':
			p.fail("'<' in attribute value")
		case c == '&':
			p.reference(&b)
		case c == '\r' || c == '\n' || c == '\t':
			// end-of-line then attribute-value normalisation
			if c == '\r' && p.i+1 < len(p.s) && p.s[p.i+1] == '\n' {
				p.i++
			}
			p.i++
			b.WriteByte(' ')
		default:
			b.WriteRune(p.char())
		}
	}
}

func (p *parser) literal(what string) string {
	if p.eof() || p.s[p.i] != '"' && p.s[p.i] != '\'' {
		p.fail("expected a quoted %s", what)
	}
	q := p.s[p.i : p.i+1]
	p.i++
	return p.until(q, what)
}

func isPubidChar(c byte) bool {
	return c == 0x20 || c == 0xD || c == 0xA || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
		strings.IndexByte("-'()+,./:=?;!*#@$_%", c) >= 0
}

func (p *parser) pubid() string {
	s := p.literal("public identifier")
	for i := 0; i < len(s); i++ {
		if !isPubidChar(s[i]) {
			p.fail("illegal character in public identifier")
		}
	}
	return s
}

// externalID parses SYSTEM/PUBLIC; publicOnly allows a lone public identifier.
func (p *parser) externalID(n *XNode, publicOnly bool) bool {
	if p.eat("SYSTEM") {
		p.needWS()
		n.Attrs = append(n.Attrs, XAttr{"system", p.literal("system identifier")})
		return true
	}
	if p.eat("PUBLIC") {
		p.needWS()
		n.Attrs = append(n.Attrs, XAttr{"public", p.pubid()})
		j := p.i
		sp := p.ws()
		if !p.eof() && (p.s[p.i] == '"' || p.s[p.i] == '\'') {
			if !sp {
				p.fail("white space required between identifiers")
			}
			n.Attrs = append(n.Attrs, XAttr{"system", p.literal("system identifier")})
			return true
		}
		p.i = j
		if !publicOnly {
			p.fail("system identifier required")
		}
		return true
	}
	return false
}

func (p *parser) xmlDecl() *XNode {
	n := &XNode{Kind: "xmldecl"}
	p.need("<?xml")
	for {
		sp := p.ws()
		if p.eat("?>") {
			break
		}
		if !sp {
			p.fail("white space required in XML declaration")
		}
		nm := p.name()
		p.ws()
		p.need("=")
		p.ws()
		n.Attrs = append(n.Attrs, XAttr{nm, p.literal("XML declaration value")})
	}
	return n
}

// strictXMLDecl checks production [23].
func strictXMLDecl(n *XNode) error {
	want := []string{"version", "encoding", "standalone"}
	k := 0
	for i, a := range n.Attrs {
		for k < 3 && want[k] != a.Name {
			k++
		}
		if k == 3 {
			return fmt.Errorf("XML declaration: unexpected or misplaced %q", a.Name)
		}
		k++
		switch a.Name {
		case "version":
			if len(a.Value) < 3 || a.Value[:2] != "1." || strings.Trim(a.Value[2:], "0123456789") != "" {
				return fmt.Errorf("XML declaration: bad version %q", a.Value)
			}
		case "encoding":
			if !specEncName(a.Value) {
				return fmt.Errorf("XML declaration: bad encoding %q", a.Value)
			}
		case "standalone":
			if a.Value != "yes" && a.Value != "no" {
				return fmt.Errorf("XML declaration: bad standalone %q", a.Value)
			}
		}
		if i == 0 && a.Name != "version" {
			return fmt.Errorf("XML declaration: version missing")
		}
	}
	if len(n.Attrs) == 0 {
		return fmt.Errorf("XML declaration: version missing")
	}
	return nil
}

func specEncName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if i == 0 && !al || i > 0 && !(al || c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-') {
			return false
		}
	}
	return s != ""
}

func (p *parser) comment() *XNode {
	p.need("<!--")
	s := p.until("--", "comment")
	if !p.eat(">") {
		p.fail("'--' in comment")
	}
	return &XNode{Kind: "comment", Value: s}
}

func (p *parser) pi() *XNode {
	p.need("<?")
	t := p.name()
	if strings.ToLower(t) == "xml" {
		p.fail("reserved PI target")
	}
	n := &XNode{Kind: "pi", Name: t}
	if p.eat("?>") {
		return n
	}
	if !p.ws() {
		p.fail("white space required after PI target")
	}
	n.Value = p.until("?>", "processing instruction")
	return n
}

func (p *parser) cdata() *XNode {
	p.need("<![CDATA[")
	return &XNode{Kind: "cdata", Value: p.until("]]>", "CDATA section")}
}

func (p *parser) text() *XNode {
	var b strings.Builder
	for !p.eof() && p.s[p.i] != '<' {
		switch {
		case p.s[p.i] == '&':
			p.reference(&b)
		case p.has("]]>"):
			p.fail("']]>' in character data")
		case p.s[p.i] == '\r':
			p.i++
			if !p.has("\n") {
				b.WriteByte('\n')
			}
		default:
			b.WriteRune(p.char())
		}
	}
	return &XNode{Kind: "text", Value: b.String()}
}

func (p *parser) element() *XNode {
	p.need("<")
	n := &XNode{Kind: "elem", Name: p.name()}
	for {
		sp := p.ws()
		if p.eat("/>") {
			n.Short = true
			p.finishElem(n)
			return n
		}
		if p.eat(">") {
			break
		}
		if p.eof() {
			p.fail("unterminated start tag")
		}
		if !sp {
			p.fail("white space required before attribute")
		}
		nm := p.name()
		p.ws()
		p.need("=")
		p.ws()
		v := p.attValue()
		for _, a := range n.Attrs {
			if a.Name == nm {
				p.fail("duplicate attribute %q", nm)
			}
		}
		for _, a := range n.NS {
			if a.Name == nm {
				p.fail("duplicate attribute %q", nm)
			}
		}
		if nm == "xmlns" || strings.HasPrefix(nm, "xmlns:") {
			n.NS = append(n.NS, XAttr{nm, v})
		} else {
			n.Attrs = append(n.Attrs, XAttr{nm, v})
		}
	}
	p.finishElem(n)
	p.content(n)
	p.need("</")
	if e := p.name(); e != n.Name {
		p.fail("end tag %q does not match %q", e, n.Name)
	}
	p.ws()
	p.need(">")
	return n
}

func (p *parser) finishElem(n *XNode) {
	sort.Slice(n.NS, func(i, j int) bool { return n.NS[i].Name < n.NS[j].Name })
}

func (p *parser) content(n *XNode) {
	for !p.eof() {
		switch {
		case p.has("</"):
			return
		case p.has("<!--"):
			n.Kids = append(n.Kids, p.comment())
		case p.has("<![CDATA["):
			n.Kids = append(n.Kids, p.cdata())
		case p.has("<?"):
			n.Kids = append(n.Kids, p.pi())
		case p.has("<"):
			n.Kids = append(n.Kids, p.element())
		default:
			n.Kids = append(n.Kids, p.text())
		}
	}
}

func (p *parser) doctype() *XNode {
	p.need("<!DOCTYPE")
	p.needWS()
	n := &XNode{Kind: "doctype", Name: p.name()}
	sp := p.ws()
	if !p.eof() && (p.has("SYSTEM") || p.has("PUBLIC")) {
		if !sp {
			p.fail("white space required before external identifier")
		}
		p.externalID(n, false)
		p.ws()
	}
	if p.eat("[") {
		n.Sub = true
		for {
			p.ws()
			if p.eat("]") {
				break
			}
			if p.eof() {
				p.fail("unterminated internal subset")
			}
			n.Kids = append(n.Kids, p.markupDecl())
		}
		p.ws()
	}
	p.need(">")
	return n
}

func (p *parser) markupDecl() *XNode {
	switch {
	case p.has("<!--"):
		return p.comment()
	case p.has("<?"):
		return p.pi()
	case p.eat("<!ENTITY"):
		p.needWS()
		n := &XNode{Kind: "entity"}
		pe := false
		if p.eat("%") {
			p.needWS()
			pe = true
			n.Attrs = append(n.Attrs, XAttr{"pe", "1"})
		}
		n.Name = p.name()
		p.needWS()
		if p.externalID(n, false) {
			sp := p.ws()
			if p.has("NDATA") {
				if !sp {
					p.fail("white space required before NDATA")
				}
				if pe {
					p.fail("NDATA on a parameter entity")
				}
				p.need("NDATA")
				p.needWS()
				n.Attrs = append(n.Attrs, XAttr{"ndata", p.name()})
			}
		} else {
			n.Attrs = append(n.Attrs, XAttr{"value", p.literal("entity value")})
		}
		p.ws()
		p.need(">")
		return n
	case p.eat("<!ELEMENT"):
		p.needWS()
		n := &XNode{Kind: "element", Name: p.name()}
		p.needWS()
		n.Value = p.until(">", "element declaration")
		return n
	case p.eat("<!ATTLIST"):
		p.needWS()
		n := &XNode{Kind: "attlist", Name: p.name()}
		for {
			sp := p.ws()
			if p.eat(">") {
				return n
			}
			if !sp {
				p.fail("white space required in attribute list")
			}
			n.Kids = append(n.Kids, p.attDef())
		}
	case p.eat("<!NOTATION"):
		p.needWS()
		n := &XNode{Kind: "notation", Name: p.name()}
		p.needWS()
		if !p.externalID(n, true) {
			p.fail("external identifier required")
		}
		p.ws()
		p.need(">")
		return n
	}
	p.fail("expected a markup declaration")
	return nil
}

func (p *parser) attDef() *XNode {
	n := &XNode{Kind: "attdef", Name: p.name()}
	p.needWS()
	j := p.i
	if p.has("NOTATION") || p.has("(") {
		if p.eat("NOTATION") {
			p.needWS()
		}
		p.need("(")
		p.until(")", "enumeration")
	} else {
		switch t := p.name(); t {
		case "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS":
		default:
			p.fail("unknown attribute type %q", t)
		}
	}
	n.Attrs = append(n.Attrs, XAttr{"type", p.s[j:p.i]})
	p.needWS()
	switch {
	case p.eat("#REQUIRED"):
		n.Attrs = append(n.Attrs, XAttr{"default", "#REQUIRED"})
	case p.eat("#IMPLIED"):
		n.Attrs = append(n.Attrs, XAttr{"default", "#IMPLIED"})
	case p.eat("#FIXED"):
		p.needWS()
		n.Attrs = append(n.Attrs, XAttr{"default", "#FIXED"}, XAttr{"value", p.attValue()})
	default:
		n.Attrs = append(n.Attrs, XAttr{"default", ""}, XAttr{"value", p.attValue()})
	}
	return n
}

func (p *parser) isXMLDecl() bool {
	return p.has("<?xml") && p.i+5 < len(p.s) && isWS(p.s[p.i+5])
}

// parseFragment accepts any sequence of complete constructs.
func parseFragment(s string) (root *XNode, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(xmlError); ok {
				err = x
				return
			}
			panic(r)
		}
	}()
	p := &parser{s: s, frag: true}
	root = &XNode{Kind: "frag"}
	for !p.eof() {
		var n *XNode
		switch {
		case p.isXMLDecl():
			n = p.xmlDecl()
			p.eat("\n") // the newline the writer documents after the declaration
		case p.has("<!DOCTYPE"):
			n = p.doctype()
		case p.has("<!--"):
			n = p.comment()
		case p.has("<![CDATA["):
			n = p.cdata()
		case p.has("<!"):
			n = p.markupDecl()
		case p.has("<?"):
			n = p.pi()
		case p.has("</"):
			p.fail("unexpected end tag")
		case p.has("<"):
			n = p.element()
		default:
			n = p.text()
		}
		root.Kids = append(root.Kids, n)
	}
	return root, nil
}

// parseDocument accepts a well-formed document entity.
func parseDocument(s string) (root *XNode, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(xmlError); ok {
				err = x
				return
			}
			panic(r)
		}
	}()
	p := &parser{s: s}
	root = &XNode{Kind: "frag"}
	add := func(n *XNode) { root.Kids = append(root.Kids, n) }
	if p.isXMLDecl() {
		n := p.xmlDecl()
		if err := strictXMLDecl(n); err != nil {
			return nil, err
		}
		add(n)
	}
	misc := func() {
		for {
			switch {
			case p.ws():
			case p.has("<!--"):
				add(p.comment())
			case p.has("<?"):
				add(p.pi())
			default:
				return
			}
		}
	}
	misc()
	if p.has("<!DOCTYPE") {
		add(p.doctype())
		misc()
	}
	if p.eof() || !p.has("<") {
		p.fail("no root element")
	}
	add(p.element())
	misc()
	if !p.eof() {
		p.fail("content after the root element")
	}
	return root, nil
}

// --- comparison -----------------------------------------------------------

func (n *XNode) dump(b *strings.Builder, short bool) {
	b.WriteString(n.Kind)
	if n.Name != "" {
		b.WriteByte(' ')
		b.WriteString(n.Name)
	}
	if n.Value != "" {
		fmt.Fprintf(b, " %q", n.Value)
	}
	for _, a := range n.Attrs {
		fmt.Fprintf(b, " %s=%q", a.Name, a.Value)
	}
	for _, a := range n.NS {
		fmt.Fprintf(b, " %s=%q", a.Name, a.Value)
	}
	if short && n.Kind == "elem" && n.Short {
		b.WriteString(" /")
	}
	if len(n.Kids) > 0 {
		b.WriteString(" (")
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.dump(b, short)
		}
		b.WriteByte(')')
	}
}

func (n *XNode) String() string {
	var b strings.Builder
	n.dump(&b, false)
	return b.String()
}

func (n *XNode) StringShort() string {
	var b strings.Builder
	n.dump(&b, true)
	return b.String()
}

// mergeText joins adjacent text nodes and drops empty ones, in place.
func (n *XNode) mergeText() *XNode {
	out := n.Kids[:0:0]
	for _, k := range n.Kids {
		if k.Kind == "text" {
			if k.Value == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].Kind == "text" {
				out[len(out)-1] = &XNode{Kind: "text", Value: out[len(out)-1].Value + k.Value}
				continue
			}
		}
		k.mergeText()
		out = append(out, k)
	}
	n.Kids = out
	return n
}

func sameAttrs(a, b []XAttr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff compares two merged trees; empty string means equal.
func diffNodes(got, want *XNode, path string, short bool) string {
	if d := diffBelow(got, want, short); d != "" {
		return path + d
	}
	return ""
}

func diffBelow(got, want *XNode, short bool) string {
	if got.Kind != want.Kind || got.Name != want.Name {
		return fmt.Sprintf(": got %s %q, want %s %q", got.Kind, clip(got.Name), want.Kind, clip(want.Name))
	}
	if got.Value != want.Value {
		return fmt.Sprintf("/%s: got value %q, want %q", got.Kind, clip(got.Value), clip(want.Value))
	}
	if !sameAttrs(got.Attrs, want.Attrs) {
		return fmt.Sprintf("/%s %s: got attributes %s, want %s", got.Kind, clip(got.Name), clip(fmt.Sprintf("%q", got.Attrs)), clip(fmt.Sprintf("%q", want.Attrs)))
	}
	if !sameAttrs(got.NS, want.NS) {
		return fmt.Sprintf("/%s %s: got namespace declarations %s, want %s", got.Kind, clip(got.Name), clip(fmt.Sprintf("%q", got.NS)), clip(fmt.Sprintf("%q", want.NS)))
	}
	if short && got.Kind == "elem" && got.Short != want.Short {
		return fmt.Sprintf("/%s %s: got short form %v, want %v", got.Kind, clip(got.Name), got.Short, want.Short)
	}
	for i := 0; i < len(got.Kids) || i < len(want.Kids); i++ {
		d := ""
		if i >= len(got.Kids) {
			d = ": missing " + clip(want.Kids[i].String())
		} else if i >= len(want.Kids) {
			d = ": unexpected " + clip(got.Kids[i].String())
		} else if d = diffBelow(got.Kids[i], want.Kids[i], short); d == "" {
			continue
		}
		if len(d) > 3000 {
			return d
		}
		return fmt.Sprintf("/%s[%d]%s", clip(want.Name), i, d)
	}
	return ""
}
