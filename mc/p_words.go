package main

// Words: strings that mean something to somebody who works with XML, at every
// site, alone and in pairs; and every combination of reserved names.

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

var valueWords = []string{
	"", "w", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&#38;", "&#x26;", "&#60;", "&#xD;", "&#0;", "&x;", "&", ";", "%x;", "%s", "%!d(string=x)", "%%", "${x}", "\\", "\\n", "\\u0041",
	"<!--", "-->", "--!>", "->", "<![CDATA[", "]]>", "]]", "<?xml?>", "<?xml version=\"1.0\"?>", "?>", "?", "<a>", "</a>", "<br/>", "/>", "<!DOCTYPE a>", "<", ">", "\"", "'", "='", "=\"",
	"\ufeff", "\u2028", "\u0085", "\u00a0", "\u200b", "\u00ad", "\u202e", "e\u0301", "\u00e9", "\u0130", "\ufb01", "\u212a", "\U0001f600", "\ufffd", "\u0000",
	" ", "  ", " a ", "\t", "\n", "\n\n", "\r\n", "\r", "\n  \n", "a\n", "\na", "a\r", "a\t", "\ta",
	"true", "false", "null", "nil", "0", "-1", "1.0", "NaN", "UTF-8", "utf-8", "yes", "no", "none",
	"xml", "XML", "xmlns", "xmlns:p", "xml:space", "preserve", "default", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/1999/xhtml", "urn:x", "//", "#", "file:///x",
	"SYSTEM", "PUBLIC", "NDATA", "#FIXED", "#REQUIRED", "#IMPLIED", "CDATA", "EMPTY", "ANY", "#PCDATA", "ENTITY", "(a|b)", "-//W3C//DTD XHTML 1.0 Strict//EN",
	"&amp;amp;", "&amp", "&#", "&#x", "&;", "]]&gt;", "a&b", "a<b", "0123456789abcdef0123456789abcdef",
}

var nameWords = []string{
	"w", "xml", "XML", "Xml", "xmL", "xml-stylesheet", "xml-model", "xmlx", "xmlns", "XMLNS", "xmlnsx", "xml.x", "x-xml", "html", "HTML", "body", "p", "a", "br", "BR", "hr", "img", "script", "style", "pre", "textarea", "title", "div",
	"id", "ID", "Id", "class", "type", "name", "value", "href", "space", "lang", "base", "a.b", "a-b", "a_b", "_", "_a", "a0", "\u00e9", "\u0130", "\u0131", "\u017f", "k", "K", "ss", "\u00df",
	"DOCTYPE", "ELEMENT", "ATTLIST", "ENTITY", "NOTATION", "ANY", "EMPTY", "CDATA", "PCDATA", "SYSTEM", "PUBLIC", "NDATA", "FIXED", "version", "encoding", "standalone", "none", "elem", "document", "dtd", "text", "true", "nil", "amp", "lt", "quot",
}

// wordsPart: pairs says whether every ordered pair of words is concatenated.
func wordsPart(pairs bool, kinds ...string) Part {
	how := "alone, doubled, and before and after a letter"
	if pairs {
		how = "alone, doubled, before and after a letter, and every ordered pair of them one after the other"
	}
	over := ""
	if len(kinds) > 0 {
		over = fmt.Sprintf("; sites of the kinds %v", kinds)
	}
	return Part{"words", fmt.Sprintf("%d strings that mean something in XML, Go, HTML or Unicode at every value site, %d reserved and near-reserved names at every name site: %s%s", len(valueWords), len(nameWords), how, over), func(c *Ctx) {
		for _, site := range sweepSites() {
			words, join := valueWords, ""
			switch site.kind {
			case "name":
				words, join = nameWords, "."
			case "decl":
				continue
			}
			if len(kinds) > 0 && !strings.Contains(" "+strings.Join(kinds, " ")+" ", " "+site.kind+" ") {
				continue
			}
			do := func(v string) {
				if !c.Take() {
					return
				}
				c.Run(func() string { return fmt.Sprintf("%s: %q", site.name, v) }, func() error {
					return c.ends(site.ops(v), small, false)
				})
			}
			for _, a := range words {
				do(a)
				do(a + join + a)
				do("w" + join + a)
				do(a + join + "w")
				if site.kind == "name" {
					do(a + ":w")
					do("w:" + a)
				}
				if pairs {
					for _, b := range words {
						do(a + join + b)
					}
				}
			}
		}
	}}
}

// reservedPart: elements, attributes and content with reserved names together.
func reservedPart(small_ bool) Part {
	ps := []string{"", "p", "xml", "Xml"}
	us := []string{"", "u", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/1999/xhtml"}
	ns := []string{"e", "br", "pre", "xml", "space"}
	aps := []string{"", "p", "xml"}
	ans := []string{"a", "xml", "space", "lang", "id", "class", "xmlnsx"}
	vs := []string{"", "preserve", " a  b "}
	if small_ {
		ps, us, ns, ans, vs = ps[:3], []string{us[0], us[2]}, ns[:3], ans[:4], vs[1:]
	}
	return Part{"reserved", fmt.Sprintf("an element (prefix %q, URI %q, name %q) with an attribute (prefix %q, the same URIs, name %q, value %q; in Attrs or by WriteAttr) and with nothing, white space, text, or an element and a comment in it", ps, us, ns, aps, ans, vs), func(c *Ctx) {
		for _, p := range ps {
			for _, u := range us {
				for _, n := range ns {
					for _, ap := range aps {
						for _, au := range us {
							for _, an := range ans {
								for _, v := range vs {
									for way := 0; way < 8; way++ {
										if !c.Take() {
											continue
										}
										e := xw.Elem{Prefix: p, URI: u, Name: n}
										a := xw.Attr{Prefix: ap, URI: au, Name: an, Value: v}
										var ops []Op
										if way%2 == 0 {
											e.Attrs = []xw.Attr{a}
											ops = append(ops, opStartX(e))
										} else {
											ops = append(ops, opStart(e), opWriteX(a))
										}
										switch way / 2 {
										case 1:
											ops = append(ops, opWriteX(xw.Text(" \n ")))
										case 2:
											ops = append(ops, opWriteX(xw.Text(" t ")), opWriteX(xw.Elem{Name: "k"}), opWriteX(xw.Text("  ")))
										case 3:
											ops = append(ops, opWriteX(xw.Elem{Prefix: p, Name: n}), opWriteX(xw.Comment{Content: " c "}), opWriteX(xw.Elem{Name: strings.ToUpper(n)}))
										}
										ops = append(ops, opEndElem(p, n))
										c.Run(func() string { return descOps(ops) }, func() error { return c.ends(ops, small, false) })
									}
								}
							}
						}
					}
				}
			}
		}
	}}
}
