//go:build go1.25

package vh

import (
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

// Node is a parsed XML element.
type Node struct {
	Name  string
	Attrs map[string]string
	Text  string
	Kids  []*Node
}

// ParseXML reads one document strictly.
func ParseXML(r io.Reader) (*Node, error) {
	dec := xml.NewDecoder(r)
	var stack []*Node
	var root *Node
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &Node{Name: x.Name.Local, Attrs: map[string]string{}}
			for _, a := range x.Attr {
				k := a.Name.Local
				if a.Name.Space == "http://www.w3.org/XML/1998/namespace" || a.Name.Space == "xml" {
					k = "xml:" + k
				} else if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				n.Attrs[k] = a.Value
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, fmt.Errorf("two document elements")
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, fmt.Errorf("text outside the document element")
			}
		}
	}
	if root == nil || len(stack) != 0 {
		return nil, fmt.Errorf("incomplete document")
	}
	return root, nil
}

// All children of that name.
func (n *Node) All(name string) []*Node {
	var r []*Node
	for _, k := range n.Kids {
		if k.Name == name {
			r = append(r, k)
		}
	}
	return r
}

// Get the text of the first child of that name.
func (n *Node) Get(name string) string {
	for _, k := range n.Kids {
		if k.Name == name {
			return k.Text
		}
	}
	return ""
}

// First child of that name, or nil.
func (n *Node) First(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// Unref resolves the numeric character references the index writer leaves in
// CDATA sections, which is how it is documented to write symbols.
func Unref(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "&#x")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			b.WriteString(s)
			return b.String()
		}
		v, err := strconv.ParseUint(s[i+3:i+j], 16, 32)
		if err != nil || v < 128 {
			b.WriteString(s[:i+3])
			s = s[i+3:]
			continue
		}
		b.WriteString(s[:i])
		b.WriteRune(rune(v))
		s = s[i+j+1:]
	}
}

// Canon is a canonical text for an element: children grouped by name (the
// order between different names carries no meaning), in order within a name.
func (n *Node) Canon() string {
	var b strings.Builder
	n.canon(&b, "")
	return b.String()
}

func (n *Node) canon(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%s<%s", ind, n.Name)
	for _, k := range SortedKeys(n.Attrs) {
		fmt.Fprintf(b, " %s=%q", k, Unref(n.Attrs[k]))
	}
	b.WriteString(">")
	if len(n.Kids) == 0 {
		fmt.Fprintf(b, " %q\n", Unref(n.Text))
		return
	}
	b.WriteString("\n")
	kids := append([]*Node(nil), n.Kids...)
	sort.SliceStable(kids, func(i, j int) bool { return kids[i].Name < kids[j].Name })
	for _, k := range kids {
		k.canon(b, ind+" ")
	}
}

// Elem builds a node.
func Elem(name string, kids ...*Node) *Node {
	return &Node{Name: name, Attrs: map[string]string{}, Kids: kids}
}

// TextElem builds a leaf.
func TextElem(name, text string) *Node {
	return &Node{Name: name, Attrs: map[string]string{}, Text: text}
}

// With adds an attribute.
func (n *Node) With(k, v string) *Node {
	n.Attrs[k] = v
	return n
}

// Add appends children.
func (n *Node) Add(kids ...*Node) *Node {
	for _, k := range kids {
		if k != nil {
			n.Kids = append(n.Kids, k)
		}
	}
	return n
}

// Write renders the node; leaves named in cdata are written as CDATA.
func (n *Node) Write(b *strings.Builder, cdata map[string]bool) {
	b.WriteString("<" + n.Name)
	for _, k := range SortedKeys(n.Attrs) {
		b.WriteString(" " + k + "=\"")
		xml.EscapeText(b, []byte(n.Attrs[k]))
		b.WriteString("\"")
	}
	b.WriteString(">")
	if len(n.Kids) == 0 {
		if cdata[n.Name] && !strings.Contains(n.Text, "]]>") {
			b.WriteString("<![CDATA[" + n.Text + "]]>")
		} else {
			xml.EscapeText(b, []byte(n.Text))
		}
	} else {
		b.WriteString("\n")
		for _, k := range n.Kids {
			k.Write(b, cdata)
		}
	}
	b.WriteString("</" + n.Name + ">\n")
}

// String renders the node.
func (n *Node) String() string {
	var b strings.Builder
	n.Write(&b, nil)
	return b.String()
}
