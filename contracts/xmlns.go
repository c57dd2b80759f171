package ecore

import "fmt"

// ---- XML namespaces: what a prefix stands for ----

func okNs(n *xmlNamespaces) bool {
	return -1 <= n.currentContext && n.currentContext < len(n.contexts) && 0 <= n.namespacesSize && n.namespacesSize <= len(n.namespaces) &&
		vForall(0, n.currentContext+1, func(i int) bool { return 0 <= n.contexts[i] && n.contexts[i] <= n.namespacesSize }) &&
		vForall(0, n.currentContext+1, func(i int) bool {
			return vForall(i, n.currentContext+1, func(j int) bool { return n.contexts[i] <= n.contexts[j] })
		}) &&
		vForall(0, n.namespacesSize, func(i int) bool { return isText(n.namespaces[i][0]) && isText(n.namespaces[i][1]) })
}

func isText(x any) bool {
	_, ok := x.(string)
	return ok
}

// the prefix and the namespace of a declaration
func nsPrefixAt(n *xmlNamespaces, i int) string {
	return n.namespaces[i][0].(string)
}
func nsURIAt(n *xmlNamespaces, i int) string {
	return n.namespaces[i][1].(string)
}

// the last declaration of a prefix counts (i: any declaration)
// @property C14
// @inv ns
func spec_Ns_GetURI(n *xmlNamespaces, prefix string, i int) {
	vRequires(okNs(n))
	uri, ok := n.getURI(prefix)
	last := 0 <= i && i < n.namespacesSize && n.namespaces[i][0] == any(prefix) && vForall(i+1, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(prefix) })
	vEnsures("last declaration", !last || ok && uri == nsURIAt(n, i))
	vEnsures("none", ok || uri == "")
	none := vForall(0, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(prefix) })
	vEnsures("undeclared", !ok || !none)
}

func inv_xmlNamespaces_getURI_1__ns(n *xmlNamespaces, prefix string, i int) bool {
	return 0 <= i && i <= n.namespacesSize && vForall(i, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(prefix) })
}

// @property C14
// @inv ns
func spec_Ns_GetPrefix(n *xmlNamespaces, uri string, i int) {
	vRequires(okNs(n))
	prefix, ok := n.getPrefix(uri)
	last := 0 <= i && i < n.namespacesSize && n.namespaces[i][1] == any(uri) && vForall(i+1, n.namespacesSize, func(j int) bool { return n.namespaces[j][1] != any(uri) })
	vEnsures("last declaration", !last || ok && prefix == nsPrefixAt(n, i))
	vEnsures("none", ok || prefix == "")
	none := vForall(0, n.namespacesSize, func(j int) bool { return n.namespaces[j][1] != any(uri) })
	vEnsures("undeclared", !ok || !none)
}

func inv_xmlNamespaces_getPrefix_1__ns(n *xmlNamespaces, uri string, i int) bool {
	return 0 <= i && i <= n.namespacesSize && vForall(i, n.namespacesSize, func(j int) bool { return n.namespaces[j][1] != any(uri) })
}

// entering an element changes nothing (i: any declaration; k: any element entered before)
// @property C14
// @inv ns
func spec_Ns_Push(n *xmlNamespaces, i, k int) {
	vRequires(okNs(n))
	size, ctx := n.namespacesSize, n.currentContext
	vRequires(0 <= i && i < size && 0 <= k && k <= ctx)
	prefix, uri, from := nsPrefixAt(n, i), nsURIAt(n, i), n.contexts[k]
	n.pushContext()
	vEnsures("well formed", okNs(n))
	vEnsures("entered", n.currentContext == ctx+1 && n.contexts[ctx+1] == size && n.namespacesSize == size)
	vEnsures("contexts", n.contexts[k] == from)
	vEnsures("declarations", n.namespaces[i][0] == any(prefix) && n.namespaces[i][1] == any(uri))
}

// leaving an element leaves the declarations made before it
// @property C14
// @inv ns
func spec_Ns_Pop(n *xmlNamespaces, i, k int) {
	vRequires(okNs(n) && n.currentContext >= 0)
	size, ctx, first := n.namespacesSize, n.currentContext, n.contexts[n.currentContext]
	vRequires(0 <= i && i < size && 0 <= k && k <= ctx)
	prefix, uri, from := nsPrefixAt(n, i), nsURIAt(n, i), n.contexts[k]
	gone := n.popContext()
	vEnsures("well formed", okNs(n))
	vEnsures("left", n.currentContext == ctx-1 && n.namespacesSize == first)
	vEnsures("contexts", n.contexts[k] == from)
	vEnsures("declarations", n.namespaces[i][0] == any(prefix) && n.namespaces[i][1] == any(uri))
	vEnsures("what was declared", len(gone) == size-first && (i < first || gone[i-first][0] == any(prefix) && gone[i-first][1] == any(uri)))
}

// a declaration is for the current element: it hides what was declared, and changes what the same element declared
// @property C14
// @native the address of a declaration is outside the verifier's memory model
func spec_Ns_Declare(n *xmlNamespaces, prefix, uri string, i, k int) {
	vRequires(okNs(n) && n.currentContext >= 0)
	size, ctx, first := n.namespacesSize, n.currentContext, n.contexts[n.currentContext]
	vRequires(0 <= i && i < size && 0 <= k && k <= ctx)
	prefix0, uri0, from := nsPrefixAt(n, i), nsURIAt(n, i), n.contexts[k]
	again := n.declarePrefix(prefix, uri)
	vEnsures("well formed", okNs(n))
	vEnsures("context", n.currentContext == ctx && n.contexts[k] == from)
	vEnsures("prefixes", nsPrefixAt(n, i) == prefix0)
	vEnsures("other declarations", nsURIAt(n, i) == uri0 || again && i >= first && prefix0 == prefix && n.namespaces[i][1] == any(uri))
	vEnsures("new", again || n.namespacesSize == size+1 && n.namespaces[size][0] == any(prefix) && n.namespaces[size][1] == any(uri))
	vEnsures("not twice", again || i < first || prefix0 != prefix)
	vEnsures("again", !again || n.namespacesSize == size && (i < first || prefix0 != prefix || n.namespaces[i][1] == any(uri) ||
		vExists(i+1, size, func(j int) bool { return n.namespaces[j][0] == any(prefix) })))
}

// @property C14
// @inv ns
func spec_Ns_First(n *xmlNamespaces, prefix, uri string) {
	vRequires(okNs(n) && n.currentContext >= 0 && n.namespacesSize == n.contexts[n.currentContext])
	size, ctx := n.namespacesSize, n.currentContext
	again := n.declarePrefix(prefix, uri)
	vEnsures("well formed", okNs(n))
	vEnsures("new", !again && n.currentContext == ctx && n.namespacesSize == size+1 && n.namespaces[size][0] == any(prefix) && n.namespaces[size][1] == any(uri))
}

func inv_xmlNamespaces_declarePrefix_1__ns(n *xmlNamespaces, prefix string, i int) bool {
	return n.contexts[n.currentContext] <= i && i <= n.namespacesSize && vForall(i, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(prefix) })
}

// what any prefix stands for, inside an element that declares one and after it (i: the last declaration of that prefix)
// @property C14
// @inv ns
func spec_Ns_Inside(n *xmlNamespaces, prefix, uri, other string, i int) {
	vRequires(okNs(n))
	last := 0 <= i && i < n.namespacesSize && n.namespaces[i][0] == any(other) && vForall(i+1, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(other) })
	none := vForall(0, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(other) })
	vRequires(last || none)
	before := ""
	if last {
		before = nsURIAt(n, i)
	}
	n.pushContext()
	n.declarePrefix(prefix, uri)
	vAssert("kept", !last || n.namespaces[i][0] == any(other))
	in, ok := n.getURI(other)
	vEnsures("known", ok || !last)
	vEnsures("declared", ok || other != prefix)
	vEnsures("unknown", !ok || last || other == prefix)
	vEnsures("inside", !ok || other == prefix && in == uri || other != prefix && in == before)
}

// @property C14
// @inv ns
func spec_Ns_After(n *xmlNamespaces, prefix, uri, other string, i int) {
	vRequires(okNs(n))
	last := 0 <= i && i < n.namespacesSize && n.namespaces[i][0] == any(other) && vForall(i+1, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(other) })
	none := vForall(0, n.namespacesSize, func(j int) bool { return n.namespaces[j][0] != any(other) })
	vRequires(last || none)
	before := ""
	if last {
		before = nsURIAt(n, i)
	}
	n.pushContext()
	n.declarePrefix(prefix, uri)
	n.popContext()
	after, still := n.getURI(other)
	vEnsures("after", still == last && after == before)
}

// ---- prefixes of packages ----

type vmNsPack struct {
	EPackage
	uri, prefix string
}

func (p *vmNsPack) GetNsURI() string    { return p.uri }
func (p *vmNsPack) GetNsPrefix() string { return p.prefix }

// the prefix written for a package stands for its namespace
func okPackage(s *XMLEncoder, p *vmNsPack) bool {
	prefix, ok := s.packages[p]
	uri, declared := s.prefixesToURI[prefix]
	return !ok || declared && uri == p.uri
}

// @property C14
// @inv ns
func spec_Ns_PackagePrefix(s *XMLEncoder, p, q *vmNsPack, key string, must bool) {
	vRequires(s.packages != nil && s.prefixesToURI != nil && okPackage(s, p) && okPackage(s, q))
	known := s.uriToPrefixes[p.uri]
	vRequires(vForall(0, len(known), func(i int) bool {
		uri, declared := s.prefixesToURI[known[i]]
		return declared && uri == p.uri
	}))
	old, had := s.prefixesToURI[key]
	prefixQ, hadQ := s.packages[q]
	prefix := s.getPrefix(p, must)
	uri, declared := s.prefixesToURI[prefix]
	vEnsures("declared", declared && uri == p.uri)
	given, ok := s.packages[p]
	vEnsures("kept", ok && given == prefix)
	vEnsures("others", okPackage(s, q))
	now, has := s.prefixesToURI[key]
	vEnsures("declarations", !had || has && now == old)
	prefixQ2, hasQ := s.packages[q]
	vEnsures("other packages", p == q || hasQ == hadQ && prefixQ2 == prefixQ)
}

func inv_XMLEncoder_getPrefix_2__ns(s *XMLEncoder, nsPrefix string, exists bool, index int) bool {
	_, has := s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]
	return has == exists
}

// a namespace read is recorded under its prefix, or another one if that stands for an earlier namespace (key: any prefix recorded)
// @property C14
// @inv ns
func spec_Ns_Record(l *XMLDecoder, prefix, uri, key string) {
	vRequires(l.namespaces != nil && l.prefixesToURI != nil && l.spacesToFactories != nil && okNs(l.namespaces))
	n := l.namespaces
	vRequires(n.currentContext >= 0 && n.namespacesSize == n.contexts[n.currentContext])
	old, had := l.prefixesToURI[key]
	_, taken := l.prefixesToURI[prefix]
	l.startPrefixMapping(prefix, uri)
	now, has := l.prefixesToURI[key]
	vEnsures("earlier ones", !had || has && now == old)
	vEnsures("recorded", taken || l.prefixesToURI[prefix] == uri)
	in, ok := n.getURI(prefix)
	vEnsures("stands for", ok && in == uri)
	_, cached := l.spacesToFactories[uri]
	vEnsures("looked up again", !cached)
}

func inv_XMLDecoder_startPrefixMapping_1__ns(l *XMLDecoder, prefix string, exists bool, index int) bool {
	_, has := l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]
	return has == exists
}

func vgen_XMLDecoder(t *vTape) *XMLDecoder {
	l := &XMLDecoder{namespaces: vgen_xmlNamespaces(t), prefixesToURI: map[string]string{}, spacesToFactories: map[string]EFactory{}}
	l.namespaces.pushContext()
	for i := t.Choose(4); i > 0; i-- {
		p, u := t.Str(), t.Str()
		l.startPrefixMapping(p, u)
		t.Say("declare %q for %q", p, u)
	}
	l.namespaces.pushContext()
	return l
}

func vgen_xmlNamespaces(t *vTape) *xmlNamespaces {
	n := newXMLNamespaces()
	steps := t.Choose(8)
	for i := 0; i < steps; i++ {
		switch t.Choose(3) {
		case 0:
			n.pushContext()
			t.Say("enter an element")
		case 1:
			if n.currentContext >= 0 {
				n.popContext()
				t.Say("leave the element")
			}
		case 2:
			if n.currentContext >= 0 {
				p, u := t.Str(), t.Str()
				n.declarePrefix(p, u)
				t.Say("declare %q for %q", p, u)
			}
		}
	}
	return n
}

func vgen_vmNsPack(t *vTape) *vmNsPack {
	p := &vmNsPack{uri: t.Str(), prefix: t.Str()}
	t.Say("a package %q with prefix %q", p.uri, p.prefix)
	return p
}

func vgen_XMLEncoder(t *vTape) *XMLEncoder {
	s := &XMLEncoder{packages: map[EPackage]string{}, prefixesToURI: map[string]string{}, uriToPrefixes: map[string][]string{}}
	for i := t.Choose(4); i > 0; i-- {
		s.getPrefix(&vmNsPack{uri: t.Str(), prefix: t.Str()}, t.Bool())
	}
	t.Say("prefixes %v", s.prefixesToURI)
	return s
}
