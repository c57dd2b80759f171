package ecore

import (
	"fmt"
	"net/url"
	"path/filepath"
	"strings"

	"github.com/KarpelesLab/weak"
)

// ---- the cache of URIs: a map whose entries may disappear at any time (trusted
// model of the weak map) ----

type vmURICache struct{ m map[string]*URI }

func (c *vmURICache) Peek(k string) *URI { return c.m[k] }
func (c *vmURICache) Get(k string) *URI {
	if vPickBool() {
		return nil
	}
	return c.m[k]
}
func (c *vmURICache) Set(k string, u *URI) *URI {
	if old := c.m[k]; old != nil && vPickBool() {
		return old
	}
	c.m[k] = u
	return u
}

// the URI that is known for a text
func cachedURI(k string) *URI {
	if uriCache == nil {
		return nil
	}
	return uriCache.Get(k)
}

// a URI that is known for a text has that text
func okCache() bool {
	return vAll(func(k string) bool {
		u := cachedURI(k)
		return u == nil || u.rawURI == k && vBorn(u)
	})
}

// the text of the components
func vuURIText(scheme, username, password, host, port, path, query, fragment string) string {
	s := ""
	if scheme != "" {
		s = scheme + ":"
	}
	if username != "" || password != "" || host != "" || port != "" {
		s = s + "//" + vuAuthority(username, password, host, port)
	}
	s = s + path
	if query != "" {
		s = s + "?" + query
	}
	if fragment != "" {
		s = s + "#" + fragment
	}
	return s
}

func vuAuthority(username, password, host, port string) string {
	s := ""
	if username != "" || password != "" {
		s = username
		if password != "" {
			s = s + ":" + password
		}
		s = s + "@"
	}
	s = s + host
	if port != "" {
		s = s + ":" + port
	}
	return s
}

func isParts(u *URI, scheme, username, password, host, port, path, query, fragment string) bool {
	return u.scheme == scheme && u.username == username && u.password == password && u.host == host &&
		u.port == port && u.path == path && u.query == query && u.fragment == fragment
}

// u is the URI of the components: it has their text and, unless a URI of that text
// was known before, the components
func isURIOf(u, known *URI, scheme, username, password, host, port, path, query, fragment string) bool {
	return u != nil && u.rawURI == vuURIText(scheme, username, password, host, port, path, query, fragment) &&
		(known != nil && u == known || isParts(u, scheme, username, password, host, port, path, query, fragment))
}

// @property C08
// @contract NewURIFromComponents
// @unfold vuURIText vuAuthority
func spec_NewURIFromComponents(scheme, username, password, host, port, path, query, fragment string) *URI {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	want := vuURIText(scheme, username, password, host, port, path, query, fragment)
	known := vPure(cachedURI(want))
	vModifies(vKeys(vWeak(uriCache).m))
	u := NewURIFromComponents(scheme, username, password, host, port, path, query, fragment)
	vEnsures("the URI has the text of its components, and the components", isURIOf(u, known, scheme, username, password, host, port, path, query, fragment))
	vEnsures("known URIs keep their texts", okCache())
	return u
}

// the trusted model of the cache; natively a stand-in
func vWeak(c *weak.Map[string, URI]) *vmURICache { return &vmURICache{m: map[string]*URI{}} }

func init() { getURICache() }

// @property C08
// @contract getURICache
func spec_getURICache() *weak.Map[string, URI] {
	old := uriCache
	vModifies(uriCache)
	c := getURICache()
	vEnsures("there is one cache", c != nil && c == uriCache && (old == nil || c == old))
	vEnsures("a first cache knows nothing", old != nil || vFresh(c))
	return c
}

// @property C08
func spec_getURICache_First(k string) {
	vRequires(uriCache == nil)
	getURICache()
	vEnsures("a first cache knows nothing", vWeak(uriCache).m != nil && cachedURI(k) == nil)
}

// what the path of a URI is in its normal form (natively: the segments one by one,
// independently of the code)
func vuNormalize(p string) string {
	abs := strings.HasPrefix(p, "/")
	raw := strings.Split(p, "/")
	normal := !strings.Contains(p, "//")
	var segs []string
	for _, s := range raw {
		if s == "." || s == ".." {
			normal = false
		}
		if s != "" {
			segs = append(segs, s)
		}
	}
	if normal {
		return p
	}
	type seg struct {
		s     string
		n     int
		slash bool
	}
	var out []seg
	for i, s := range segs {
		g := seg{s, i, i < len(segs)-1 || strings.HasSuffix(p, "/")}
		switch {
		case s == ".":
		case s == ".." && len(out) > 0 && out[len(out)-1].s != "..":
			out = out[:len(out)-1]
		default:
			out = append(out, g)
		}
	}
	r := ""
	if abs {
		r = "/"
	} else if len(out) > 0 && out[0].n > 0 && strings.Contains(out[0].s, ":") {
		r = "./"
	}
	for _, g := range out {
		r += g.s
		if g.slash {
			r += "/"
		}
	}
	return r
}

// @property C08
// @contract normalize
// @text / . .. a b: /../ ./
// @native the path is edited in place, as runes and marks; its result is compared with the normal form of the segments
func spec_normalize(path string) string {
	vRequires(okPath(path))
	r := normalize(path)
	vEnsures("the normal form of the path", r == vuNormalize(path))
	return r
}

// a path without marks (a NUL character is taken for a separator)
func okPath(path string) bool { return true }

// @property C08
func spec_URIBuilder_Set(b *URIBuilder, op int, v string) {
	vRequires(0 <= op && op <= 9)
	s, u, pw, h, po, pa, q, f := b.scheme, b.username, b.password, b.host, b.port, b.path, b.query, b.fragment
	var r *URIBuilder
	switch op {
	case 0:
		r, s = b.SetScheme(v), v
	case 1:
		r, u = b.SetUsername(v), v
	case 2:
		r, pw = b.SetPassword(v), v
	case 3:
		r, h = b.SetHost(v), v
	case 4:
		r, po = b.SetPort(v), v
	case 5:
		r, pa = b.SetPath(v), v
	case 6:
		r, q = b.SetQuery(v), v
	case 7:
		r, q = b.ClearQuery(), ""
	case 8:
		r, f = b.SetFragment(v), v
	default:
		r, f = b.ClearFragment(), ""
	}
	vEnsures("the builder changes one component", r == b && b.scheme == s && b.username == u && b.password == pw && b.host == h && b.port == po && b.path == pa && b.query == q && b.fragment == f)
}

// @property C08
// @contract URIBuilder.URI
// @uses spec_NewURIFromComponents
func spec_URIBuilder_URI(b *URIBuilder) *URI {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	known := vPure(cachedURI(vuURIText(b.scheme, b.username, b.password, b.host, b.port, b.path, b.query, b.fragment)))
	vModifies(vKeys(vWeak(uriCache).m))
	u := b.URI()
	vEnsures("the URI of the components set", isURIOf(u, known, b.scheme, b.username, b.password, b.host, b.port, b.path, b.query, b.fragment))
	vEnsures("known URIs keep their texts", okCache())
	return u
}

// @property C08
// @contract NewURIBuilder
func spec_NewURIBuilder(uri *URI) *URIBuilder {
	b := NewURIBuilder(uri)
	vEnsures("a builder starts from the components", b != nil && vFresh(b) && b.scheme == uri.scheme && b.username == uri.username && b.password == uri.password && b.host == uri.host && b.port == uri.port && b.path == uri.path && b.query == uri.query && b.fragment == uri.fragment)
	return b
}

// @property C08
func spec_NewURIBuilder_Nil() {
	b := NewURIBuilder(nil)
	vEnsures("a builder without URI is empty", b != nil && b.scheme == "" && b.username == "" && b.password == "" && b.host == "" && b.port == "" && b.path == "" && b.query == "" && b.fragment == "")
}

// @property C08
// @text http : // a @ h 80 / ? # %41 b% [::1] x=1
// @uses spec_getURICache
func spec_ParseURI(raw string) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	known := vPure(cachedURI(raw))
	u, err := ParseURI(raw)
	want, werr := url.Parse(raw)
	vEnsures("a text is a URI or an error", (u == nil) == (err != nil))
	vEnsures("the URI has the text it was parsed from", u == nil || u.rawURI == raw && u.String() == raw)
	vEnsures("an error is what parsing says", err == nil || werr != nil)
	vEnsures("known URIs keep their texts", okCache())
	if u != nil && (known == nil || u != known) {
		vAssert("no error", werr == nil)
		vEnsures("scheme, query and fragment are those of the text", u.scheme == want.Scheme && u.query == want.RawQuery && u.fragment == want.Fragment)
		path := want.Path
		if want.Opaque != "" {
			path = want.Opaque
		}
		vEnsures("the path is that of the text", u.path == path)
		name, pass := "", ""
		if want.User != nil {
			name = want.User.Username()
			pass, _ = want.User.Password()
		}
		vEnsures("the user is that of the text", u.username == name && u.password == pass)
		hostport := u.host
		if u.port != "" || strings.IndexByte(want.Host, ':') >= 0 {
			hostport = u.host + ":" + u.port
		}
		vEnsures("host and port are those of the text", hostport == want.Host)
	}
}

// @property C08
func spec_NewURI(raw string) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	u := NewURI(raw)
	vEnsures("the URI has the text it was made from", u == nil || u.rawURI == raw)
}

// @property C08
func spec_URI_Parts(u *URI) {
	vEnsures("the accessors give the components", u.Scheme() == u.scheme && u.Username() == u.username && u.Password() == u.password && u.Host() == u.host && u.Port() == u.port && u.Path() == u.path && u.Query() == u.query && u.Fragment() == u.fragment && u.String() == u.rawURI)
	vEnsures("absolute: it has a scheme", u.IsAbsolute() == (u.scheme != ""))
	vEnsures("opaque: it has no path", u.IsOpaque() == (u.path == ""))
}

// @property C08
func spec_URI_Equals(u, o *URI) {
	vEnsures("equal: the same text", u.Equals(o) == (u.rawURI == o.rawURI))
	vEnsures("equal both ways", u.Equals(o) == o.Equals(u))
	vEnsures("not equal to nothing", !u.Equals(nil))
}

// @property C08
// @contract URI.Authority
// @unfold vuAuthority
func spec_URI_Authority(u *URI) string {
	want := vuAuthority(u.username, u.password, u.host, u.port)
	a := u.Authority()
	vEnsures("the authority is made of its components", u.host == "" || a == want)
	vEnsures("no host, no authority", (u.host == "") == (a == ""))
	return a
}

// @property C08
// @contract URI.TrimFragment
// @uses spec_NewURIFromComponents
func spec_URI_TrimFragment(u *URI) *URI {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	known := vPure(cachedURI(vuURIText(u.scheme, u.username, u.password, u.host, u.port, u.path, u.query, "")))
	vModifies(vKeys(vWeak(uriCache).m))
	r := u.TrimFragment()
	vEnsures("the URI without its fragment", isURIOf(r, known, u.scheme, u.username, u.password, u.host, u.port, u.path, u.query, ""))
	vEnsures("known URIs keep their texts", okCache())
	return r
}

// @property C08
// @contract URI.TrimQuery
// @uses spec_NewURIFromComponents
func spec_URI_TrimQuery(u *URI) *URI {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	known := vPure(cachedURI(vuURIText(u.scheme, u.username, u.password, u.host, u.port, u.path, "", u.fragment)))
	vModifies(vKeys(vWeak(uriCache).m))
	r := u.TrimQuery()
	vEnsures("the URI without its query", isURIOf(r, known, u.scheme, u.username, u.password, u.host, u.port, u.path, "", u.fragment))
	vEnsures("known URIs keep their texts", okCache())
	return r
}

// @property C08
// @uses spec_NewURIFromComponents spec_normalize
func spec_URI_Normalize(u *URI) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	np := vuNormalize(u.path)
	known := vPure(cachedURI(vuURIText(u.scheme, u.username, u.password, u.host, u.port, np, u.query, u.fragment)))
	r := u.Normalize()
	vEnsures("the URI with its path in normal form", r == u && (u.path == "" || np == u.path) || u.path != "" && isURIOf(r, known, u.scheme, u.username, u.password, u.host, u.port, np, u.query, u.fragment))
}

// the path of a reference, from the path of its base
func refPath(base, path string) string {
	if path != "" && path[0] == '/' {
		return path
	}
	i := strings.LastIndexByte(base, '/')
	if i >= 0 {
		path = base[0:i+1] + path
	}
	return vuNormalize(path)
}

// @property C08
// @uses spec_NewURIFromComponents spec_normalize spec_URI_Authority
func spec_URI_Resolve(u, ref *URI) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	relative := ref.scheme == ""
	local := ref.host == ""
	lone := relative && local && ref.path == "" && ref.query == ""
	path := refPath(u.path, ref.path)
	k1 := vPure(cachedURI(vuURIText(u.scheme, u.username, u.password, u.host, u.port, u.path, u.query, ref.fragment)))
	k2 := vPure(cachedURI(vuURIText(u.scheme, u.username, u.password, u.host, u.port, path, ref.query, ref.fragment)))
	k3 := vPure(cachedURI(vuURIText(u.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)))
	r := u.Resolve(ref)
	vEnsures("an absolute reference is what it refers to", relative || r == ref)
	vEnsures("a fragment is resolved in the base itself", !lone || r == u && u.fragment == ref.fragment || isURIOf(r, k1, u.scheme, u.username, u.password, u.host, u.port, u.path, u.query, ref.fragment))
	if relative && !lone && u.path != "" && ref.path != "" {
		vEnsures("a path is resolved beside the path of the base", !local || isURIOf(r, k2, u.scheme, u.username, u.password, u.host, u.port, path, ref.query, ref.fragment))
		vEnsures("an authority is kept", local || isURIOf(r, k3, u.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment))
	}
}

// @property C08
// @uses spec_NewURIFromComponents spec_normalize spec_URI_Authority
func spec_URI_Relativize(u, ref *URI) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	bp, cp := vuNormalize(u.path), vuNormalize(ref.path)
	if bp != cp && !strings.HasSuffix(bp, "/") {
		i := strings.LastIndexByte(bp, '/')
		bp = bp[0 : i+1]
	}
	related := u.path != "" && ref.path != "" && u.scheme == ref.scheme && sameAuthority(u, ref) && (vuNormalize(u.path) == cp || strings.HasPrefix(cp, bp))
	rest := ""
	if related {
		rest = cp[len(bp):]
	}
	known := vPure(cachedURI(vuURIText("", "", "", "", "", rest, ref.query, ref.fragment)))
	r := u.Relativize(ref)
	vEnsures("an unrelated URI is left", related || r == ref)
	vEnsures("what follows the base is left", !related || isURIOf(r, known, "", "", "", "", "", rest, ref.query, ref.fragment))
}

// @property C08
// @uses spec_NewURIFromComponents
func spec_URI_ReplacePrefix(u, from, to *URI) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	has := u.scheme == from.scheme && u.username == from.username && u.password == from.password && u.host == from.host && u.port == from.port && strings.HasPrefix(u.path, from.path)
	path := ""
	if has {
		path = to.path + u.path[len(from.path):]
	}
	known := vPure(cachedURI(vuURIText(to.scheme, u.username, u.password, u.host, u.port, path, u.query, u.fragment)))
	r := u.ReplacePrefix(from, to)
	vEnsures("a URI without the prefix is not changed", has || r == nil)
	if has && to.host == "" && to.port == "" && to.username == "" && to.password == "" {
		vEnsures("the prefix is replaced and the rest kept", isURIOf(r, known, to.scheme, u.username, u.password, u.host, u.port, path, u.query, u.fragment))
	}
}

// @property C08
// @uses spec_NewURIFromComponents
func spec_CreateMemoryURI(path string) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	p := filepath.ToSlash(path)
	known := vPure(cachedURI(vuURIText("memory", "", "", "", "", p, "", "")))
	r := CreateMemoryURI(path)
	vEnsures("a memory URI has the path", p == "" && r == nil || isURIOf(r, known, "memory", "", "", "", "", p, "", ""))
}

// @property C08
// @uses spec_NewURIFromComponents
func spec_CreateFileURI(path string) {
	vRequires(uriCache != nil && vWeak(uriCache) != nil && vWeak(uriCache).m != nil && okCache())
	p := filepath.ToSlash(path)
	scheme := ""
	if filepath.IsAbs(p) {
		scheme = "file"
	}
	known := vPure(cachedURI(vuURIText(scheme, "", "", "", "", p, "", "")))
	r := CreateFileURI(path)
	vEnsures("a file URI has the path, and a scheme if the path is absolute", p == "" && r == emptyURI || isURIOf(r, known, scheme, "", "", "", "", p, "", ""))
}

func sameAuthority(u, o *URI) bool {
	if u.host == "" || o.host == "" {
		return u.host == o.host
	}
	return vuAuthority(u.username, u.password, u.host, u.port) == vuAuthority(o.username, o.password, o.host, o.port)
}

// ---- native generators ----

func pick(t *vTape, s ...string) string { return s[t.Choose(len(s))] }

func vgen_URI(t *vTape) *URI {
	var u *URI
	host := pick(t, "", "h", "g", "")
	path := pick(t, "a/b", "", "a", "a/../c", "./b/", "../d", "/a/b", "/a/b/", "/a/c/d", "/")
	if host != "" {
		path = pick(t, "/a/b", "", "/a", "/a/../c", "/a/b/", "/a/b/c", "/")
	}
	scheme, query, fragment := pick(t, "", "s", "file"), pick(t, "", "q", "q=1"), pick(t, "", "f")
	if host == "" {
		u = NewURIFromComponents(scheme, "", "", "", "", path, query, fragment)
	} else {
		u = NewURIFromComponents(scheme, pick(t, "", "h", "u"), pick(t, "", "p", "h"), host, pick(t, "", "8"), path, query, fragment)
	}
	t.Keep(u)
	return u
}

func (u *URI) vShow() string { return fmt.Sprintf("%q", u.rawURI) }

func vgen_URIBuilder(t *vTape) *URIBuilder { return NewURIBuilder(vgen_URI(t)) }

// A URI written out and parsed has the same components, relativizing is undone by resolving, and
// accessors of a parsed URI agree with those of the one composed.
//
// @property C08
// @native URIs of a few hierarchical components; parsing is the standard library's
func spec_URI_RoundTrip(u, o *URI) {
	raw := u.String()
	keep := *u
	uriCache = nil
	p, err := ParseURI(raw)
	vEnsures("the text of a URI is a URI", err == nil && p != nil)
	vEnsures("with the same components", *p == keep)
	vEnsures("the builder gives it back", NewURIBuilder(u).URI().Equals(u))
	if u.host != "" && strings.HasPrefix(o.path, "/") && o.scheme == u.scheme && sameAuthority(u, o) {
		b := NewURIFromComponents(u.scheme, u.username, u.password, u.host, u.port, "/a/", "", "")
		n := o.Normalize()
		if strings.HasPrefix(n.path, "/a/") && n.path != "/a/" {
			r := b.Relativize(o)
			vEnsures("relativizing is undone by resolving", b.Resolve(r).Equals(n))
		}
	}
}
