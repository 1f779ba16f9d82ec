package authorizerd

import (
	"net/url"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfWellFormed tells whether a rule has to be accepted.
func vfWellFormed(r Rule) bool {
	if r.Method == "" || r.Action == "" || r.Resource == "" {
		return false
	}
	if r.Path != "" && r.Path[0] != '/' {
		return false
	}
	pat, q := r.Path, ""
	if i := strings.Index(pat, "?"); i >= 0 {
		pat, q = pat[:i], pat[i+1:]
	}
	var seen []string
	name := func(s string) bool {
		if s == "{}" {
			return false
		}
		if vfIsPlaceholder(s) {
			for _, o := range seen {
				if o == s {
					return false
				}
			}
			seen = append(seen, s)
		}
		return true
	}
	for _, s := range strings.Split(pat, "/") {
		if !name(s) {
			return false
		}
	}
	params, err := url.ParseQuery(q)
	if err != nil {
		return false
	}
	for _, v := range params {
		if len(v) != 1 || !name(v[0]) {
			return false
		}
	}
	return true
}

func vfValidate(rules map[string][]Rule, want bool) {
	mr, err := NewMappingRules(rules)
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("refused")
	}
	vf.Assert(err == nil || !want, "well-formed rules are accepted")
	vf.Assert(err != nil || want, "malformed rules are refused")
	vf.Assert((err == nil) == (mr != nil), "rules exactly without an error")
}

// Any path text.
func VF_C24_Path() {
	vf.MapOrder(2)
	shapes := []string{"/", "/{x}/", "/a?p=", "/{x}?p=", "/a?p={x}&q=", "/a?p=a&"}
	path := ""
	if k := vf.Choice("start", len(shapes)+1); k < len(shapes) {
		path = shapes[k] + vf.StrOf("rest", "{}xp=/?", 0, vf.Q(5, 6))
	} else {
		path = vf.StrOf("path", "/{}x?%", 0, vf.Q(6, 7))
	}
	r := Rule{Method: "get", Path: path, Action: "a", Resource: "r"}
	want := vfWellFormed(r)
	vfValidate(map[string][]Rule{"d": {r}}, want)
}

// Missing fields, domains and lists, in any of several rules.
func VF_C24_Fields() {
	vf.MapOrder(3)
	switch vf.Choice("shape", 5) {
	case 0:
		vfValidate(nil, false)
		return
	case 1:
		vfValidate(map[string][]Rule{}, true)
		return
	case 2:
		vfValidate(map[string][]Rule{"a": {}, "b": nil}, false)
		return
	case 3:
		vfValidate(map[string][]Rule{"a": {}, "b": {}}, true)
		return
	}
	one := Rule{Method: "m", Path: "/{x}", Action: "a", Resource: "{x}"}
	two := Rule{Method: vf.StrOf("method", "m ", 0, 1), Path: vf.StrOf("path", "/a", 0, 2), Action: vf.StrOf("action", "a ", 0, 1), Resource: vf.StrOf("resource", "r ", 0, 1)}
	domain := vf.StrOf("domain", "d ", 0, 1)
	want := domain != "" && vfWellFormed(two)
	switch vf.Choice("place", 4) {
	case 0:
		vfValidate(map[string][]Rule{domain: {one, two}}, want)
	case 1:
		vfValidate(map[string][]Rule{domain: {two, one}}, want)
	case 2:
		vfValidate(map[string][]Rule{"x": {one}, domain: {two}}, want)
	case 3:
		vfValidate(map[string][]Rule{"x": {two}, domain: {one}}, want)
	}
}

// Rules that were already used once.
func VF_C24_Again() {
	vf.MapOrder(2)
	paths := []string{"/{x}?p={y}", "/{y}?p={x}", "/a?p={x}", "/{x}", "/{x}/{y}", "/{x}/{x}", "/{y}?q={y}"}
	list := []Rule{{Method: "get", Path: paths[vf.Choice("first", 5)], Action: "a", Resource: "r"}}
	if _, err := NewMappingRules(map[string][]Rule{"d": list}); err != nil {
		vf.Assert(false, "well-formed rules are accepted")
		return
	}
	list[0].Path = paths[vf.Choice("second", len(paths))]
	want := vfWellFormed(list[0])
	vfValidate(map[string][]Rule{"d": list}, want)
}

// Actions and resources may be any text, with or without the placeholders of the path.
func VF_C24_Targets() {
	r := Rule{Method: vf.StrOf("method", "g*/", 1, 2), Path: []string{"", "/", "/{x}", "/{x}?p={y}", "//", "/a/"}[vf.Choice("path", 6)],
		Action: vf.StrOf("action", "a{}x*", 1, vf.Q(3, 4)), Resource: vf.StrOf("resource", "{}xz:*?/", 1, vf.Q(4, 5))}
	domain := vf.StrOf("domain", "d.-*{", 1, 2)
	vfValidate(map[string][]Rule{domain: {r}}, true)
}

// No accepted rule makes a translation panic.
func VF_C24_NoPanic() {
	r := Rule{Method: "get", Path: "/" + vf.StrOf("path", "{}x/?=p", 0, vf.Q(5, 6)), Action: "a", Resource: "r{x}"}
	mr, err := NewMappingRules(map[string][]Rule{"d": {r}})
	if err != nil {
		vf.Cover("refused")
		return
	}
	path := vf.StrOf("requested", "/x", 0, vf.Q(2, 3))
	query := []string{"", "p=x", "=", "&"}[vf.Choice("query", 4)]
	act, res, err := mr.Translate("d", "GET", path, query)
	vf.Assert(err == nil, "a query that can be parsed is no error")
	vf.Assert(act == "a" || act == "GET" && res == path, "the request is translated or unchanged")
	if act == "a" {
		vf.Cover("translated")
	} else {
		vf.Cover("unchanged")
	}
}

// Names are the same only when they are written the same.
func VF_C24_Names() {
	vf.MapOrder(2)
	one, two := "{"+vf.StrOf("one", "xX.", 1, 2)+"}", "{"+vf.StrOf("two", "xX ", 1, vf.Q(2, 3))+"}"
	path := ""
	switch vf.Choice("place", 4) {
	case 0:
		path = "/" + one + "/" + two
	case 1:
		path = "/" + one + "/a?p=" + two
	case 2:
		path = "/a?p=" + one + "&q=" + two
	case 3:
		path = "/" + one + "?P=a&p=" + two
	}
	r := Rule{Method: "get", Path: path, Action: "a", Resource: "r" + one}
	vfValidate(map[string][]Rule{"d": {r}}, vfWellFormed(r))
}
