package authorizerd

import (
	"net/url"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfFill replaces every placeholder in text by its value, left to right,
// the longest placeholder first; values are not looked at again.
func vfFill(text string, names, values []string) string {
	out := ""
	for i := 0; i < len(text); {
		best := -1
		for k, n := range names {
			if strings.HasPrefix(text[i:], n) && (best < 0 || len(n) > len(names[best])) {
				best = k
			}
		}
		if best >= 0 {
			out += values[best]
			i += len(names[best])
			continue
		}
		out += text[i : i+1]
		i++
	}
	return out
}

// vfRuleMatch tells whether one rule applies and with which placeholder values.
func vfRuleMatch(r Rule, segs []string, query url.Values) (bool, []string, []string) {
	var names, values []string
	pat, q := r.Path, ""
	if i := strings.Index(pat, "?"); i >= 0 {
		pat, q = pat[:i], pat[i+1:]
	}
	want := strings.Split(pat, "/")
	if len(want) != len(segs) {
		return false, nil, nil
	}
	for i, w := range want {
		if vfIsPlaceholder(w) {
			names, values = append(names, w), append(values, segs[i])
		} else if w != segs[i] {
			return false, nil, nil
		}
	}
	params, _ := url.ParseQuery(q)
	if len(params) != len(query) {
		return false, nil, nil
	}
	for _, k := range []string{"p", "q", "", "a"} {
		w, ok := params[k]
		if !ok {
			continue
		}
		v, ok := query[k]
		if !ok || len(v) != 1 {
			return false, nil, nil
		}
		if vfIsPlaceholder(w[0]) {
			names, values = append(names, w[0]), append(values, v[0])
		} else if w[0] != v[0] {
			return false, nil, nil
		}
	}
	return true, names, values
}

func vfTranslate(rules []Rule, method, path, query string) (act, res string, failed bool) {
	segs := strings.Split(path, "/")
	for _, r := range rules {
		if !strings.EqualFold(r.Method, method) {
			continue
		}
		pat := r.Path
		if i := strings.Index(pat, "?"); i >= 0 {
			pat = pat[:i]
		}
		if strings.Count(pat, "/") != strings.Count(path, "/") {
			continue
		}
		q, err := url.ParseQuery(query)
		if err != nil {
			return method, path, true
		}
		if ok, names, values := vfRuleMatch(r, segs, q); ok {
			return r.Action, vfFill(r.Resource, names, values), false
		}
	}
	return method, path, false
}

func vfCheckTranslation(rules []Rule, domain, method, path, query string) {
	spec := append([]Rule(nil), rules...)
	mr, err := NewMappingRules(map[string][]Rule{"d": rules, "e": {{Method: "get", Path: "/a", Action: "other", Resource: "other"}}})
	if err != nil {
		vf.Assert(false, "well-formed rules are accepted")
		return
	}
	switch domain {
	case "d":
	case "e":
		spec = []Rule{{Method: "get", Path: "/a", Action: "other", Resource: "other"}}
	default:
		spec = nil
	}
	wantAct, wantRes, wantErr := vfTranslate(spec, method, path, query)
	act, res, err := mr.Translate(domain, method, path, query)
	vf.Assert((err != nil) == wantErr, "translation fails exactly for a query that cannot be parsed")
	vf.Assert(act == wantAct, "the action is that of the first matching rule")
	vf.Assert(res == wantRes, "the resource is that of the first matching rule with the matched text as is")
	if wantErr {
		vf.Cover("bad query")
	} else if act == method && res == path {
		vf.Cover("unchanged")
	} else {
		vf.Cover("translated")
	}
}

// Requests whose matched text may look like anything, even a placeholder.
func VF_C23_Values() {
	vf.MapOrder(3)
	paths := []string{"/{x}/{y}", "/{x}/{xy}?p={q}", "/{x}?p={y}", "/{y}?p={x}&q={p}"}
	resources := []string{"{x}{y}", "{y}:{x}", "r.{x}.{x}", "{xy}{q}{x}", "{x}{p}{y}", "const", "{x", "{{x}}"}
	i := vf.Choice("path", len(paths))
	rules := []Rule{{Method: "get", Path: paths[i], Action: "act", Resource: resources[vf.Choice("resource", len(resources))]}}
	seg := func(name string) string {
		// some text, or text that is a placeholder of the rule
		if k := vf.Choice("special", 5); k > 0 {
			return []string{"{x}", "{y}", "{q}", "%41+"}[k-1]
		}
		return vf.StrOf(name, "aX{x} ", 0, vf.Q(1, 3))
	}
	path, query := "/"+seg("segment"), ""
	switch i {
	case 0:
		path += "/" + seg("segment")
	case 1:
		path += "/" + seg("segment")
		query = "p=" + seg("value")
	case 2:
		query = "p=" + seg("value")
	case 3:
		query = "q=" + seg("value") + "&p=" + seg("value")
	}
	vfCheckTranslation(rules, "d", "GET", path, query)
}

// Placeholders whose names overlap in the resource.
func VF_C23_Overlap() {
	vf.MapOrder(3)
	paths := []string{"/{x}/{x}}", "/{{x}/{x}?p={x}y}", "/{x}}/{x}"}
	resources := []string{"{x}}{x}", "{{x}y}{x}", "{{x}}}", "{x}y}}{{x}"}
	i := vf.Choice("path", len(paths))
	rules := []Rule{{Method: "get", Path: paths[i], Action: "act", Resource: resources[vf.Choice("resource", len(resources))]}}
	path, query := "/"+vf.StrOf("segment", "a{", 1, 1)+"/"+[]string{"b", "{x}", "}"}[vf.Choice("segment", 3)], ""
	if i == 1 {
		query = "p=" + vf.StrOf("value", "c}", 1, 1)
	}
	vfCheckTranslation(rules, "d", "GET", path, query)
}

// Which of two rules applies, if any.
func VF_C23_Matching() {
	vf.MapOrder(2)
	pats := []string{"/a", "/{x}", "/a/b", "/{x}/b", "/a?p=b", "/a?p={x}", "/a?p=b&q={x}", "", "/", "/a/{x}/c"}
	methods := []string{"get", "*", "GeT", "post"}
	rule := func(n int) Rule {
		return Rule{Method: methods[vf.Choice("method", vf.Q(2, 4))], Path: pats[vf.Choice("pattern", len(pats))], Action: "act" + string(rune('0'+n)), Resource: "res" + string(rune('0'+n)) + "{x}"}
	}
	rules := []Rule{rule(1)}
	if vf.Choice("second", 2) == 1 {
		rules = append(rules, Rule{Method: "GET", Path: pats[vf.Choice("pattern", vf.Q(6, len(pats)))], Action: "act2", Resource: "res2{x}"})
	}
	method := []string{"get", "PosT", ""}[vf.Choice("requested", 3)]
	path := "/" + vf.StrOf("segment", "aAb", 0, 1)
	switch vf.Choice("depth", 4) {
	case 0:
		path = vf.StrOf("odd", "aA/", 0, 1)
	case 2:
		path += "/" + vf.StrOf("segment", "bB?", 0, 1)
	case 3:
		path += "/b/" + vf.StrOf("segment", "c", 0, 1)
	}
	query := ""
	switch vf.Choice("query", 7) {
	case 1:
		query = "p=" + vf.StrOf("value", "bBc", 0, 1)
	case 2:
		query = "p=b&q=" + vf.StrOf("value", "bBc", 0, 1)
	case 3:
		query = "q=c&p=" + vf.StrOf("value", "bBc", 0, 1)
	case 4:
		query = "p=b&p=" + vf.StrOf("value", "bBc", 0, 1)
	case 5:
		query = "p=%6" + vf.StrOf("value", "2z", 0, 1)
	case 6:
		query = "r=b"
	}
	vfCheckTranslation(rules, "d", method, path, query)
}

// Any path and query text.
func VF_C23_Text() {
	vf.MapOrder(2)
	rules := [][]Rule{
		{{Method: "get", Path: "/a/{x}", Action: "act", Resource: "r{x}"}, {Method: "get", Path: "/{x}", Action: "act2", Resource: "{x}r"}},
		{{Method: "get", Path: "/a?p={x}", Action: "act", Resource: "r{x}"}, {Method: "get", Path: "/{y}?p=a&q={x}", Action: "act2", Resource: "{y}{x}"}},
		{{Method: "get", Path: "/{x}?a=", Action: "act", Resource: "r{x}"}},
	}[vf.Choice("rules", 3)]
	domain := []string{"d", "e", "", "f"}[vf.Choice("domain", 4)]
	method := vf.StrOf("method", "gG", 1, 1) + "et"
	path := vf.StrOf("path", "/aA", 0, vf.Q(3, 5))
	query := vf.StrOf("query", "pPq=&a", 0, vf.Q(3, 4))
	vfCheckTranslation(rules, domain, method, path, query)
}

// Two requests in a row: the answer never depends on the one before.
func VF_C23_History() {
	rules := []Rule{
		{Method: "get", Path: "/a/{x}", Action: "act1", Resource: "one{x}"},
		{Method: "get", Path: "/{x}/b?p={y}", Action: "act2", Resource: "two{x}{y}"},
		{Method: "post", Path: "/{x}/{y}", Action: "act3", Resource: "three{y}"},
	}
	others := []Rule{{Method: "*", Path: "/{x}/{y}", Action: "act4", Resource: "four{x}"}}
	mr, err := NewMappingRules(map[string][]Rule{"d": rules, "e": others})
	if err != nil {
		vf.Assert(false, "well-formed rules are accepted")
		return
	}
	for i := 0; i < 2; i++ {
		spec, domain := rules, "d"
		switch vf.Choice("domain", 3) {
		case 1:
			spec, domain = others, "e"
		case 2:
			spec, domain = nil, "f"
		}
		method := []string{"GET", "post"}[vf.Choice("method", 2)]
		path := "/" + vf.StrOf("first", "a{", 1, 1) + "/" + vf.StrOf("second", "b{", 1, 1)
		query := ""
		if vf.Choice("query", 2) == 1 {
			query = "p=" + vf.StrOf("value", "xy", 1, 1)
		}
		act, res, err := mr.Translate(domain, method, path, query)
		wantAct, wantRes, wantErr := vfTranslate(spec, method, path, query)
		vf.Assert((err != nil) == wantErr && act == wantAct && res == wantRes, "every request is translated on its own")
		if act == method {
			vf.Cover("unchanged")
		} else {
			vf.Cover("translated")
		}
	}
}

// The method of a rule is compared as a whole, whatever its letter case.
func VF_C23_Methods() {
	names := []string{"get", "GET", "head", "HEAD", "post", "PUT", "Delete", "options", "PATCH", "*", "any", "ge", " get", "getx"}
	rules := []Rule{
		{Method: names[vf.Choice("rule", len(names))], Path: "/{x}", Action: "act1", Resource: "one{x}"},
		{Method: names[vf.Choice("rule", len(names))], Path: "/a", Action: "act2", Resource: "two"},
	}
	method := names[vf.Choice("requested", len(names))]
	if vf.Choice("other", 8) == 1 {
		method = vf.StrOf("method", "gGeEtTh", 0, 3)
	}
	vfCheckTranslation(rules, "d", method, "/a", "")
}
