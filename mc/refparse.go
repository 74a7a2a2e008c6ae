package main

import (
	"errors"
	"regexp"
	"strings"
)

// errVague is returned where the documentation doesn't say whether the
// template is valid: for an opening brace in a character class.
var errVague = errors.New("vague")

// refParse is an independent reading of the documented template syntax.
func refParse(s string) (MTmpl, error) {
	var t MTmpl
	bad := func(why string) (MTmpl, error) { return MTmpl{}, errors.New(why) }
	if s == "" {
		return bad("empty")
	}
	if s[0] == '$' { // the name: up to the first colon without a backslash
		i := 1
		for {
			if i >= len(s) {
				return bad("no content")
			}
			if s[i] == ':' {
				if i > 1 && s[i-1] == '\\' {
					t.Name = t.Name[:len(t.Name)-1] + ":"
					i++
					continue
				}
				break
			}
			t.Name += s[i : i+1]
			i++
		}
		s = s[i+1:]
	} else if strings.HasPrefix(s, `\$`) {
		s = s[1:]
	}
	if s == "" {
		return bad("no content")
	}
	pats := map[string]string{}
	wildName := ""
	hasWild := false
	for s != "" {
		// static text: a brace right after a backslash stands for itself
		text := ""
		for s != "" && s[0] != '{' {
			if strings.HasPrefix(s, `\{`) || strings.HasPrefix(s, `\}`) {
				text += s[1:2]
				s = s[2:]
				continue
			}
			if s[0] == '}' {
				return bad("unescaped closing brace")
			}
			text += s[:1]
			s = s[1:]
		}
		if text != "" {
			t.Segs = append(t.Segs, MSeg{K: kLit, Text: text})
		}
		if s == "" {
			break
		}
		// dynamic segment
		s = s[1:]
		name := ""
		depth := 1
		i := 0
		colon := false
		closed := false
		for ; i < len(s); i++ {
			switch {
			case s[i] == '{':
				depth++
			case s[i] == '}':
				depth--
			case s[i] == ':' && i > 0 && s[i-1] == '\\':
				name = name[:len(name)-1]
			case s[i] == ':':
				if depth > 1 {
					return bad("colon in braces")
				}
				colon = true
			}
			if colon {
				break
			}
			if depth == 0 {
				closed = true
				break
			}
			name += s[i : i+1]
		}
		if !colon && !closed {
			return bad("unclosed")
		}
		if name == "" {
			return bad("no name")
		}
		s = s[i+1:]
		if closed {
			if p, ok := pats[name]; ok {
				t.Segs = append(t.Segs, MSeg{K: kRe, Name: name, Pat: p})
				continue
			}
			if hasWild {
				return bad("another wildcard")
			}
			hasWild, wildName = true, name
			t.Segs = append(t.Segs, MSeg{K: kWild, Name: name})
			continue
		}
		// pattern: up to the closing brace of the segment
		depth = 1
		end := -1
		cls := -1
		for i := 0; i < len(s) && end < 0; i++ {
			c := s[i]
			switch {
			case c == '\\':
				i++
			case cls >= 0:
				if c == '{' {
					return MTmpl{}, errVague
				}
				if c == ']' && !(i == cls+1 || i == cls+2 && s[cls+1] == '^') {
					cls = -1
				}
			case c == '[':
				cls = i
			case c == '{':
				depth++
			case c == '}':
				depth--
				if depth == 0 {
					end = i
				}
			}
		}
		if end < 0 {
			return bad("unclosed")
		}
		p := s[:end]
		s = s[end+1:]
		if p == "" {
			return bad("empty pattern")
		}
		if _, err := regexp.Compile(p); err != nil {
			return bad("bad pattern")
		}
		if hasWild && name == wildName {
			return bad("the name of the wildcard") // see p02.go
		}
		if q, ok := pats[name]; ok && q != p {
			return bad("different pattern")
		}
		pats[name] = p
		t.Segs = append(t.Segs, MSeg{K: kRe, Name: name, Pat: p})
	}
	return t, nil
}
