From 719db4e320705ae45fdf0ed68d2dd2ab675461ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 01/31] fix: Template.Match returns the passed values unchanged
 on a mismatch

The values captured before the mismatch were returned, so they leaked into
the values of sibling responders that were tried later.
---
 template.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/template.go b/template.go
index 96d46fb..c4d7ea3 100755
--- a/template.go
+++ b/template.go
@@ -432,6 +432,20 @@ func (t *Template) SimilarityWith(t2 *Template) Similarity {
 func (t *Template) Match(
 	str string,
 	values TemplateValues,
+) (bool, TemplateValues) {
+	var matched, newValues = t.match(str, values)
+	if !matched {
+		return false, values
+	}
+
+	return true, newValues
+}
+
+// match is used by Match. When the template doesn't match, the returned values
+// may contain the values of the segments that had matched before the mismatch.
+func (t *Template) match(
+	str string,
+	values TemplateValues,
 ) (bool, TemplateValues) {
 	var ltslices = len(t.slices)
 	var k = ltslices
-- 
2.43.0


From 8aa7fd9417c72af41b441a2fe4d27d93975422f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/31] fix: Template.Match captures the wildcard segment's
 empty value

Applying the captured values back to the template failed with a missing
value error when the wildcard segment had matched an empty string.
---
 template.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/template.go b/template.go
index c4d7ea3..c8b3ead 100755
--- a/template.go
+++ b/template.go
@@ -515,20 +515,17 @@ func (t *Template) match(
 		}
 	}
 
-	if len(str) > 0 {
-		if t.wildcardIdx >= 0 {
-			if values == nil {
-				values = make(TemplateValues, 0, 5)
-			}
-
-			values = append(
-				values,
-				_StringPair{t.slices[t.wildcardIdx].valuePattern.name, str},
-			)
-		} else {
-			// Unreachable.
-			return false, values
+	if t.wildcardIdx >= 0 {
+		if values == nil {
+			values = make(TemplateValues, 0, 5)
 		}
+
+		values = append(
+			values,
+			_StringPair{t.slices[t.wildcardIdx].valuePattern.name, str},
+		)
+	} else if len(str) > 0 {
+		return false, values
 	}
 
 	return true, values
-- 
2.43.0


From 3a9b74ea6121cff7ec11df5e970bc77a876980e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/31] fix: A repeated value at the end of a template no
 longer breaks its first match

The end of string anchor was added to the regexp that is shared by all the
segments with the same value name, so {a:\d}x{a} never matched.
---
 template.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index c8b3ead..dd550bf 100755
--- a/template.go
+++ b/template.go
@@ -1022,12 +1022,16 @@ func parse(tmplStr string) (
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		// The value pattern may be shared with the preceding segments, which
+		// don't have to match the end of the string.
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 2c81d28dc583ef00540973564ddf22b6a4360c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 04/31] fix: Anchors apply to all the alternatives of a pattern

{n:5|10}_days matched x10_days and {n:1|10} didn't match 10, because the
anchors were added only to the first or the last alternative.
---
 template.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/template.go b/template.go
index dd550bf..5d96819 100755
--- a/template.go
+++ b/template.go
@@ -863,6 +863,54 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// groupAlternatives puts the pattern in a non-capturing group if it has
+// alternatives outside of groups and character classes. Otherwise, the anchors
+// added to the pattern would apply only to the first or the last alternative.
+func groupAlternatives(pattern string) string {
+	var depth, chClsIdx = 0, -1
+	for i, lpattern := 0, len(pattern); i < lpattern; i++ {
+		switch ch := pattern[i]; {
+		case ch == '\\':
+			if strings.HasPrefix(pattern[i:], `\Q`) {
+				var idx = strings.Index(pattern[i:], `\E`)
+				if idx < 0 {
+					return pattern
+				}
+
+				i += idx
+			}
+
+			i++
+		case chClsIdx >= 0:
+			if ch == '[' && i+1 < lpattern && pattern[i+1] == ':' {
+				if idx := strings.Index(pattern[i:], ":]"); idx > 0 {
+					i += idx + 1
+				}
+			} else if ch == ']' {
+				var d = i - chClsIdx
+				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
+					chClsIdx = -1
+				}
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			depth--
+		case ch == '|' && depth == 0:
+			// An invalid pattern must not become valid in the group.
+			if _, err := regexp.Compile(pattern); err != nil {
+				return pattern
+			}
+
+			return "(?:" + pattern + ")"
+		}
+	}
+
+	return pattern
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -878,6 +926,10 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	if pattern != "" {
+		pattern = groupAlternatives(pattern)
+	}
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From fc733cf0e6cb1ea2a8a2507f7abc18c441d7a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 05/31] fix: Template.TryToApply rejects the values that match
 only partly

A value that only began or ended with a match of the segment's pattern was
accepted.
---
 template.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index 5d96819..9821a67 100755
--- a/template.go
+++ b/template.go
@@ -550,8 +550,13 @@ func (t *Template) TryToApply(
 
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
-				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				// The longest match is needed to find out whether the pattern
+				// matches the value as a whole.
+				var re = slc.valuePattern.re.Copy()
+				re.Longest()
+
+				var idxs = re.FindStringIndex(vf)
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From 02336a77a01b763b4171c2173dd3db2de87aeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 06/31] fix: A printed template parses back to the same
 template

The anchors in the patterns of a printed template were added once more when
it was parsed again, so it was different from the original template.
---
 template.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 9821a67..0a35ff0 100755
--- a/template.go
+++ b/template.go
@@ -916,6 +916,33 @@ func groupAlternatives(pattern string) string {
 	return pattern
 }
 
+// anchorAtStart adds the start of string anchor to the pattern if it doesn't
+// already begin with one.
+func anchorAtStart(pattern string) string {
+	if strings.HasPrefix(pattern, "^") {
+		var repeated = len(pattern) > 1 &&
+			strings.IndexByte("*+?{", pattern[1]) >= 0
+
+		if !repeated {
+			return pattern
+		}
+	}
+
+	return "^" + pattern
+}
+
+// anchorAtEnd adds the end of string anchor to the pattern if it doesn't
+// already end with one.
+func anchorAtEnd(pattern string) string {
+	var p = strings.TrimSuffix(pattern, "$")
+	var escapes = len(p) - len(strings.TrimRight(p, `\`))
+	if len(p) < len(pattern) && escapes%2 == 0 {
+		return pattern
+	}
+
+	return pattern + "$"
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -938,9 +965,9 @@ func appendDynamicSegmentTo(
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-				pattern += "$"
+				pattern = anchorAtEnd(pattern)
 			} else {
-				pattern = "^" + pattern
+				pattern = anchorAtStart(pattern)
 			}
 
 			if pattern != vp.re.String() {
@@ -986,7 +1013,7 @@ func appendDynamicSegmentTo(
 		// string from the end to the wildcard segment.
 		for _, vp := range valuePatterns {
 			var p = vp.re.String()
-			p = p[1:] + "$"
+			p = anchorAtEnd(p[1:])
 
 			var re, err = regexp.Compile(p)
 			if err != nil {
@@ -1001,9 +1028,9 @@ func appendDynamicSegmentTo(
 	}
 
 	if wildcardIdx >= 0 {
-		pattern += "$"
+		pattern = anchorAtEnd(pattern)
 	} else {
-		pattern = "^" + pattern
+		pattern = anchorAtStart(pattern)
 	}
 
 	var re, err = regexp.Compile(pattern)
@@ -1080,7 +1107,7 @@ func parse(tmplStr string) (
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
 		var re *regexp.Regexp
-		re, err = regexp.Compile(vp.re.String() + "$")
+		re, err = regexp.Compile(anchorAtEnd(vp.re.String()))
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
-- 
2.43.0


From 6b7674f9626a65cdb15931be18b368dbcef5a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 07/31] fix: Invalid patterns of the regexp segments are
 rejected

Patterns like *a and {2}a became valid when the anchor was added to them.
---
 template.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index 0a35ff0..bb39fb1 100755
--- a/template.go
+++ b/template.go
@@ -904,11 +904,6 @@ func groupAlternatives(pattern string) string {
 		case ch == ')':
 			depth--
 		case ch == '|' && depth == 0:
-			// An invalid pattern must not become valid in the group.
-			if _, err := regexp.Compile(pattern); err != nil {
-				return pattern
-			}
-
 			return "(?:" + pattern + ")"
 		}
 	}
@@ -959,6 +954,11 @@ func appendDynamicSegmentTo(
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
 	if pattern != "" {
+		// The pattern must be valid without the anchors that are added below.
+		if _, err := regexp.Compile(pattern); err != nil {
+			return tss, valuePatterns, wildcardIdx, err
+		}
+
 		pattern = groupAlternatives(pattern)
 	}
 
-- 
2.43.0


From 3835ed08ad2f21fee4b1fb51b41c045bde2a66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 08/31] fix: Templates with a backslash or a brace in an
 unusual place print correctly

The printed template wasn't accepted or was different when a value name ended
with a backslash, when the static segment of a nameless template began with a
backslash and a dollar sign, or when the pattern began with a curly brace.
---
 template.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/template.go b/template.go
index bb39fb1..7a951e7 100755
--- a/template.go
+++ b/template.go
@@ -596,7 +596,22 @@ func (t *Template) Apply(values TemplateValues, ignoreMissing bool) string {
 // repeated regexp segments starting from the second repetition.
 func (t *Template) String() string {
 	var strb = strings.Builder{}
-	if t.name != "" {
+	if t.name == "" || strings.HasSuffix(t.name, `\`) {
+		// If the name ends with a backslash, it would escape the colon. Only
+		// a value name, which is also used as the template's name, can end
+		// with a backslash. So, the template gets the same name without it.
+		var staticStr string
+		if len(t.slices) > 0 {
+			staticStr = t.slices[0].staticStr
+		}
+
+		if strings.HasPrefix(staticStr, `\$`) {
+			// The backslash at the beginning must not escape the "$" sign.
+			strb.WriteString("$:")
+		} else if t.name != "" && strings.HasPrefix(staticStr, "$") {
+			strb.WriteByte('\\')
+		}
+	} else {
 		strb.WriteByte('$')
 		var str = t.name
 		for len(str) > 0 {
@@ -911,16 +926,14 @@ func groupAlternatives(pattern string) string {
 	return pattern
 }
 
+// optionalAnchorRe matches a pattern with an optional start of string anchor.
+var optionalAnchorRe = regexp.MustCompile(`^\^(?:[*?]|\{0(?:,\d*)?\})`)
+
 // anchorAtStart adds the start of string anchor to the pattern if it doesn't
 // already begin with one.
 func anchorAtStart(pattern string) string {
-	if strings.HasPrefix(pattern, "^") {
-		var repeated = len(pattern) > 1 &&
-			strings.IndexByte("*+?{", pattern[1]) >= 0
-
-		if !repeated {
-			return pattern
-		}
+	if strings.HasPrefix(pattern, "^") && !optionalAnchorRe.MatchString(pattern) {
+		return pattern
 	}
 
 	return "^" + pattern
-- 
2.43.0


From 015e6efc7a3de25a326ac30790ae8fdbec81a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 09/31] fix: The router is the parent of its implicitly created
 root resource

Router returned nil for the resources under it, and the root resource that
was replaced by a registered one still had the router as its parent.
---
 router.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router.go b/router.go
index 568d8e5..d4ae6b7 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
@@ -1329,6 +1330,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From 03ff71eca26f922985ef289f191eab475d48365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 10/31] fix: Host and HostUsingConfig configure an existing
 unconfigured host

A host that was created implicitly for a resource under it couldn't be
retrieved with these methods.
---
 router.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index d4ae6b7..bb20565 100755
--- a/router.go
+++ b/router.go
@@ -892,7 +892,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -943,7 +947,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
-- 
2.43.0


From 407c84c065379468c4a8fcc7c380ebcd03be53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/31] fix: A host created for a handler or resource cannot
 have another host's name

The name was checked when a host was created by the Host, HostUsingConfig and
Resource methods, but not when it was created for a resource being registered
or for a path below it.
---
 router.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/router.go b/router.go
index bb20565..7a9d034 100755
--- a/router.go
+++ b/router.go
@@ -63,6 +63,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if err != nil {
 			return nil, newErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			return nil, newErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	if pTmplStr != "" {
@@ -105,10 +109,6 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 	if newHost {
 		_r.configure(secure, tslash, nil)
 
-		if h := ro.HostNamed(_r.Name()); h != nil {
-			return nil, newErr("%w", errDuplicateNameAmongSiblings)
-		}
-
 		err = ro.registerHost(_r.(*Host))
 		if err != nil {
 			// Unreachable.
@@ -1385,6 +1385,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1532,6 +1536,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From 9e935cfcdea5f5e8f0aa2bb3ee0775efca9c563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 12/31] fix: Hosts can be looked up by name

RegisteredHost and RegisteredResource are documented to accept a host name
instead of a host template, but they panicked with an invalid template error.
---
 router.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 7a9d034..db6216f 100755
--- a/router.go
+++ b/router.go
@@ -151,6 +151,20 @@ func (ro *Router) registeredHost(
 	return h, tmpl, nil
 }
 
+// registeredOrNamedHost returns an existing host. The template may contain only
+// a name.
+func (ro *Router) registeredOrNamedHost(hTmplStr string) (*Host, error) {
+	if hTmplStr != "" {
+		var name, content, err = templateNameAndContent(hTmplStr)
+		if err == nil && content == "" && name != "" {
+			return ro.HostNamed(name), nil
+		}
+	}
+
+	var h, _, err = ro.registeredHost(hTmplStr)
+	return h, err
+}
+
 // registered_Responder returns an existing host or resource. The return value
 // host is set to true when the URL template contains only a host template,
 // even if that host doesn't exist.
@@ -172,7 +186,7 @@ func (ro *Router) registered_Responder(urlTmplStr string) (
 	}
 
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			return nil, false, newErr("%w", err)
 		}
@@ -1033,7 +1047,7 @@ func (ro *Router) RegisteredHost(hostTmplStr string) *Host {
 	}
 
 	var h *Host
-	h, _, err = ro.registeredHost(hostTmplStr)
+	h, err = ro.registeredOrNamedHost(hostTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1621,7 +1635,7 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 
 	var _r _Responder
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			panicWithErr("%w", err)
 		}
-- 
2.43.0


From 559b9e69a968a4c8c1cef67846c63f7488018724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 13/31] fix: Resources with a prefix path can be registered by
 the root resource

The root resource was compared with the first segment of the prefix path, so
registering always failed with a conflicting path segment error.
---
 responder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 9e12017..3b1d2aa 100755
--- a/responder.go
+++ b/responder.go
@@ -522,7 +522,10 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 	}
 
 	var lresources = len(resources)
-	if _, ok := resources[0].(*Host); ok {
+	var _, underHost = resources[0].(*Host)
+	var r, _ = resources[0].(*Resource)
+	if underHost || r.isRoot() {
+		// Neither the host nor the root resource has a segment in the path.
 		if lresources == 1 {
 			if pathTmplStr == "" || pathTmplStr == "/" {
 				return "", nil
-- 
2.43.0


From 2efb2138733ef6171181a2aed1af8fec99c9a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 14/31] fix: The prefix path of a resource doesn't need a
 leading slash in RegisterResourceUnder

A resource with a template like a/b couldn't be registered under /a by a host
or resource, unlike a resource with the template /a/b.
---
 responder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/responder.go b/responder.go
index 3b1d2aa..ac7b6a6 100755
--- a/responder.go
+++ b/responder.go
@@ -1252,6 +1252,10 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 	}
 
 	if urlt := r.urlTmpl(); urlt != nil {
+		if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
+			urlt.PrefixPath = "/" + urlt.PrefixPath
+		}
+
 		var lpp, lurltPp = len(prefixPath), len(urlt.PrefixPath)
 		if lpp > 0 {
 			if lastIdx := lpp - 1; prefixPath[lastIdx] == '/' {
-- 
2.43.0


From 3d852220bf28a51d0d2d06daf756ef0a1cbaef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 15/31] fix: Literal text and slashes in the segments of a
 generated URL

The URL of a responder contained the escapes of its static templates, and a
slash in a segment wasn't encoded, so the URL didn't lead to the responder.
Static hosts were also kept under their escaped templates.
---
 router.go |  6 +++---
 utils.go  | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/router.go b/router.go
index db6216f..f7057cc 100755
--- a/router.go
+++ b/router.go
@@ -746,7 +746,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -785,7 +785,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -821,7 +821,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
diff --git a/utils.go b/utils.go
index 65ed7a6..d04da2d 100755
--- a/utils.go
+++ b/utils.go
@@ -325,7 +325,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -338,7 +338,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
@@ -351,10 +351,16 @@ loop:
 		}
 	}
 
-	var strb = strings.Builder{}
+	var strb, rawStrb = strings.Builder{}, strings.Builder{}
+	var slashInSegment bool
 	for i := len(pss) - 1; i > -1; i-- {
 		strb.WriteByte('/')
 		strb.WriteString(pss[i])
+
+		rawStrb.WriteByte('/')
+		rawStrb.WriteString(url.PathEscape(pss[i]))
+
+		slashInSegment = slashInSegment || strings.Contains(pss[i], "/")
 	}
 
 	switch rr := _r.(type) {
@@ -362,6 +368,7 @@ loop:
 		if (rr.HasTrailingSlash() && !rr.isRoot()) ||
 			(strb.Len() == 0 && rr.isRoot()) {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	case *Host:
 		if rr.HasTrailingSlash() {
@@ -374,7 +381,13 @@ loop:
 		scheme = "https"
 	}
 
-	return &url.URL{Scheme: scheme, Host: host, Path: strb.String()}, nil
+	var u = &url.URL{Scheme: scheme, Host: host, Path: strb.String()}
+	if slashInSegment {
+		// The slash in the segment must not be taken for a separator.
+		u.RawPath = rawStrb.String()
+	}
+
+	return u, nil
 }
 
 // --------------------------------------------------
-- 
2.43.0


From d0b39d45af44584aca10c7bbc6d6528480e5cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 16/31] fix: Automatic redirects keep the percent-encoding of
 the path

The path of the redirect URL was changed without its encoded form, so an
encoded slash became a separator and the clean path was encoded twice.
---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 24 ++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..fdecc43 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathTo(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				addTrailingSlash(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlash(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..7e98d1a 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathTo(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			addTrailingSlash(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlash(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index d04da2d..0ef869e 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,20 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// addTrailingSlash adds a trailing slash to the URL's path.
+func addTrailingSlash(u *url.URL) {
+	u.Path += "/"
+	if u.RawPath != "" {
+		u.RawPath += "/"
+	}
+}
+
+// removeTrailingSlash removes the trailing slash from the URL's path.
+func removeTrailingSlash(u *url.URL) {
+	u.Path = strings.TrimSuffix(u.Path, "/")
+	u.RawPath = strings.TrimSuffix(u.RawPath, "/")
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
@@ -522,6 +536,16 @@ func (args *Args) pathHasTrailingSlash() bool {
 
 // -------------------------
 
+// setCleanPathTo sets the cleaned path of the request to the URL.
+func (args *Args) setCleanPathTo(u *url.URL) {
+	u.Path, u.RawPath = args.path, ""
+	if args.rawPath {
+		if path, err := url.PathUnescape(args.path); err == nil {
+			u.Path, u.RawPath = path, args.path
+		}
+	}
+}
+
 // HostPathValues returns the host and path values of the request's URL.
 func (args *Args) HostPathValues() HostPathValues {
 	return args.hostPathValues
-- 
2.43.0


From 4aeae7f1b4edd19c6f189207d58bd06e910eb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 17/31] fix: The remaining path is escaped even if the URL has
 no raw path

RemainingPath is documented to return the escaped path, but it returned the
decoded one unless the request's path had a non-default encoding.
---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index 0ef869e..583d225 100755
--- a/utils.go
+++ b/utils.go
@@ -555,6 +555,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var remainingPath = args.remainingPath()
+	if args.rawPath {
+		return remainingPath
+	}
+
+	return (&url.URL{Path: remainingPath}).EscapedPath()
+}
+
+// remainingPath returns the remaining path as it is in the path that's being
+// used for routing.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From a641e4f6cb661373886e378ffafb8b28b17eb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 18/31] fix: A host's trailing slash properties apply to
 one-character paths too

A host that's a subtree handler ignored them when the whole path was a slash
and a single character.
---
 host.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host.go b/host.go
index fdecc43..3c7efbb 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,9 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
+		// The path must have at least one segment for it to have
 		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From 0a26f00b17ab835207d17648de08f5cea44e80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 19/31] fix: The state of a converted middleware isn't shared
 between its calls

Once the next handler had been called, the middleware converted with Mw took
every later request for one in which it had been called, and returned a
handled result that wasn't set for that request. It was also a data race.
---
 middleware.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..d745255 100755
--- a/middleware.go
+++ b/middleware.go
@@ -13,28 +13,38 @@ import (
 
 type Middleware func(next Handler) Handler
 
+// _MwCall keeps the state of a single call of the middleware converted with
+// the Mw function.
+type _MwCall struct {
+	args          *Args
+	nextWasCalled bool
+	handled       bool
+}
+
 // Mw converts the middleware with the signature func(http.Handler) http.Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
+		// The pointer to the key is different for each conversion.
+		var key = &struct{ _ byte }{}
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
-				var args = r.Context().Value(argsKey).(*Args)
-				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
+				var call = r.Context().Value(key).(*_MwCall)
+				call.handled = next(w, r, call.args)
+				call.nextWasCalled = true
 			},
 		)
 
 		h = mw(h)
 
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
+			var call = &_MwCall{args: args}
 			var c = context.WithValue(r.Context(), argsKey, args)
-			r = r.WithContext(c)
+			r = r.WithContext(context.WithValue(c, key, call))
 			h.ServeHTTP(w, r)
 
-			if nextHasBeenCalled {
-				return args.handled
+			if call.nextWasCalled {
+				return call.handled
 			}
 
 			return true
-- 
2.43.0


From fb22b5bbddea0afdb311d96ac49ecb3eaf5e6733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 20/31] fix: Router.ResourceUsingConfig ignores the root's
 trailing slash properties

---
 router.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/router.go b/router.go
index f7057cc..b2698b0 100755
--- a/router.go
+++ b/router.go
@@ -1303,6 +1303,16 @@ func (ro *Router) ResourceUsingConfig(
 
 			return newLast
 		}
+	} else {
+		tslash = false
+		config.HasTrailingSlash = false
+		config.LenientOnTrailingSlash = false
+		config.StrictOnTrailingSlash = false
+
+		if config.HandlesThePathAsIs {
+			config.LenientOnUncleanPath = true
+			config.HandlesThePathAsIs = false
+		}
 	}
 
 	var cfs = config.asFlags()
-- 
2.43.0


From cd7d1f768471a64630f48316d7d3e167c68ed071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 21/31] fix: SetImplementation discards the existing handlers
 even if the impl has none

---
 responder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index ac7b6a6..7ae9924 100755
--- a/responder.go
+++ b/responder.go
@@ -1523,7 +1523,7 @@ func (rb *_ResponderBase) SetImplementation(impl Impl) {
 
 	rb.impl = impl
 
-	if rhb != nil {
+	if rhb != nil || rb._RequestHandlerBase != nil {
 		rb.setRequestHandlerBase(rhb)
 	}
 }
-- 
2.43.0


From 71914a5f83b990eef6d000b602e471a0bcbcc972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 22/31] fix: A rejected registration doesn't pass some of the
 resources

---
 responder.go | 64 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 7ae9924..bbb8772 100755
--- a/responder.go
+++ b/responder.go
@@ -59,6 +59,8 @@ type _Responder interface {
 
 	resourceWithTemplate(tmpl *Template) (*Resource, error)
 	registeredResource(pathTmplStr string) (r *Resource, tslash bool, err error)
+	checkResourceCanBeKept(r *Resource) error
+	checkChildResourcesCanBePassedTo(r _Responder) error
 	passChildResourcesTo(r _Responder) error
 	registerResource(r *Resource) error
 	segmentResources(pathSegments []string) (
@@ -672,9 +674,26 @@ func (rb *_ResponderBase) registeredResource(
 	return r, psi.pathHasTrailingSlash(), nil
 }
 
+// checkChildResourcesCanBePassedTo checks whether all of the child resources
+// can be passed to the argument resource. Nothing is changed.
+func (rb *_ResponderBase) checkChildResourcesCanBePassedTo(r _Responder) error {
+	for _, rr := range rb.ChildResources() {
+		if err := r.checkResourceCanBeKept(rr); err != nil {
+			return newErr("%w", err)
+		}
+	}
+
+	return nil
+}
+
 // passChildResourcesTo method transfers all of the child resources to the
-// argument resource.
+// argument resource. If any of them cannot be passed, the method returns an
+// error without passing the others.
 func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
+	if err := rb.checkChildResourcesCanBePassedTo(r); err != nil {
+		return newErr("%w", err)
+	}
+
 	for _, rr := range rb.staticResources {
 		if err := r.keepResourceOrItsChildResources(rr); err != nil {
 			return newErr("%w", err)
@@ -930,6 +949,49 @@ func (rb *_ResponderBase) registerResourceUnder(
 	return nil
 }
 
+// checkResourceCanBeKept checks whether the keepResourceOrItsChildResources
+// method can keep the argument resource or its child resources. Nothing is
+// changed.
+func (rb *_ResponderBase) checkResourceCanBeKept(r *Resource) error {
+	var rwt, err = rb.resourceWithTemplate(r.Template())
+	if err != nil {
+		return newErr("%w", err)
+	}
+
+	if rwt == nil {
+		if nr := rb.ChildResourceNamed(r.Name()); nr != nil {
+			return newErr("%w", errDuplicateNameAmongSiblings)
+		}
+
+		return nil
+	}
+
+	var rcfs = r.configFlags()
+	err = rwt.checkForConfigCompatibility(
+		rcfs.has(flagSecure),
+		rcfs.has(flagTrailingSlash),
+		&rcfs,
+	)
+
+	if err != nil && !errors.Is(err, errDormantResource) {
+		return newErr("%w", err)
+	}
+
+	if !r.canHandleRequest() {
+		return r.checkChildResourcesCanBePassedTo(rwt)
+	}
+
+	if !rwt.canHandleRequest() {
+		return rwt.checkChildResourcesCanBePassedTo(r)
+	}
+
+	return newErr(
+		"%w %s",
+		errDuplicateResourceTemplate,
+		rwt.Template().String(),
+	)
+}
+
 // keepResourceOrItsChildResources is intended to be used when there is a
 // template collision between resources. In that scenario, the method keeps
 // one of them depending on whether one has HTTP method handlers set. The
-- 
2.43.0


From bd2371090817d68a86dc6dda9a40e46067b6a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 23/31] fix: Invalid arguments are rejected before the
 responder is created

---
 responder.go | 36 ++++++++++++++++++++++++
 router.go    | 36 ++++++++++++++++++++++++
 utils.go     | 78 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 150 insertions(+)

diff --git a/responder.go b/responder.go
index bbb8772..7790072 100755
--- a/responder.go
+++ b/responder.go
@@ -1940,6 +1940,10 @@ func (rb *_ResponderBase) ConfigurationAt(pathTmplStr string) Config {
 // compatible with the existing resource's properties. A newly created resource
 // is configured with the values in the path template.
 func (rb *_ResponderBase) SetImplementationAt(pathTmplStr string, rh Impl) {
+	if err := checkImpl(rh); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetImplementation(rh)
 }
@@ -1977,6 +1981,10 @@ func (rb *_ResponderBase) SetPathHandlerFor(
 	methods, pathTmplStr string,
 	handler Handler,
 ) {
+	if err := checkMethodsAndHandler(methods, handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetHandlerFor(methods, handler)
 }
@@ -2016,6 +2024,10 @@ func (rb *_ResponderBase) WrapRequestPasserAt(
 	pathTmplStr string,
 	mws ...Middleware,
 ) {
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRequestPasser(mws...)
 }
@@ -2036,6 +2048,10 @@ func (rb *_ResponderBase) WrapRequestHandlerAt(
 	pathTmplStr string,
 	mws ...Middleware,
 ) {
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRequestHandler(mws...)
 }
@@ -2086,6 +2102,10 @@ func (rb *_ResponderBase) SetPermanentRedirectCodeAt(
 	pathTmplStr string,
 	code int,
 ) {
+	if err := checkPermanentRedirectCode(code); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetPermanentRedirectCode(code)
 }
@@ -2132,6 +2152,10 @@ func (rb *_ResponderBase) SetRedirectHandlerAt(
 	pathTmplStr string,
 	handler RedirectHandler,
 ) {
+	if err := checkRedirectHandler(handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetRedirectHandler(handler)
 }
@@ -2181,6 +2205,10 @@ func (rb *_ResponderBase) WrapRedirectHandlerAt(
 	pathTmplStr string,
 	mws ...func(RedirectHandler) RedirectHandler,
 ) {
+	if err := checkRedirectHandlerMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRedirectHandler(mws...)
 }
@@ -2213,6 +2241,10 @@ func (rb *_ResponderBase) RedirectRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirectArgs(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.RedirectRequestTo(url, redirectCode)
 }
@@ -2244,6 +2276,10 @@ func (rb *_ResponderBase) RedirectAnyRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirectArgs(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.RedirectAnyRequestTo(url, redirectCode)
 }
diff --git a/router.go b/router.go
index b2698b0..047c0f1 100755
--- a/router.go
+++ b/router.go
@@ -361,6 +361,10 @@ func (ro *Router) ConfigurationAt(urlTmplStr string) Config {
 // be compatible with the existing responder's properties. A newly created
 // responder is configured with the values in the URL template.
 func (ro *Router) SetImplementationAt(urlTmplStr string, impl Impl) {
+	if err := checkImpl(impl); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -413,6 +417,10 @@ func (ro *Router) SetURLHandlerFor(
 	urlTmplStr string,
 	handler Handler,
 ) {
+	if err := checkMethodsAndHandler(methods, handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -463,6 +471,10 @@ func (ro *Router) URLHandlerOf(method string, urlTmplStr string) Handler {
 // responder to the next path segment of the request's URL, the handler for a
 // not-found resource is called.
 func (ro *Router) WrapRequestPasserAt(urlTmplStr string, mws ...Middleware) {
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -484,6 +496,10 @@ func (ro *Router) WrapRequestPasserAt(urlTmplStr string, mws ...Middleware) {
 // called only when the responder is the one to handle the request and has at
 // least one HTTP method handler.
 func (ro *Router) WrapRequestHandlerAt(urlTmplStr string, mws ...Middleware) {
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -549,6 +565,10 @@ func (ro *Router) SetPermanentRedirectCodeAt(
 	urlTmplStr string,
 	code int,
 ) {
+	if err := checkPermanentRedirectCode(code); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -605,6 +625,10 @@ func (ro *Router) SetRedirectHandlerAt(
 	urlTmplStr string,
 	handler RedirectHandler,
 ) {
+	if err := checkRedirectHandler(handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -662,6 +686,10 @@ func (ro *Router) WrapRedirectHandlerAt(
 	urlTmplStr string,
 	mws ...func(RedirectHandler) RedirectHandler,
 ) {
+	if err := checkRedirectHandlerMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -694,6 +722,10 @@ func (ro *Router) WrapRedirectHandlerAt(
 // 		http.StatusMovedPermanently,
 // 	)
 func (ro *Router) RedirectRequestAt(urlTmplStr, url string, redirectCode int) {
+	if err := checkRedirectArgs(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -730,6 +762,10 @@ func (ro *Router) RedirectAnyRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirectArgs(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
diff --git a/utils.go b/utils.go
index 583d225..cf3b985 100755
--- a/utils.go
+++ b/utils.go
@@ -757,3 +757,81 @@ func traverseAndCall(rs []_Responder, fn func(_Responder) error) error {
 
 	return nil
 }
+
+// --------------------------------------------------
+
+// The functions below check the arguments of the methods that create the
+// responder if it doesn't exist. The arguments must be checked before the
+// responder is created.
+
+func checkImpl(impl Impl) error {
+	if impl == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	return nil
+}
+
+func checkMethodsAndHandler(methods string, handler Handler) error {
+	if handler == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	if len(toUpperSplitByCommaSpace(methods)) == 0 {
+		return newErr("%w", errNoHTTPMethod)
+	}
+
+	return nil
+}
+
+func checkMiddlewares(mws ...Middleware) error {
+	if len(mws) == 0 {
+		return newErr("%w", errNoMiddleware)
+	}
+
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
+	return nil
+}
+
+func checkPermanentRedirectCode(code int) error {
+	if code != http.StatusMovedPermanently &&
+		code != http.StatusPermanentRedirect {
+		return newErr("%w", errConflictingStatusCode)
+	}
+
+	return nil
+}
+
+func checkRedirectHandler(handler RedirectHandler) error {
+	if handler == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	return nil
+}
+
+func checkRedirectHandlerMiddlewares(
+	mws ...func(RedirectHandler) RedirectHandler,
+) error {
+	if len(mws) == 0 {
+		return newErr("%w", errNoMiddleware)
+	}
+
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
+	return nil
+}
+
+func checkRedirectArgs(url string, redirectCode int) error {
+	var _, err = redirector(nil, url, redirectCode)
+	return err
+}
-- 
2.43.0


From dc7ce3c33a57d7a42641e4e8c63d86642f7687bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 24/31] fix: A regexp segment after the wildcard cannot have
 the wildcard's name

---
 template.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/template.go b/template.go
index 7a951e7..24860bb 100755
--- a/template.go
+++ b/template.go
@@ -998,17 +998,16 @@ func appendDynamicSegmentTo(
 		return tss, valuePatterns, wildcardIdx, nil
 	}
 
+	if wildcardIdx >= 0 && vName == tss[wildcardIdx].valuePattern.name {
+		return tss, valuePatterns, wildcardIdx, newErr(
+			"%w %q",
+			ErrRepeatedWildcardName,
+			vName,
+		)
+	}
+
 	if pattern == "" {
 		if wildcardIdx >= 0 {
-			var wc = tss[wildcardIdx]
-			if vName == wc.valuePattern.name {
-				return tss, valuePatterns, wildcardIdx, newErr(
-					"%w %q",
-					ErrRepeatedWildcardName,
-					vName,
-				)
-			}
-
 			return tss, valuePatterns, wildcardIdx, newErr(
 				"%w %q",
 				ErrAnotherWildcardName,
-- 
2.43.0


From 95d9087fbf7f7b2d086f56aacd5353fde4431b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 25/31] fix: The host of an IPv6 address is the same with and
 without a port

---
 host.go   | 5 +++++
 router.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/host.go b/host.go
index 3c7efbb..192144f 100755
--- a/host.go
+++ b/host.go
@@ -232,6 +232,11 @@ func (hb *Host) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		if strings.LastIndexByte(host, ':') >= 0 {
 			var h, _, err = net.SplitHostPort(host)
 			if err == nil {
+				if host[0] == '[' {
+					// An IPv6 address has the brackets without a port too.
+					h = "[" + h + "]"
+				}
+
 				host = h
 			}
 		}
diff --git a/router.go b/router.go
index 047c0f1..911cc4d 100755
--- a/router.go
+++ b/router.go
@@ -1878,6 +1878,11 @@ func (ro *Router) passRequest(
 		if strings.LastIndexByte(host, ':') >= 0 {
 			var h, _, err = net.SplitHostPort(host)
 			if err == nil {
+				if host[0] == '[' {
+					// An IPv6 address has the brackets without a port too.
+					h = "[" + h + "]"
+				}
+
 				host = h
 			}
 		}
-- 
2.43.0


From e3e46664f57e060349d9f5b76eb632fc63bd1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 26/31] fix: A rejected wrapping leaves all the handlers as
 they are

---
 requesthandler.go | 40 ++++++++++++++++++----------------------
 responder.go      | 30 +++++++++---------------------
 router.go         | 10 +++-------
 3 files changed, 30 insertions(+), 50 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..81cf2cd 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -331,8 +331,8 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 	methods string,
 	mws ...Middleware,
 ) error {
-	if len(mws) == 0 {
-		return newErr("%w", errNoMiddleware)
+	if err := checkMiddlewares(mws...); err != nil {
+		return err
 	}
 
 	if len(rhb.mhPairs) == 0 && rhb.notAllowedHTTPMethodHandler == nil {
@@ -348,11 +348,7 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 	if lms == 1 {
 		if ms[0] == "!" {
 			rhb.notAllowedHTTPMethodHandler = rhb.handlerOf("!")
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
+			for _, mw := range mws {
 				rhb.notAllowedHTTPMethodHandler = mw(
 					rhb.notAllowedHTTPMethodHandler,
 				)
@@ -361,11 +357,7 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 			return nil
 		} else if ms[0] == "*" {
 			for _, mhp := range rhb.mhPairs {
-				for i, mw := range mws {
-					if mw == nil {
-						return newErr("%w at index %d", errNoMiddleware, i)
-					}
-
+				for _, mw := range mws {
 					mhp.handler = mw(mhp.handler)
 					rhb.mhPairs.set(mhp.method, mhp.handler)
 				}
@@ -375,21 +367,21 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 		}
 	}
 
+	// All the handlers must exist before any of them is wrapped.
 	for _, m := range ms {
-		if _, h := rhb.mhPairs.get(m); h != nil {
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
-				h = mw(h)
-				rhb.mhPairs.set(m, h)
-			}
-		} else {
+		if _, h := rhb.mhPairs.get(m); h == nil {
 			return newErr("%w for the method %q", errNoHandlerExists, m)
 		}
 	}
 
+	for _, m := range ms {
+		var _, h = rhb.mhPairs.get(m)
+		for _, mw := range mws {
+			h = mw(h)
+			rhb.mhPairs.set(m, h)
+		}
+	}
+
 	return nil
 }
 
@@ -591,7 +583,9 @@ func WrapCommonRedirectHandler(
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		commonRedirectHandler = mw(commonRedirectHandler)
 	}
 }
@@ -693,7 +687,9 @@ func WrapHandlerOfNotFound(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		notFoundResourceHandler = mw(notFoundResourceHandler)
 	}
 }
diff --git a/responder.go b/responder.go
index 7790072..b6053f3 100755
--- a/responder.go
+++ b/responder.go
@@ -1640,15 +1640,11 @@ func (rb *_ResponderBase) HandlerOf(method string) Handler {
 // resource to the next path segment of the request's URL, the handler for a
 // not-found resource is called.
 func (rb *_ResponderBase) WrapRequestPasser(mws ...Middleware) {
-	if len(mws) == 0 {
-		panicWithErr("%w", errNoMiddleware)
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
 	}
 
-	for i, mw := range mws {
-		if mw == nil {
-			panicWithErr("%w at index %d", errNoMiddleware, i)
-		}
-
+	for _, mw := range mws {
 		rb.requestPasser = mw(rb.requestPasser)
 	}
 }
@@ -1661,19 +1657,15 @@ func (rb *_ResponderBase) WrapRequestPasser(mws ...Middleware) {
 // called only when the responder is the one to handle the request and has at
 // least one HTTP method handler.
 func (rb *_ResponderBase) WrapRequestHandler(mws ...Middleware) {
-	if len(mws) == 0 {
-		panicWithErr("%w", errNoMiddleware)
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
 	}
 
 	if rb._RequestHandlerBase == nil {
 		rb.setRequestHandlerBase(&_RequestHandlerBase{})
 	}
 
-	for i, mw := range mws {
-		if mw == nil {
-			panicWithErr("%w at index %d", errNoMiddleware, i)
-		}
-
+	for _, mw := range mws {
 		rb.requestHandler = mw(rb.requestHandler)
 	}
 }
@@ -1781,19 +1773,15 @@ func (rb *_ResponderBase) RedirectHandler() RedirectHandler {
 func (rb *_ResponderBase) WrapRedirectHandler(
 	mws ...func(RedirectHandler) RedirectHandler,
 ) {
-	if len(mws) == 0 {
-		panicWithErr("%w", errNoMiddleware)
+	if err := checkRedirectHandlerMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
 	}
 
 	if rb.redirectHandler == nil {
 		rb.redirectHandler = commonRedirectHandler
 	}
 
-	for i, mw := range mws {
-		if mw == nil {
-			panicWithErr("%w at index %d", errNoMiddleware, i)
-		}
-
+	for _, mw := range mws {
 		rb.redirectHandler = mw(rb.redirectHandler)
 	}
 }
diff --git a/router.go b/router.go
index 911cc4d..bf5ce03 100755
--- a/router.go
+++ b/router.go
@@ -1727,15 +1727,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 // in their passed order. The router's request passer is responsible for
 // passing the request to the matching host or the root resource.
 func (ro *Router) WrapRequestPasser(mws ...Middleware) {
-	if len(mws) == 0 {
-		panicWithErr("%w", errNoMiddleware)
+	if err := checkMiddlewares(mws...); err != nil {
+		panicWithErr("%w", err)
 	}
 
-	for i, mw := range mws {
-		if mw == nil {
-			panicWithErr("%w at index %d", errNoMiddleware, i)
-		}
-
+	for _, mw := range mws {
 		ro.requestPasser = mw(ro.requestPasser)
 	}
 }
-- 
2.43.0


From cd5d8a0a9c4b0d492b89089349468694b7cabc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 27/31] fix: Router.RegisteredResource returns a resource
 created as a prefix

Like the RegisteredHost and the responders' RegisteredResource, it
configures the resource instead of panicking.
---
 router.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index bf5ce03..f9818b0 100755
--- a/router.go
+++ b/router.go
@@ -1712,7 +1712,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From 16c560930d3a813abfa10bf6c4f745de001f3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 28/31] fix: A merged resource whose children were passed on
 has no parent

---
 responder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/responder.go b/responder.go
index b6053f3..d2d3550 100755
--- a/responder.go
+++ b/responder.go
@@ -713,6 +713,13 @@ func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
 		}
 	}
 
+	for _, rr := range rb.ChildResources() {
+		if rr.parent() == rb.derived {
+			// Only the child resources of the rr have been passed.
+			rr.setParent(nil)
+		}
+	}
+
 	rb.staticResources = nil
 	rb.patternResources = nil
 	rb.wildcardResource = nil
-- 
2.43.0


From a924aceb7dcca84d6b9d36596ad6e2a1fde75064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 29/31] fix: A method with another signature doesn't hide a
 handler method

HandleGet and HandleGET are both for GET. When only HandleGET has the
signature of the Handler, it must be detected.
---
 requesthandler.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index 81cf2cd..571968a 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -190,18 +190,6 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 	// names.
 	var hmns = make(map[string]string)
 	var t = reflect.TypeOf(impl)
-	for i, nm := 0, t.NumMethod(); i < nm; i++ {
-		var m = t.Method(i)
-		var hm = strings.TrimPrefix(m.Name, "Handle")
-		if hm != m.Name {
-			hm = strings.ToUpper(hm)
-			hmns[hm] = m.Name
-		}
-	}
-
-	var handlers = _MethodHandlerPairs{}
-	var notAllowedHTTPMethodsHandler Handler
-
 	// reflect.Value allows us to compare method signatures directly instead of
 	// the signatures of their function values.
 	var v reflect.Value = reflect.ValueOf(impl)
@@ -213,6 +201,20 @@ func detectHTTPMethodHandlersOf(impl Impl) (*_RequestHandlerBase, error) {
 		},
 	)
 
+	for i, nm := 0, t.NumMethod(); i < nm; i++ {
+		var m = t.Method(i)
+		var hm = strings.TrimPrefix(m.Name, "Handle")
+		// A method that doesn't have the signature of the Handler must not hide
+		// the one that has. (HandleGet and HandleGET are for the same method.)
+		if hm != m.Name && v.Method(i).Type() == handlerType {
+			hm = strings.ToUpper(hm)
+			hmns[hm] = m.Name
+		}
+	}
+
+	var handlers = _MethodHandlerPairs{}
+	var notAllowedHTTPMethodsHandler Handler
+
 	for hm, n := range hmns {
 		var m = v.MethodByName(n)
 		if m.Kind() != reflect.Func {
-- 
2.43.0


From 5e2fc4caaf1aaf8aa71fba22ce5300bfca96b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 30/31] fix: an anchor that's optional after a group of flags
 doesn't anchor the pattern

---
 template.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 24860bb..dcf28a1 100755
--- a/template.go
+++ b/template.go
@@ -927,7 +927,10 @@ func groupAlternatives(pattern string) string {
 }
 
 // optionalAnchorRe matches a pattern with an optional start of string anchor.
-var optionalAnchorRe = regexp.MustCompile(`^\^(?:[*?]|\{0(?:,\d*)?\})`)
+// Groups that only set flags may stand between the anchor and the operator.
+var optionalAnchorRe = regexp.MustCompile(
+	`^\^(?:\(\?[a-zA-Z-]*\))*(?:[*?]|\{0(?:,\d*)?\})`,
+)
 
 // anchorAtStart adds the start of string anchor to the pattern if it doesn't
 // already begin with one.
-- 
2.43.0


From d5788037dd26d4aca89fd3a7dbacdabe0f033bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 31/31] fix: a prefix path that the resource's URL template
 doesn't end with is a conflict

---
 responder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/responder.go b/responder.go
index d2d3550..3fe4f9d 100755
--- a/responder.go
+++ b/responder.go
@@ -1337,11 +1337,11 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 			panicWithErr("%w", errConflictingPath)
 		}
 
-		var pp = urlt.PrefixPath
-		if strings.HasSuffix(urlt.PrefixPath, prefixPath) {
-			pp = urlt.PrefixPath[:lurltPp-lpp]
+		if !strings.HasSuffix(urlt.PrefixPath, prefixPath) {
+			panicWithErr("%w", errConflictingPath)
 		}
 
+		var pp = urlt.PrefixPath[:lurltPp-lpp]
 		var rppss, err = rb.validateURL(urlt.Host, pp)
 		if err != nil {
 			panicWithErr("%w", err)
-- 
2.43.0

