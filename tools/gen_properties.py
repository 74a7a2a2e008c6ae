#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Template matching is exact and captures exactly the matched text",
  "A string matches a template exactly when the template's segments consume all of it in order: static text verbatim, every regex segment by a match of its whole pattern (alternatives included) starting right where the previous segment ended, a repeated value name by the same text again, and the wildcard segment by whatever is left. Regex segments take their pattern's preferred match without backtracking, left to right before the wildcard and right to left (up against the following segments) after it. On success the captured pieces are added, under their value names, to the values passed in; on failure the values passed in come back unchanged.",
  ["inputs"], "every template built from static, regex (incl. alternations, repeated names) and wildcard segments, every string, every incoming value list",
  "tests sample about ten templates with a handful of strings each and check neither alternations without parentheses nor the values returned by a failed match",
  ["template.go"], [("Template.Match", "template.go"), ("appendDynamicSegmentTo anchoring of patterns", "template.go"), ("parse: last segment anchored at the end", "template.go")],
  [("slices / wildcardIdx", "parsed segments and position of the wildcard", "template.go Template")], ["Template.Match", "Parse"])

p("P02", "Template syntax: parse, escape and print agree",
  "Every template string is either rejected with an error (never a panic from TryToParse) or yields a template whose name, value names, kind (static, pattern, wildcard) and literal text follow the documented syntax: a `$name:` prefix, `{name}` for the wildcard, `{name:regex}` for a regex segment, and backslash escapes for a leading `$`, for curly braces in static text and for colons in names. A second wildcard, a repeated wildcard name, a repeated value name with a different pattern, an empty or unclosed dynamic segment and an unescaped closing brace are always rejected. Printing an accepted template gives a string that parses back to a template with the same name, segments and matching behaviour.",
  ["inputs"], "every string over the syntax characters; every structured template",
  "tests parse a few dozen hand-written strings and never re-parse what a parsed template prints",
  ["template.go"], [("templateNameAndContent", "template.go"), ("staticSegment / dynamicSegment", "template.go"), ("Template.Content / String", "template.go")],
  [], ["TryToParse", "Template.String", "Template.Content", "Template.UnescapedContent", "Template.ValueNames"])

p("P03", "Applying values to a template is the inverse of matching",
  "Applying values to a template succeeds exactly when every dynamic segment has a value (missing ones are skipped only when asked for) and every regex segment's value is, as a whole, a match of its pattern; the result is the template's literal text with the values in place. A missing or non-matching value, including one that only begins or ends with a match, is reported as an error. Applying the values captured by a successful match gives back the matched string.",
  ["inputs"], "every template, every assignment of values to its names",
  "tests apply values that match completely or not at all, never values that match partly",
  ["template.go"], [("Template.TryToApply / Apply", "template.go")], [], ["Template.TryToApply", "Template.Apply"])

p("P04", "Template comparison classifies differences correctly",
  "Comparing two templates reports them the same exactly when their segments, value names and template names coincide; 'different names' when only the template names differ; 'different value names' when static text, patterns and positions coincide but some value name differs; and 'different' in every other case. The comparison is symmetric and every template is the same as itself.",
  ["inputs"], "every pair of templates",
  "tests compare a fixed list of pairs in one direction",
  ["template.go"], [("Template.SimilarityWith", "template.go")], [], ["Template.SimilarityWith", "Similarity.Err"])

p("P05", "A path segment goes to the static, then pattern, then wildcard child",
  "Each path segment of a request is given to the child with an equal static template if there is one, otherwise to the first child in registration order whose pattern template matches, otherwise to the wildcard child; the choice is final even when nothing below the chosen child can serve the rest of the path. The responder that serves a request therefore depends only on the tree and the URL, not on the order in which static or wildcard siblings were added or on map order; a path that leads to no responder with handlers gets 404.",
  ["configurations", "inputs"], "every tree of static, pattern and wildcard templates, every registration order, every request path",
  "tests use one large hand-written tree per type and a list of URLs; sibling sets that overlap are hardly present",
  ["responder.go", "host.go", "resource.go", "utils.go"], [("passRequest", "responder.go"), ("registerResource / replaceResource", "responder.go"), ("Args.nextPathSegment", "utils.go")],
  [("staticResources, patternResources, wildcardResource", "children by kind", "responder.go")], ["Host.ServeHTTP", "Resource.ServeHTTP", "Router.ServeHTTP"])

p("P06", "Handlers see the decoded values captured for their own URL",
  "In every handler the host and path values hold, for each value name of the responder's template and of the templates above it, the percent-decoded text captured from the matching host or path segment. Templates that were tried and did not match leave no values behind and cannot influence whether later siblings match. An encoded slash (%2F or %2f) belongs to its segment and never separates segments, in request paths and in templates alike.",
  ["configurations", "inputs"], "every tree with overlapping pattern siblings, every encoding of a request path",
  "tests read values only along single-candidate paths and never mix a failed sibling match with value checks",
  ["template.go", "utils.go", "responder.go"], [("Template.Match appending values", "template.go"), ("Args.nextPathSegment decoding", "utils.go"), ("slashDecoderRe in templates", "utils.go")],
  [("Args.hostPathValues", "values captured so far for this request", "utils.go")], ["Args.HostPathValues"])

p("P07", "The router selects static hosts, then pattern hosts, then the root",
  "The router passes a request to the host whose static template equals the request's host without its port, otherwise to the first registered host whose pattern template matches it, and otherwise to the root resource; with none of these the answer is 404. A host that is used directly serves only requests whose host, without its port, matches its template and answers all others with 404.",
  ["configurations", "inputs"], "every set of hosts and optional root, every Host header (with and without port, IPv6 literals, empty)",
  "tests use one router with fixed hosts; ports, empty hosts and overlapping host patterns are sampled only",
  ["router.go", "host.go"], [("Router.passRequest", "router.go"), ("Host.ServeHTTP", "host.go"), ("registerHost / replaceHost", "router.go")],
  [("staticHosts, patternHosts, r", "hosts by kind and the root resource", "router.go")], ["Router.ServeHTTP", "Host.ServeHTTP"])

p("P08", "Every request is answered exactly once",
  "A request is answered by exactly one of: one handler, one redirect, a middleware that answered instead, or one not-found (or other error) response. Once a handler or middleware reports the request as handled, nothing else writes a response; when it reports it as not handled, the nearest enclosing subtree handler on the matched path answers if there is one, and otherwise the not-found handler is run exactly once.",
  ["configurations", "inputs"], "every tree, every placement of passing, answering and dropping middlewares and of handlers returning false, every request path",
  "tests check the final body for well-behaved handlers; combinations of declined requests, subtree handlers and dropping middlewares are not enumerated",
  ["host.go", "resource.go", "responder.go", "router.go"], [("handleOrPassRequest return values", "resource.go, host.go"), ("subtreeExists", "utils.go, responder.go"), ("ServeHTTP fallbacks", "router.go, host.go, resource.go")],
  [("Args.subtreeExists / handled", "whether an enclosing subtree handler exists / the request was handled", "utils.go")], ["http.ResponseWriter", "HandlerOfNotFound"])

p("P09", "Methods are dispatched exactly, with correct 405, OPTIONS and Allow",
  "A responder that serves a request calls the handler set last for exactly the request's method, whatever the number of methods and the order and grouping in which they were set (method names are upper-cased when set). For a method without a handler it calls the custom not-allowed handler or else answers 405, and it answers OPTIONS with 200 unless a handler was set for it; in both default answers the Allow header lists exactly the methods that have handlers, OPTIONS included. A responder without any method handler answers 404, even if it has a not-allowed handler.",
  ["configurations", "inputs"], "every set and order of up to 40 methods, every request method",
  "tests register at most a few methods in fixed order; the sorting and the switch to binary search at 15 methods are hardly exercised",
  ["requesthandler.go", "responder.go"], [("_MethodHandlerPairs.get / set / sort", "requesthandler.go"), ("setHandlerFor, handleRequest, handleOptionsHTTPMethod", "requesthandler.go"), ("toUpperSplitByCommaSpace", "utils.go")],
  [("mhPairs", "method handlers sorted by method", "requesthandler.go")], ["SetHandlerFor", "HandlerOf", "AllowedHTTPMethods", "ServeHTTP"])

p("P10", "A secure responder never serves a request that came without TLS",
  "A responder declared with https (by its template or configuration) never runs its handlers, request-handler middlewares or request redirect (set with RedirectRequestTo) for a request without TLS: it answers 404 or, when configured to redirect insecure requests, a permanent redirect to the same URL under https. Responders that are not secure serve requests with and without TLS, and the security of one responder does not affect its parents or children.",
  ["configurations", "inputs"], "every combination of scheme and configuration along a path, with and without TLS",
  "tests check single resources with few combinations of flags",
  ["resource.go", "host.go", "config.go"], [("handleOrPassRequest security check", "resource.go, host.go"), ("Config.asFlags", "config.go")],
  [("flagSecure, flagRedirectsInsecure", "security configuration", "config.go")], ["ServeHTTP"])

p("P11", "Trailing slash policy is applied to the last segment",
  "When the resource of the last path segment has a trailing slash and the URL has none, or the other way round, the resource by default answers with a permanent redirect to the URL with the slash added or removed, answers 404 when configured to be strict, and serves the request as it is when configured to be lenient; when they agree it serves the request. A host that serves a request as a subtree handler applies the same rule to the end of the whole path; the root, a host's own path and resources serving as subtree handlers for longer paths ignore the trailing slash.",
  ["configurations", "inputs"], "every combination of slash configuration, node kind and path length",
  "tests use long segment names and a few configurations; short paths and combinations of flags are not covered",
  ["resource.go", "host.go", "utils.go"], [("handleOrPassRequest trailing slash check", "resource.go, host.go"), ("Args.pathHasTrailingSlash", "utils.go")],
  [("flagTrailingSlash, flagStrictOnTrailingSlash, flagLenientOnTrailingSlash", "slash configuration", "config.go")], ["ServeHTTP"])

p("P12", "Unclean paths are routed by their clean form and corrected",
  "A path with empty, `.` or `..` segments is routed as its lexically cleaned form (a trailing slash is kept). The responder selected this way answers with a permanent redirect to the clean URL by default and serves the request directly, seeing the clean path, when configured to be lenient on unclean paths; clean paths are never redirected for this reason.",
  ["configurations", "inputs"], "every path over segments, empty, `.` and `..`, every leniency configuration, every node kind",
  "tests sample a few unclean URLs",
  ["utils.go", "resource.go", "host.go"], [("getArgs path cleaning", "utils.go"), ("cleanPath redirect", "resource.go, host.go")],
  [("Args.cleanPath", "the path was changed by cleaning", "utils.go")], ["ServeHTTP"])

p("P13", "Automatic redirects keep the rest of the URL and lead to the responder",
  "Every automatic redirect (to https, to the other trailing slash form, to the clean path) goes to the same host with the same query and the same percent-encoded segments, changing only what is being corrected. Following it, repeatedly if needed, ends after finitely many steps at a request that the responder which redirected serves, with the values it would have had (as long as its handler and the ones passing the request to it do not decline it); no redirect ever points to the URL that was requested.",
  ["configurations", "inputs"], "every tree and configuration, every request URL with encoded characters and query",
  "tests compare a few Location headers for plain ASCII paths and never follow a redirect",
  ["resource.go", "host.go", "utils.go"], [("cloneRequestURL and newURL edits", "resource.go, host.go, utils.go"), ("commonRedirectHandler", "requesthandler.go")],
  [], ["Location header", "ServeHTTP"])

p("P14", "Unmatched paths go to the nearest subtree handler with the right rest",
  "When no responder below matches the rest of the path, the request is served by the nearest enclosing subtree handler on the matched path, and by nothing else; if that responder has no handlers and no redirect, the answer is 404 even if farther subtree handlers exist, and without an enclosing subtree handler the answer is 404. The remaining path that a handler is given is the percent-encoded part of the cleaned request path below its responder: it begins with a slash for a host and for a resource without a trailing slash in its template, does not for one with a trailing slash, and is empty when the path ends at the responder.",
  ["configurations", "inputs"], "every placement of subtree handlers in a tree up to the depth bound, every path below and beside them, encoded characters included",
  "tests check few placements with plain paths",
  ["resource.go", "host.go", "responder.go", "utils.go"], [("handleOrPassRequest subtree fallback", "resource.go, host.go"), ("Args.RemainingPath", "utils.go"), ("currentPathSegmentIdx save and restore", "responder.go")],
  [("currentPathSegmentIdx", "position in the path", "utils.go")], ["Args.RemainingPath", "ServeHTTP"])

p("P15", "Configured redirects send requests to the given URL plus the rest",
  "A responder told to redirect requests answers, in place of its request handler, with the given code and URL; when it is a subtree handler the percent-encoded remaining path is appended with exactly one slash in between, and existing descendants stay reachable. A responder told to redirect any request answers every request that reaches it or anything below it this way, running none of its own or its descendants' passers and handlers. The stored target is not changed by serving requests; an empty target or a code outside 300-399 is rejected.",
  ["configurations", "inputs"], "every target form (absolute, rooted, relative, with and without trailing slash), node kind, remaining path and request sequence",
  "tests check single requests with a few targets",
  ["requesthandler.go", "responder.go"], [("redirector", "requesthandler.go"), ("RedirectRequestTo / RedirectAnyRequestTo", "responder.go")],
  [("requestRedirector / requestReceiver", "installed redirect", "responder.go")], ["Location header", "ServeHTTP"])

p("P16", "Middlewares run in order, in scope, exactly once",
  "Middlewares wrap in the order given, so that the last one given, and any added later, runs first. Request-passer middlewares run exactly when the responder passes a request on (even when it has no handlers), request-handler middlewares exactly when the responder itself serves a request and has a method handler, and method middlewares only for the named methods (`*`: all existing ones, `!`: the not-allowed handler). The subtree forms wrap every responder below and not the receiver, the router-wide forms every host and resource, each exactly once; wrapping with no or nil middleware or a method without a handler is rejected (the subtree and router-wide forms skip responders that lack the method).",
  ["configurations", "inputs"], "every sequence of wrap calls up to the depth bound over a small tree, every request",
  "tests check each wrap method once on one tree",
  ["responder.go", "router.go", "requesthandler.go", "middleware.go", "utils.go"], [("Wrap* methods", "responder.go, router.go"), ("wrapHandlerOf", "requesthandler.go"), ("traverseAndCall, wrapEveryHandlerOf", "utils.go, middleware.go")],
  [], ["order of middleware calls"])

p("P17", "A request is not affected by the requests served before it",
  "The response to a request, and everything its handlers and middlewares observe (captured values, remaining path, custom values, responder data, handled result), is the same whatever requests the same tree served before it, including requests that were redirected, answered with an error, declined by a handler or a converted net/http middleware, or whose handler panicked. In particular nothing set or captured for one request is visible to a later one.",
  ["histories"], "every sequence of requests up to the depth bound over trees using all features",
  "tests serve requests one after another but never compare the same request after different histories",
  ["utils.go", "middleware.go", "requesthandler.go"], [("getArgs / putArgsInThePool reset", "utils.go"), ("Mw per-request state", "middleware.go"), ("redirector copies its URL", "requesthandler.go")],
  [("argsPool", "pooled Args objects", "utils.go")], ["ServeHTTP", "Args"])

p("P18", "Concurrent requests do not affect each other",
  "In every interleaving of requests served concurrently by the same tree, each request gets the response, and its handlers and middlewares observe the values, remaining path, custom values and responder data, that it would get if it were served alone. Serving involves no unsynchronized access to shared memory.",
  ["schedules"], "every interleaving of two (three) concurrent requests at statement granularity up to the preemption bound",
  "no test serves two requests concurrently",
  ["utils.go", "middleware.go", "responder.go", "host.go", "resource.go", "router.go", "requesthandler.go", "template.go"], [("per-request Args from a pool", "utils.go"), ("read-only tree while serving", "responder.go"), ("Mw per-request state", "middleware.go")],
  [("argsPool", "pooled Args objects", "utils.go")], ["ServeHTTP"],
  "none: the check builds /repo through an overlay that inserts scheduling points before every statement")

p("P19", "How a tree is assembled does not change how it routes",
  "The requests served and the handlers and values they reach depend only on the templates, handlers and order of pattern siblings, not on how the tree was assembled: path handlers, created resources, resources registered alone or with their own children, before or after other parts, with a prefix in their template or under a given prefix path, through a router, host or resource, all give the same routing. When a registered resource or host has the template of an existing one, the one that has handlers stays and the children of both are merged recursively, losing none of them; when both have handlers the call is rejected.",
  ["programs", "histories"], "every assembly program up to the depth bound for each target tree",
  "tests build each tree in one or two ways and inspect pointers rather than routing",
  ["responder.go", "router.go", "resource.go"], [("keepResourceOrItsChildResources / passChildResourcesTo / replaceResource", "responder.go"), ("registerResourceUnder / segmentResources", "responder.go"), ("Router.RegisterHost / RegisterResource / registerNewRoot", "router.go")],
  [], ["RegisterResource", "RegisterResourceUnder", "Resource", "SetPathHandlerFor", "ServeHTTP"])

p("P20", "Names stay unique among siblings and along every URL",
  "No two children of one parent and no two hosts of one router ever have the same non-empty template name, and no resource ever shares its name or one of its value names with a host or resource above it. Every way of creating or registering hosts and resources that would break this is rejected with a panic, and calls that would not break it are not rejected for this reason.",
  ["programs", "histories"], "every sequence of creating and registering calls up to the depth bound over templates with colliding names",
  "tests check each method for one or two collisions; implicitly created hosts and prefixes are not covered",
  ["responder.go", "router.go"], [("checkNamesAreUniqueInTheURL, checkChildResourceNamesAreUniqueInURL", "responder.go"), ("ChildResourceNamed / HostNamed checks", "responder.go, router.go")],
  [], ["Resource", "RegisterResource", "RegisterResourceUnder", "Host", "SetURLHandlerFor"])

p("P21", "A rejected call does not disturb the routes that already exist",
  "When a call that creates, registers, wraps or configures something is rejected with a panic, every request that was served by a handler before the call is still served by the same handler with the same values and status, and the tree stays usable for further calls.",
  ["histories", "fault_sequences"], "every sequence of accepted calls followed by every rejected call up to the depth bound",
  "tests check that bad calls panic but not what is left afterwards",
  ["responder.go", "router.go", "resource.go", "host.go"], [("validation before registration", "responder.go, router.go"), ("passChildResourcesTo clears only at the end", "responder.go")],
  [], ["ServeHTTP after a recovered panic"])

p("P22", "Lookups agree with what was created and registered",
  "A host or resource that was created or registered at a URL is found again, as the same object, by its template path, by `$name` in place of templates, by child name and by repeating the creating call; it is listed exactly once among its parent's children or the router's hosts, and its parent, host and router accessors agree with where it is listed. Looking up something that does not exist returns nothing and changes no routing.",
  ["programs", "histories"], "every sequence of creating, registering and lookup calls up to the depth bound",
  "tests check the lookups of one tree after one way of building it",
  ["responder.go", "router.go", "resource.go"], [("registeredResource / resourceWithTemplate", "responder.go"), ("hostWithTemplate / registeredHost", "router.go"), ("setParent", "responder.go")],
  [("papa", "parent pointer", "responder.go")], ["RegisteredResource", "RegisteredHost", "ChildResources", "Hosts", "Parent", "Host", "Router"])

p("P23", "A responder's generated URL routes back to it",
  "The URL generated for a host or resource from valid values, when requested over its scheme, is served by that responder without a redirect and yields the same values; distinct values give distinct URLs. This covers the values that the templates can capture again (no empty, `.` or `..` segment results, no segment text that a sibling of higher precedence or another split between a template's segments would take). Literal text and values are encoded so that reserved characters, slashes inside a segment included, decode to the original text; a missing or non-matching value is reported as an error.",
  ["configurations", "inputs"], "every tree with escaped, dynamic and slash-containing segments, every assignment of values",
  "tests compare the string form of a few URLs without requesting them",
  ["utils.go", "responder.go", "template.go"], [("responderURL", "utils.go"), ("Template.TryToApply", "template.go")],
  [], ["Host.URL", "Resource.URL", "ServeHTTP"])

p("P24", "Configuration follows template, config and reconfiguration rules",
  "A responder's reported configuration is exactly what its template's scheme and trailing slash and its config say (redirecting insecure requests implies secure; handling the path as is implies both leniencies; the root never has trailing slash properties). Reconfiguring replaces every other property but never clears secure or trailing slash, and the subtree and router-wide forms reconfigure exactly the responders that have no property beyond secure and trailing slash. Naming an existing configured responder with another scheme, or with another trailing slash unless it is lenient, is rejected; naming one that exists only as an unconfigured path prefix or host, with a call that would create it, configures it.",
  ["configurations", "histories"], "every template form, every config, every sequence of configuration calls up to the depth bound",
  "tests check a few configs per constructor",
  ["config.go", "responder.go", "router.go", "resource.go", "host.go"], [("configure, SetConfiguration, checkForConfigCompatibility", "responder.go"), ("Config.asFlags / asConfig", "config.go"), ("SetConfigurationForSubtree / ForAll", "responder.go, router.go")],
  [("cfs", "configuration flags", "responder.go")], ["Configuration", "Is* accessors", "ServeHTTP"])

p("P25", "An implementation's Handle methods become its handlers",
  "When a host or resource gets an implementation, exactly its methods that have a handler's signature and a name beginning with Handle become handlers of the upper-cased rest of the name, HandleNotAllowedMethod becomes the not-allowed handler, and a default OPTIONS handler is added when there is at least one method handler. All handlers the responder had before are discarded, the implementation is reported by the accessors, and a nil implementation is rejected.",
  ["configurations", "histories"], "every combination of method shapes on an implementation type, every earlier handler state",
  "tests use one implementation type",
  ["requesthandler.go", "responder.go"], [("detectHTTPMethodHandlersOf", "requesthandler.go"), ("SetImplementation", "responder.go")],
  [], ["NewResource", "NewHost", "SetImplementation", "AllowedHTTPMethods", "ServeHTTP"])

p("P26", "Handlers see the data of their own responder and request",
  "In every handler and middleware the args report the responder that is passing or handling the request: its shared data, its implementation, its host and the current resource (nil for a host). Custom values set on the args earlier in the same request are returned by key with the last value set, also through net/http handlers and middlewares converted with HrWithArgs, FnHrWithArgs and Mw, whose handled result is that of the wrapped handler when it was called and true otherwise. Setting shared data for a subtree or the whole router reaches exactly the responders below (or all) that have none.",
  ["configurations", "inputs", "histories"], "every tree, every nesting of converters up to the depth bound, every sequence of Set calls",
  "tests check each accessor on one responder and call converters once",
  ["utils.go", "requesthandler.go", "middleware.go", "responder.go"], [("Args accessors", "utils.go"), ("_r handover in passRequest and handleOrPassRequest", "responder.go, resource.go, host.go"), ("Hr, FnHr, HrWithArgs, FnHrWithArgs, Mw", "requesthandler.go, middleware.go")],
  [("Args._r, Args.slc", "current responder and custom values", "utils.go")], ["Args.ResponderSharedData", "Args.ResponderImpl", "Args.Host", "Args.CurrentResource", "Args.Get", "ArgsFrom"])

p("P27", "No request can crash the router or leave it without an answer",
  "Serving any request, whatever its method, host and path (empty, not starting with a slash, `*`, unclean, with any valid or malformed percent-encoding), never panics or hangs and always produces a response. A malformed encoding in a segment that has to be decoded is answered with 400 and reaches no handler.",
  ["inputs", "configurations"], "every raw and decoded path over a small alphabet up to the length bound, every host form, on trees using all features",
  "tests send only well-formed URLs",
  ["utils.go", "responder.go", "resource.go", "host.go", "router.go"], [("getArgs, nextPathSegment, RemainingPath index arithmetic", "utils.go"), ("http 400 on decoding errors", "responder.go, resource.go")],
  [], ["ServeHTTP"])

p("P28", "Custom redirect, not-found and status settings apply where set",
  "Automatic and configured redirects use the responder's own redirect handler if it has one and otherwise the common one, and automatic redirects use the responder's own permanent redirect code if set and otherwise the common one (308 by default); only 301 and 308 are accepted. The not-found handler set for the package is used for every not-found answer. Wrapping any of these runs the wrappers last-given first around the previous handler, and wrapping or setting one for a single responder affects no other responder.",
  ["configurations", "histories"], "every sequence of set and wrap calls on package and responder level up to the depth bound, every kind of redirect",
  "tests check each setter once",
  ["requesthandler.go", "responder.go", "resource.go", "host.go"], [("SetRedirectHandler, WrapRedirectHandler, SetPermanentRedirectCode", "responder.go, requesthandler.go"), ("WrapCommonRedirectHandler, WrapHandlerOfNotFound", "requesthandler.go"), ("redirect handler selection", "resource.go, host.go, requesthandler.go redirector")],
  [("permanentRedirectCode, commonRedirectHandler, notFoundResourceHandler", "package-level settings", "requesthandler.go")], ["ServeHTTP", "RedirectHandler", "PermanentRedirectCode"])

p("P29", "A resource made from a URL template goes to that URL or is rejected",
  "A resource whose URL template has a host or prefix path segments ends up, when it is registered, exactly at that host and path: the router puts it there and creates the missing host and resources before it; a host or resource accepts it only when the template's host (if it has one) is the one it belongs to and the template's segments begin with its own, and puts it below itself for the rest of them; a call that also names a URL or prefix path accepts it only when both name the same place. A resource made from a bare segment goes where the call says. Otherwise the call is rejected and neither the tree nor its routes change. Wherever it goes, it keeps its scheme, trailing slash, handlers and children.",
  ["configurations", "inputs"], "every kept host and prefix path, every way and place of registering, on every tree of the catalog",
  "tests register a few hand-picked resources with URL templates",
  ["responder.go", "router.go", "resource.go", "utils.go"], [("RegisterResource, RegisterResourceUnder, validateURL, registerResourceUnder", "responder.go"), ("RegisterResource, RegisterResourceUnder", "router.go"), ("splitURL", "utils.go"), ("createResource's urlt", "resource.go")],
  [("Resource.urlt", "the URL template kept until the registration", "resource.go")], ["NewDormantResource", "NewResource", "RegisterResource", "RegisterResourceUnder"])

p("P30", "Looking around changes nothing, and nothing that's seen is stale",
  "Accessors, lookups of responders that exist with their own scheme and trailing slash, URL generation and served requests have no lasting effect: whether or not, when and how often they're done between the calls that create, register, configure, set and wrap, on responders in and outside of a tree, those calls are accepted or rejected and return the same, and what's seen afterwards is the same. So what's seen always is the state at that moment: nothing that was seen or served before (a parent, host or router, a URL, a configuration, a route, a handler with its wrappers) outlives a change, whichever of the calls made it.",
  ["histories"], "every sequence of changing calls up to the depth bound, every choice of the moments between them at which everything is asked",
  "tests build a tree first and look at it or serve requests afterwards; they don't change it again",
  ["responder.go", "router.go", "host.go", "resource.go", "requesthandler.go", "template.go", "utils.go"], [("accessors and lookups", "responder.go, router.go, resource.go"), ("responderURL", "utils.go"), ("ServeHTTP and passRequest", "router.go, host.go, resource.go, responder.go"), ("registerResource, replaceResource, setParent, keep of children", "responder.go, router.go")],
  [("papa", "parent pointer", "responder.go"), ("staticResources, patternResources, wildcardResource", "children", "responder.go")], ["URL", "Host", "Parent", "Router", "Configuration", "ServeHTTP", "RegisteredResource"])

p("P31", "Requests and responses pass through the router untouched",
  "Every handler, middleware, redirect handler and not-found handler is given the very response writer and the very request the one before it passed on (the caller's, when none of the middlewares replaced them), also through net/http middlewares and handlers that are converted. The router neither reads nor changes the request: its URL, host, header, form, body and context are the same for everyone on the way and for the caller afterwards. When a handler answers, exactly what the handler writes and sets reaches the writer; when the router answers itself (a redirect, not found, not allowed, OPTIONS, bad request), it answers once, on the writer in use, and sets nothing but the header fields such an answer of net/http has, and Allow.",
  ["requests"], "every choice of what the middlewares at every place on the way replace, every kind of handler and of writing, every kind of answer",
  "tests look at the status code or the body of a recorder; they don't compare the writers and requests that are passed along",
  ["responder.go", "router.go", "host.go", "resource.go", "requesthandler.go", "middleware.go", "utils.go"], [("Mw, Hr, FnHr, HrWithArgs, FnHrWithArgs", "middleware.go, utils.go"), ("ServeHTTP and passRequest", "router.go, host.go, resource.go, responder.go"), ("handleOrPassRequest", "host.go, resource.go"), ("handleRequest and the router's own answers", "requesthandler.go")],
  [("requestReceiver, requestPasser, requestHandler", "chains of handlers", "responder.go")], ["ServeHTTP", "Mw", "WrapRequestPasser", "WrapRequestHandler", "WrapHandlerOf", "SetRedirectHandler", "SetHandlerForNotFound"])

p("P32", "A call means the same in every form",
  "What a call about one responder does, returns and rejects doesn't depend on the form it's made in: with a URL template on the router, with a path template (from there on) on the host, the root or a resource above it, or on the responder itself. For a configured responder all of the forms agree; for one that doesn't exist the forms with a URL or path agree with each other, and those that create it do what creating it and then calling it does. In lookups the same goes for a `$name` in place of a template. It's so for valid and invalid arguments, and whichever calls in whichever forms came before.",
  ["histories"], "every call with valid and invalid arguments, every kind of target and every form, every sequence of two calls in every combination of forms",
  "tests try every form with arguments of its own; they don't compare the forms with each other",
  ["responder.go", "router.go", "host.go", "resource.go"], [("forms with a URL template (SetURLHandlerFor, WrapURLHandlerOf, ...At)", "router.go"), ("forms with a path template (SetPathHandlerFor, WrapPathHandlerOf, ...At)", "responder.go"), ("setters, wrappers and accessors", "responder.go, requesthandler.go")],
  [("_Responder and registered_Responder", "finding by URL template", "router.go")], ["SetURLHandlerFor", "SetPathHandlerFor", "WrapRequestPasserAt", "WrapPathHandlerOf", "RedirectRequestAt", "SetConfigurationAt", "RedirectHandlerAt"])

p("P33", "Trees and templates don't affect each other",
  "What a router's tree is, accepts, answers and generates doesn't depend on other routers, hosts and resources of the process that aren't part of it: whatever was created, set, wrapped, looked up, renamed or served (requests that were declined or whose handlers panicked included) on another tree, before or in between, and however similar its templates are. Likewise templates that are parsed from the same or other text are independent of each other: naming, clearing, matching or applying one changes nothing about another. Only the package's own settings are common to all.",
  ["histories"], "every sequence of calls on one tree interleaved with calls and requests on another, every sequence of calls on one of two templates",
  "tests use a new router each and never look at another one that was left alone",
  ["template.go", "responder.go", "router.go", "host.go", "resource.go", "utils.go"], [("TryToParse", "template.go"), ("argsPool", "utils.go"), ("registration and lookups", "responder.go, router.go"), ("ServeHTTP and passRequest", "router.go, host.go, resource.go, responder.go")],
  [("argsPool", "pool of request args common to all trees", "utils.go")], ["NewRouter", "Parse", "SetName", "Clear", "ServeHTTP", "URL"])

p("P34", "Settings are independent of each other",
  "Calls that are about different responders, or about different settings of one (the handlers of different methods, the not-allowed handler, implementation, shared data, configuration, middlewares of the request passer and of the request handler, redirects, redirect handler, permanent redirect code), don't influence each other: whatever was called before, the order of two such calls decides neither which of them are rejected nor anything that's seen or answered afterwards, and no setting is lost because of another one. The forms for a subtree or all of the responders are about that setting of every responder they're for.",
  ["histories"], "every pair of calls about different things in both orders, after every other call",
  "tests make the calls they're about, on their own, in one order",
  ["responder.go", "requesthandler.go", "router.go"], [("setters and wrappers", "responder.go"), ("setHandlerFor, wrapHandlerOf, wrapRequestHandler", "requesthandler.go"), ("subtree and router-wide forms", "responder.go, router.go, middleware.go")],
  [("requestPasser, requestHandler, requestRedirector, cfs, sharedData, impl, redirectHandler, permanentRedirectCode", "settings of a responder", "responder.go")], ["SetImplementation", "SetSharedData", "SetConfiguration", "SetHandlerFor", "RedirectRequestTo", "SetRedirectHandler", "WrapRequestPasser"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
