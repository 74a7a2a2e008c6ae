#!/usr/bin/env python3
"""Writes mc/p25_types.go: one type for every combination of method shapes."""
SHAPES = [
    ('HandleGet', 'p', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('HandlePost', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('HandleOptions', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('HandleNotAllowedMethod', 'p', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('HandlePut', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args)', False),
    ('HandleCustomThing', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('ServeGet', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
    ('embedded', 'e', '', True),
    ('HandleNotAllowed', 'v', 'w http.ResponseWriter, r *http.Request, args *nm.Args) bool', True),
]
out = ['// Code generated by tools/gen_p25.py. DO NOT EDIT.', '', 'package main', '', 'import (', '\t"net/http"', '', '\tnm "github.com/shohruhadham/nanomux"', ')', '']
out.append('var p25Types = []p25Type{')
n = 1 << len(SHAPES)
for i in range(n):
    out.append('\t{%d, func() interface{} { return p25T%d{} }, func() interface{} { return &p25T%d{} }},' % (i, i, i))
out.append('}')
for i in range(n):
    emb = ' p25Embedded' if i >> 7 & 1 else ''
    out.append('')
    out.append('type p25T%d struct{%s }' % (i, emb) if emb else 'type p25T%d struct{}' % i)
    for b, (name, recv, sig, ok) in enumerate(SHAPES):
        if not i >> b & 1 or recv == 'e':
            continue
        rv = ('*' if recv == 'p' else '') + 'p25T%d' % i
        body = '{ return p25Serve(w, r, args, "%s") }' % name if sig.endswith('bool') else '{ p25Serve(w, r, args, "%s") }' % name
        out.append('')
        out.append('func (%s) %s(%s %s' % (rv, name, sig, body))
import os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'p25_types.go')
open(p, 'w').write('\n'.join(out) + '\n')
