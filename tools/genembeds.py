#!/usr/bin/env python3
"""Writes mc/embeds.go: struct types that embed unexported, exported, pointer and
recursive structs in all pairs and selected triples (reflect.StructOf cannot make those)."""
base = '''type em1 struct{ A, X int }
type em2 struct {
	A int `json:"a"`
	b int
}
type em3 struct {
	em1
	B int
}
type em4 struct{ *em1 }
type em5 struct {
	A int `json:"A"`
	B string `json:",omitempty"`
}
type em6 struct {
	em1 `json:"named"`
	C   int `json:"c,string"`
}
type em7 struct {
	*Em8
	D int
}
type Em8 struct {
	A int `json:"A,omitempty"`
	Y *int
}
type Em9 struct {
	em5
	Em8
}
type EmR struct {
	*EmR
	A, R int
}
type emP struct{ *emQ; A int }
type emQ struct{ *emP; B int }
type emInt int
type EmInt int
type emMap map[string]int
type EmMap map[string]int
type EmSl []int
type emIf interface{}
type EmIf interface{}
type emE struct{}
'''
emb = ["em1", "*em1", "em2", "em3", "*em3", "em4", "em5", "*em5", "em6", "em7", "*em7", "Em8", "*Em8", "Em9", "*Em9", "EmR", "*EmR", "emP", "emInt", "*emInt", "EmInt", "*EmInt", "emMap", "EmMap", "EmSl", "emIf", "EmIf", "emE", "*emE"]
tags = ["", '`json:"a"`', '`json:"-"`', '`json:",omitempty"`', '`json:"A,omitempty"`', '`json:",string"`']
own = [None, "A int", 'B int `json:"A"`', "a int", 'Z string `json:"a,omitempty"`']
types = []
def nm(e): return e.strip("*")
for e in emb:
    for t in tags:
        for o in own:
            if t and o not in (None, "A int"): continue
            types.append([f"{e} {t}".strip()] + ([o] if o else []))
            if o: types.append([o, f"{e} {t}".strip()])
for i, e in enumerate(emb):
    for j, f in enumerate(emb):
        if nm(e) == nm(f): continue
        types.append([e, f])
        if (i + j) % 3 == 0:
            types.append([e, "A int", f])
            types.append([e, f + ' `json:"a"`'])
out = ["// Code generated by tools/genembeds.py. DO NOT EDIT.", "", "package main", "", base, "func embedTypes() []any {", "\treturn []any{"]
for fs in types:
    out.append("\t\tstruct {\n" + "".join(f"\t\t\t{f}\n" for f in fs) + "\t\t}{},")
out += ["\t}", "}", ""]
import os, subprocess
p = os.path.join(os.path.dirname(__file__), "..", "mc", "embeds.go")
open(p, "w").write("\n".join(out))
subprocess.run(["gofmt", "-w", p], check=True)
print(len(types), "types")
