#!/usr/bin/env python3
"""Writes the generated part of the type corpus (deterministic)."""
import random, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "corpus")
N = 30
SC = ["string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool"]
WORDS = "id name size kind owner state count total price label color note date flag token group unit level scope path key value parent child first last next prev data info meta body list page text".split()

def tags_for(r, t):
    o = []
    base = t.lstrip("*")
    P = lambda p: r.random() < p
    if base == "string":
        if P(.2): o.append('minLength:"%d"' % r.randint(0, 3))
        if P(.2): o.append('maxLength:"%d"' % r.randint(4, 90))
        if P(.12): o.append('pattern:"^[a-z0-9]*$"')
        if P(.12): o.append('format:"%s"' % r.choice(["uuid", "email", "date", "hostname", "custom-format"]))
        if P(.12): o.append('enum:"%s"' % r.choice(["a,b,c", "one,two", '[\\"x\\",\\"y z\\"]']))
        if P(.15): o.append('default:"%s"' % r.choice(["abc", "true", "12", "a b"]))
        if P(.15): o.append('example:"%s"' % r.choice(["abc", "null", "12"]))
        elif P(.1): o.append('examples:"[\\"p\\",\\"q\\"]"')
        if P(.05): o.append('const:"fixed"')
    elif base in SC and base != "bool":
        f = base.startswith("float")
        if P(.2): o.append('minimum:"%s"' % (r.choice(["-1.5", "0", "2.25"]) if f else r.choice(["-10", "0", "1"])))
        if P(.2): o.append('maximum:"%s"' % (r.choice(["100.5", "1e6"]) if f else r.choice(["100", "1000"])))
        if P(.1): o.append('multipleOf:"%s"' % (r.choice(["0.5"]) if f else "2"))
        if P(.1): o.append('exclusiveMinimum:"-100"')
        if P(.1): o.append('exclusiveMaximum:"5000"')
        if P(.15): o.append('default:"%s"' % ("1.5" if f else "4"))
        if P(.15): o.append('example:"%s"' % ("2.5" if f else "6"))
        if P(.08): o.append('enum:"2,4,6"')
    elif base == "bool":
        if P(.2): o.append('default:"%s"' % r.choice(["true", "false"]))
        if P(.2): o.append('example:"true"')
    elif base.startswith("[]") and base[2:] in SC:
        if P(.2): o.append('minItems:"%d"' % r.randint(0, 2))
        if P(.2): o.append('maxItems:"%d"' % r.randint(3, 9))
        if P(.15): o.append('uniqueItems:"true"')
        if base == "[]string" and P(.1): o.append('default:"[a,b]"')
    elif base.startswith("map[") :
        if P(.2): o.append('minProperties:"1"')
        if P(.2): o.append('maxProperties:"10"')
    if P(.25): o.append('required:"%s"' % r.choice(["true", "true", "false"]))
    if P(.25): o.append('description:"%s"' % r.choice(["Some text.", "Multi word description", "Ünïcode – text", 'With \\"quotes\\"']))
    if P(.1): o.append('title:"%s"' % r.choice(["Title", "The title"]))
    if P(.1): o.append('deprecated:"%s"' % r.choice(["true", "false"]))
    if P(.08): o.append('nullable:"%s"' % r.choice(["true", "false"]))
    if base in SC or base.startswith("[]"):
        if P(.05): o.append('readOnly:"true"')
        elif P(.05): o.append('writeOnly:"true"')
    return o

SPECIAL = "Color Level Plain Count Ratio Token Money Point Limits Note Cat Dog Animal Either Both NotCat Inlined Labels Names Animals Registry Tree List Dir File WithBase Closed".split()

def jtype(r, i, n):
    x = r.random()
    if x < .34: t = r.choice(SC)
    elif x < .42: t = "*" + r.choice(SC)
    elif x < .52: t = "[]" + r.choice([s for s in SC if s != "uint8"])
    elif x < .56: t = "map[string]" + r.choice(SC)
    elif x < .59: t = r.choice(["time.Time", "*time.Time", "[]time.Time"])
    elif x < .61: t = "[]byte"
    elif x < .63: t = r.choice(["json.RawMessage", "*json.RawMessage"])
    elif x < .66: t = r.choice(["interface{}", "[]interface{}", "map[string]interface{}"])
    elif x < .68: t = r.choice(["[3]int", "[][]string", "map[string][]int", "[]map[string]string", "map[int]string"])
    elif x < .70: t = r.choice(["jsonschema.Date", "*jsonschema.Date"])
    elif x < .82:
        s = "special." + r.choice(SPECIAL)
        t = r.choice(["", "", "*", "[]", "map[string]", "[]*"]) + s
    elif x < .85:
        t = "special.Page[%s]" % r.choice(["int", "special.Note", "J%d" % r.randint(i + 1, n) if i < n else "string"])
    elif x < .87:
        t = "special.Pair[%s, %s]" % (r.choice(["string", "int"]), r.choice(["special.Cat", "*special.Tree", "J%d" % r.randint(i + 1, n) if i < n else "bool"]))
    else:
        # Nested: by value only to higher index, else by reference.
        j = r.randint(1, n)
        p = r.choice(["", "*", "[]", "map[string]", "[]*", "map[string]*"])
        if p == "" and j <= i: p = "*"
        t = p + "J%d" % j
    return t

EMB = {}   # struct -> names it has, embedded ones included

def jstruct(r, i, n):
    names = r.sample(WORDS, r.randint(1, 7))
    out = []
    if r.random() < .2:
        t = [x for x in ['title:"J title"', 'description:"J text."', 'additionalProperties:"false"', 'deprecated:"true"'] if r.random() < .6]
        out.append("\t_ struct{} `%s`" % " ".join(t or ['title:"T"']))
    if r.random() < .2 and i < n:
        j = r.randint(i + 1, n)
        out.append("\t%sJ%d%s" % (r.choice(["", "", "*"]), j, r.choice(["", "", ' `refer:"true"`'])))
        names = [w for w in names if w not in EMB[j]]
        EMB[i] = set(EMB[j])
    EMB.setdefault(i, set()).update(names)
    EMB[i].update(["hidden", "inl", "x", "y"])
    for w in names:
        t = jtype(r, i, n)
        tg = ['json:"%s%s"' % (w, r.choice(["", "", "", ",omitempty"]))] + tags_for(r, t)
        if r.random() < .04: tg = ['json:"-"']
        if r.random() < .04: tg = ['description:"untagged"']
        out.append("\t%s %s `%s`" % (w.capitalize(), t, " ".join(tg)))
    if r.random() < .12:
        out.append("\thidden string `json:\"hidden\"`")
    if r.random() < .1 and not any("J" in o.split()[0] for o in out if o.split()):
        out.append("\tInl struct { X int `json:\"x\" minimum:\"1\"`; Y []string `json:\"y\"` } `json:\"inl\"`")
    return "\n".join(out)

def imports(body):
    im = []
    if "json.RawMessage" in body: im.append('"encoding/json"')
    if "time.Time" in body: im.append('"time"')
    im2 = []
    if "multipart." in body: im.append('"mime/multipart"')
    if "jsonschema.Date" in body: im2.append('"github.com/swaggest/jsonschema-go"')
    if "special." in body: im2.append('"verif/harness/corpus/special"')
    return "import (\n" + "\n".join("\t" + x for x in sorted(im)) + "\n\n" + "\n".join("\t" + x for x in im2) + "\n)\n"

def gofmt(p): os.system("gofmt -w " + p)

for pk, seed in (("a", 11), ("b", 22)):
    r = random.Random(seed)
    body = ""
    EMB.clear()
    parts = {}
    for i in range(N, 0, -1):
        parts[i] = "// J%d is generated.\ntype J%d struct {\n%s\n}\n\n" % (i, i, jstruct(r, i, N))
    body = "".join(parts[i] for i in range(1, N + 1))
    body += "// JSON are samples.\nvar JSON = []interface{}{" + ", ".join("J%d{}" % i for i in range(1, N + 1)) + "}\n"
    p = "%s/%s/dto/dto.go" % (ROOT, pk)
    open(p, "w").write("// Package dto has generated types.\n//\n// Code generated by tools/gencorpus.py. DO NOT EDIT.\npackage dto\n\n" + imports(body) + "\n" + body)
    gofmt(p)
