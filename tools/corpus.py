#!/usr/bin/env python3
# Writes the corpus of type declarations (/verif/corpus/<package>/types.go).
import os,re,shutil,sys
base=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","corpus")
N=["int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","float32","float64","bool","string"]
named={"NI":"int16","NS":"string","NB":"bool","NF":"float32","NU":"uint64","ND":"float64","NL":"int64","NIm":"int16","NSm":"string"}
decl={
 "St":"//json:json\ntype St struct {\n\tA int    `json:\"a\"`\n\tB string `json:\"b,omitempty\"`\n}\n",
 "NI":"type NI int16\n","NS":"type NS string\n","NB":"type NB bool\n","NF":"type NF float32\n",
 "NU":"type NU uint64\n","ND":"type ND float64\n","NL":"type NL int64\n",
 "NIm":"//json:json\ntype NIm int16\n","NSm":"//json:json\ntype NSm string\n",
 "Sl":"//json:json\ntype Sl []int\n","Mp":"//json:json\ntype Mp map[string]int\n","Bs":"//json:json\ntype Bs []byte\n",
 "Tr":"//json:json\ntype Tr St\n","Tm":"//json:json\ntype Tm time.Time\n","Uu":"//json:json\ntype Uu uuid.UUID\n",
 "UB":"type UB []byte\n","US":"type US []int\n","UM":"type UM map[string]int\n","Un":"type Un struct {\n\tA int    `json:\"a\"`\n\tB string `json:\"b,omitempty\"`\n}\n",
 "ES":"//json:strict\ntype ES struct{}\n","EJ":"//json:json\ntype EJ struct{}\n",
 "RefI":"type RefI *int32\n","RefS":"type RefS *string\n",
 "HArr":"//json:json\ntype HArr [2]int32\n","HByt":"//json:json\ntype HByt [4]byte\n","Msl":"//json:json\ntype Msl []St\n","Mmp":"//json:json\ntype Mmp map[string]*St\n",
 "Stt":"//json:strict\ntype Stt struct {\n\tX int8     `json:\"x\"`\n\tY *string  `json:\"y,omitempty\"`\n\tZ []int    `json:\"z,omitempty\"`\n}\n",
}
needs={"Tr":["St"],"Msl":["St"],"Mmp":["St"]}
def ident(t):
    t=t.replace("ext.Code]","extCode]").replace("ext.","Ext").replace("map[extCode]","map[ext.Code]").replace("time.Time","Time").replace("uuid.UUID","Uuid")
    r=""
    while t:
        for a,b in (("[]","Sl"),("[2]","Ar2"),("[3]","Ar3"),("[4]","Ar4"),("map[ext.Code]","MapC"),("[0]","Ar0"),("map[string]","Map"),("map[NS]","MapN"),("*","Ptr")):
            if t.startswith(a):
                r+=b; t=t[len(a):]; break
        else:
            r+=t[0].upper()+t[1:]; t=""
    return r
def emit(pkg,body,extra=()):
    used=[]
    def use(n):
        if n in used: return
        for k in needs.get(n,[]): use(k)
        used.append(n)
    for n in decl:
        if n not in extra and re.search(r"(?<![\w.])%s(?!\w)"%n,body) and not re.search(r"(?m)^(type )?\t*%s [\w\[\]*]+"%n,body): use(n)
    txt="".join("//vh:aux\n//\n"+decl[n]+"\n" if decl[n].startswith("//") else decl[n]+"\n" for n in used)+body
    imps=[]
    if "time." in re.sub(r'"[^"]*"','',re.sub(r'layout:"[^"]*"','',txt)): imps.append('"time"')
    if "uuid.UUID" in txt: imps.append('"github.com/google/uuid"')
    for m in sorted(set(re.findall(r"(?<![\w.])(ext[a-z]*)\.[A-Z]",txt))):
        imps.append('"vjcorp/%s"'%m)
    head="package %s\n\n"%pkg
    if imps:
        head+="import (\n"+"".join("\t%s\n"%i for i in imps)+")\n\n"
    d=os.path.join(base,pkg); os.makedirs(d,exist_ok=True)
    open(os.path.join(d,"types.go"),"w").write(head+txt)
DEN={"NI":"int16","NS":"string","NB":"bool","NF":"float32","NU":"uint64","ND":"float64","NL":"int64","NIm":"int16","NSm":"string","Sl":"[]int","Mp":"map[string]int","Tr":"St","RefI":"*int32","RefS":"*string","UB":"[]byte","US":"[]int","UM":"map[string]int","Bs":"[]byte","Tm":"time.Time","Uu":"uuid.UUID"}
# denoted replaces every named type in a type expression by what it denotes
def denoted(t):
    return re.sub(r"(?<![\w.])(%s)(?!\w)"%"|".join(DEN),lambda m:DEN[m.group(1)],t)
# shapes whose denoted counterpart the generator does not support
NOTWIN={"*[2]Sl","[2]US","*[2]Uu","[][]*Tm","[][]*Uu","[][]*Bs","[]Uu","[2]Sl","[][]Sl","[][]Mp","[2]Uu","[][]Uu","[]*Uu","[]*Tm","[][]Tm","[]*Bs","[][]Bs"}
def shapes(pkg,ts,directive="json"):
    b=""
    for t in ts:
        if denoted(t)!=t and t not in NOTWIN:
            d=denoted(t)
            b+="//vh:aux\n//\n//json:%s\ntype %s struct {\n\tF %s `json:\"f\"`\n\tG %s `json:\"g,omitempty\"`\n}\n\n//vh:as %s\n//\n"%(directive,"W"+ident(t),d,d,"W"+ident(t))
        b+="//json:%s\ntype %s struct {\n\tF %s `json:\"f\"`\n\tG %s `json:\"g,omitempty\"`\n}\n\n"%(directive,"T"+ident(t),t,t)
    emit(pkg,b)

for f in os.listdir(base):
    if os.path.isdir(os.path.join(base,f)): shutil.rmtree(os.path.join(base,f))

ints=N[:5]; uints=N[5:10]; fl=["float32","float64"]; bs=["bool","string"]
for pkg,ns in (("sint",ints),("suint",uints),("sflt",fl),("sbs",bs)):
    shapes(pkg,ns)
    shapes(pkg+"ptr",["*"+n for n in ns])
    shapes(pkg+"sl",["[]"+n for n in ns]+["[2]"+n for n in ns])
    shapes(pkg+"slp",["[]*"+n for n in ns]+["[][]"+n for n in ns])
    shapes(pkg+"map",["map[string]"+n for n in ns]+["map[NS]"+n for n in ns[:2]])
    shapes(pkg+"mapp",["map[string]*"+n for n in ns])
nm=["NI","NS","NB","NF","NU","ND","NL"]
shapes("nam",nm+["*"+n for n in nm])
shapes("namsl",["[]"+n for n in nm]+["[2]"+n for n in nm]+["[]*"+n for n in nm[:4]])
shapes("nammap",["map[string]"+n for n in nm]+["map[NS]"+n for n in nm[:4]]+["map[string]*"+n for n in nm[:4]])
shapes("namss",["[][]"+n for n in nm[:4]])
mk=["NIm","NSm"]
shapes("nmark",[p+n for n in mk for p in ("","*","[]","[2]","[]*","map[string]","map[NS]","map[string]*","[][]")])
shapes("bytes",["[]byte","[2]byte","[4]byte","Bs","[]*Bs","[][]Bs"])
shapes("times",["time.Time","*time.Time","[]time.Time","[2]time.Time","[][]time.Time","[]*Tm","[][]Tm"])
shapes("uuids",["uuid.UUID","*uuid.UUID","[]Uu","[2]Uu","[]*Uu","[][]Uu"])
shapes("structs",["St","*St","[]St","[]*St","map[string]St","map[NS]St","map[string]*St","[][]St"])
shapes("strict",["Stt","*Stt","[]Stt","map[string]Stt"],"strict")
shapes("colls",["Sl","[]Sl","[2]Sl","[][]Sl","Mp","[][]Mp"])
shapes("trans",["[]Tr","[]*Tr","map[string]Tr","map[NS]Tr","map[string]*Tr","[][]Tr"])
shapes("refs",["RefI","*RefI","RefS","*RefS","*[2]int","[0]int","**int"])

# top-level types that are not structs
# as_ names the type of the same package whose element is what e denotes
def as_(pre,k,e):
    d=denoted(e)
    if d==e and k=="string" or e=="Uu": return "-"
    return pre+{"uuid.UUID":"UUID","time.Time":"Time"}.get(d,d[0].upper()+d[1:])
def wrap(ts):
    return "".join("//vh:aux\n//\n//json:%s\ntype W%s struct {\n\tF %s `json:\"f\"`\n}\n\n//vh:asf W%s\n//\n//json:json\ntype %s %s\n\n"%("strict" if n=="XStt" else "json",n,w,n,n,d) for n,d,w in ts)
top=""
for n in N:
    c=n[0].upper()+n[1:]
    top+="//json:json\ntype Map%s map[string]%s\n\n//json:json\ntype Slice%s []%s\n\n"%(c,n,c,n)
    if n!="uint8": top+="//json:json\ntype Arr%s [3]%s\n\n"%(c,n)
emit("topmap","".join("//json:json\ntype Map%s map[string]%s\n\n"%(n.capitalize(),n) for n in N)+"".join("//json:json\ntype MapPtr%s map[string]*%s\n\n"%(n.capitalize(),n) for n in ("int","int64","uint","uint64","float64","bool"))+
 "".join("//vh:as %s\n//\n//json:json\ntype Map%s map[%s]%s\n\n"%(as_("Map",k,e),a,k,e) for a,k,e in (("KeyInt","NS","int"),("KeyStr","NS","string"),("St","string","St"),("KeySt","NS","St"),("PtrSt","string","*St"),("NI","string","NI"),("NSNS","NS","NS"),("NF","string","NF"),("NB","string","NB"),("NIm","string","NIm"),("Tr","string","Tr"),("Stt","string","Stt"))))
emit("topslice","".join("//json:json\ntype Slice%s []%s\n\n"%(n.capitalize(),n) for n in N)+
 "".join("//vh:as %s\n//\n//json:json\ntype Slice%s []%s\n\n"%(as_("Slice","string",e),a,e) for a,e in (("St","St"),("NI","NI"),("NS","NS"),("NF","NF"),("NB","NB"),("NIm","NIm"),("Tr","Tr"),("Time","time.Time"),("Uu","Uu"),("Stt","Stt"))))
emit("toparr","".join("//json:json\ntype Arr%s [%d]%s\n\n"%(n.capitalize(),2+i%2,n) for i,n in enumerate(N))+
 "".join("//vh:as %s\n//\n//json:json\ntype Arr%s [2]%s\n\n"%(as_("Den","string",e),a,e) for a,e in (("NI","NI"),("NS","NS"),("NF","NF"),("NB","NB"),("Time","time.Time")))+
 ""+"".join("//vh:aux\n//\n//json:json\ntype Den%s [2]%s\n\n"%(n.capitalize(),n) for n in ("int16","string","float32","bool"))+"//json:json\ntype Bytes []byte\n\n//json:json\ntype Arr1Bytes [1]byte\n\n//json:json\ntype Arr5Bytes [5]byte\n\n//json:json\ntype Arr16Bytes [16]byte\n\n")
emit("toptr",wrap([("X%s"%n.capitalize(),n,n) for n in N]+[("XSt","St","St"),("XXSt","XSt","St"),("XTime","time.Time","time.Time"),("XUUID","uuid.UUID","uuid.UUID"),("XXUUID","XUUID","uuid.UUID"),("XStt","Stt","Stt")]))
emit("topfld","""//json:json
type HMap map[string]int16

//json:json
type HSlice []string

//json:json
type HArr [2]int32

//json:json
type HByt [4]byte

//json:json
type Holder struct {
	A HMap   `json:"a"`
	B HSlice `json:"b"`
	C HArr   `json:"c"`
	D HByt   `json:"d"`
	E Bs     `json:"e"`
	F Sl     `json:"f"`
}

//json:json
type HolderOm struct {
	A HMap   `json:"a,omitempty"`
	B HSlice `json:"b,omitempty"`
	C HArr   `json:"c,omitempty"`
	D HByt   `json:"d,omitempty"`
	E Bs     `json:"e,omitempty"`
	F Sl     `json:"f,omitempty"`
	Z int    `json:"z"`
}
""")
# member combinations: separators, omission, order
emit("multi","""//json:json
type M1 struct {
	A string `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C bool   `json:"c"`
	D *int   `json:"d,omitempty"`
}

//json:json
type M2 struct {
	A *string `json:"a"`
	B *int    `json:"b,omitempty"`
	C *St     `json:"c"`
	D string  `json:"d"`
}

//json:json
type M3 struct {
	A []int          `json:"a,omitempty"`
	B map[string]int `json:"b,omitempty"`
	C []byte         `json:"c,omitempty"`
	D time.Time      `json:"d,omitempty"`
	E uuid.UUID      `json:"e,omitempty"`
}

//json:json
type M4 struct {
	A St             `json:"a,omitempty"`
	B *St            `json:"b,omitempty"`
	C []St           `json:"c,omitempty"`
	D map[string]*St `json:"d,omitempty"`
}

//json:json
type M5 struct {
	A float32 `json:"a,omitempty"`
	B float64 `json:"b,omitempty"`
	C uint16  `json:"c,omitempty"`
	D int8    `json:"d,omitempty"`
	E uint64  `json:"e,omitempty"`
}

//json:json
type M6 struct {
	A *time.Time `json:"a,omitempty"`
	B *uuid.UUID `json:"b,omitempty"`
	C *bool      `json:"c,omitempty"`
	D *float64   `json:"d,omitempty"`
	E *uint8     `json:"e,omitempty"`
	F NS         `json:"f,omitempty"`
}

//json:json
type M7 struct {
	A string `json:"a"`
	B int    `json:"b"`
	C []string `json:"c"`
	D map[string]string `json:"d"`
	E time.Time `json:"e"`
	F *float64 `json:"f"`
	G bool `json:"g"`
	H St `json:"h"`
}

//json:json
type M8 struct{}

//json:json
type M9 struct {
	A bool `json:"a"`
}

//json:json
type M10 struct {
	A []*St          `json:"a"`
	B [][]int        `json:"b,omitempty"`
	C [2]string      `json:"c,omitempty"`
	D map[NS]float64 `json:"d,omitempty"`
	E string         `json:"e"`
}

//json:json
type Tree struct {
	Name string           `json:"name"`
	Left *Tree            `json:"left,omitempty"`
	Kids []*Tree          `json:"kids,omitempty"`
	Map  map[string]*Tree `json:"map,omitempty"`
}

//json:json
type Deep1 struct {
	D Deep2 `json:"d"`
	L []Deep2 `json:"l,omitempty"`
}

//json:json
type Deep2 struct {
	D *Deep3 `json:"d"`
	S string `json:"s,omitempty"`
}

//json:strict
type Deep3 struct {
	M map[string]Deep4 `json:"m,omitempty"`
	N int32 `json:"n,required"`
}

//json:json
type Deep4 struct {
	V []int8 `json:"v"`
}
""")
# required members, defaults
req=["int","int8","uint16","float32","float64","bool","string","*int","*string","[]int","[]string","map[string]int","[]byte","time.Time","*time.Time","uuid.UUID","St","*St","[]St","NI","NS","*NS","Sl","Mp","Bs","[2]int"]
emit("reqd","".join("//json:json\ntype R%s struct {\n\tF %s `json:\"f,required\"`\n\tG int `json:\"g,omitempty\"`\n}\n\n"%(ident(t),t) for t in req)+"""//json:strict
type ROrder struct {
	A int    `json:"a,required"`
	B string `json:"b,omitempty"`
	C *bool  `json:"c,required"`
	D []int  `json:"d,required"`
}
""")
dv={"int":"-7","int8":"-128","int16":"300","int32":"-70000","int64":"-9223372036854775808","uint":"9","uint8":"255","uint16":"65535","uint32":"4294967295","uint64":"18446744073709551615","float32":"1.25","float64":"-2.5e-3","bool":"true","string":"some text"}
b=""
for n in N:
    b+="//json:json\ntype D%s struct {\n\tF %s `json:\"f\" default:\"%s\"`\n\tG *%s `json:\"g\" default:\"%s\"`\n\tH int `json:\"h\"`\n}\n\n"%(n.capitalize(),n,dv[n],n,dv[n])
for n,v in (("NI","-5"),("NS","named"),("NB","true"),("NF","0.5"),("NL","77"),("NU","1"),("ND","12.5")):
    b+="//json:json\ntype D%s struct {\n\tF %s `json:\"f\" default:\"%s\"`\n\tG *%s `json:\"g\" default:\"%s\"`\n}\n\n"%(n,n,v,n,v)
b+="//json:strict\ntype DMany struct {\n\tA int `json:\"a\" default:\"1\"`\n\tB string `json:\"b,omitempty\" default:\"x\"`\n\tC bool `json:\"c\"`\n\tD bool `json:\"d\" default:\"false\"`\n\tE int `json:\"e\" default:\"0\"`\n}\n\n"
b+="//json:json\ntype DIn struct {\n\tIn DMany `json:\"in\"`\n\tList []DMany `json:\"list,omitempty\"`\n}\n"
emit("defs",b)
# names of members
def struct(nm,names,d="json",ty="int"):
    return "//json:%s\ntype %s struct {\n"%(d,nm)+"".join("\tF%d %s `json:\"%s\"`\n"%(i,ty,n) for i,n in enumerate(names))+"}\n\n"
emit("names",struct("NPrefix",["a","ab","abc","A","aB"])+struct("NPrefixS",["a","ab","abc","A","aB"],"strict")+struct("NUni",["имя","漢字","é","日本"])+struct("NPunct",["a b","a.b","$ref","@type","a/b","a-b","x:y","{}"])+struct("NHtml",["<a>","&amp;","a=b"])+struct("NPct",["100%","%s","%d"])+struct("NNum",["1","0","-1"])+struct("NLong",["a_rather_long_member_name_that_goes_on_and_on_and_on_and_on","n"])+struct("NStrOm",["ключ,omitempty","x y,omitempty","z"],"strict","string")+struct("NGo",["default","type","func","v","s","o","err","offset","result","val","value","list","elem"])+struct("NGoStr",["default","type","v","s","err","nil","true","null"],"strict","*string"))
emit("skips","""//json:json
type K1 struct {
	A int    `json:"a"`
	B string `json:"-"`
	C bool   `json:"c,omitempty"`
}

//json:strict
type K2 struct {
	A string `json:"-"`
	B int    `json:"b"`
}
""")
emit("layouts","""//json:json
type L1 struct {
	A time.Time  `json:"a" layout:"2006-01-02"`
	B time.Time  `json:"b,omitempty" layout:"02.01.2006 15:04:05"`
	C *time.Time `json:"c" layout:"2006/01/02 15:04"`
	D *time.Time `json:"d,omitempty" layout:"Mon, 02 Jan 2006 15:04:05 MST"`
}

//json:json
type L2 struct {
	A time.Time `json:"a" layout:"2006-01-02T15:04:05.000Z07:00"`
	B time.Time `json:"b" layout:"20060102150405"`
	C time.Time `json:"c" layout:"2006.01.02"`
}

//json:json
type L3 struct {
	A []time.Time  `json:"a" layout:"2006-01-02"`
	B [2]time.Time `json:"b,omitempty" layout:"2006-01-02"`
}

//json:strict
type L4 struct {
	A time.Time  `json:"a,required" layout:"2006-01-02 15:04:05"`
	B *time.Time `json:"b,omitempty" layout:"2006-01-02 15:04:05.000000"`
}

//json:json
type L5 struct {
	A time.Time `json:"a" layout:"time.RFC3339"`
	B time.Time `json:"b,omitempty" layout:"time.RFC822"`
}

//json:json
type L6 struct {
	A time.Time `json:"a" layout:"January 2, 2006 at 3:04:05PM"`
	B time.Time `json:"b" layout:"02-Jan-06"`
}
""")
emit("inline","""//json:json
type I1 struct {
	A   int `json:"a"`
	Inn `json:",inline"`
	Z   string `json:"z,omitempty"`
}

//vh:aux
//
//json:json
type Inn struct {
	X string `json:"x"`
	Y *int   `json:"y,omitempty"`
}

//json:strict
type I2 struct {
	Inn  `json:",inline"`
	Inn2 `json:",inline"`
}

type Inn2 struct {
	P []string `json:"p"`
	Q float64  `json:"q,omitempty"`
	Inn3 `json:",inline"`
}

type Inn3 struct {
	R int8 `json:"r,omitempty"`
	S int8 `json:"s" default:"5"`
	T bool `json:"t,required"`
}

//json:json
type I3 struct {
	Inn `json:"inn"`
	Inn2a `json:"inn2,omitempty"`
	K   int `json:"k"`
}

//vh:aux
//
//json:json
type Inn2a struct {
	U uint8 `json:"u"`
}

//json:json
type I4 struct {
	Inn `json:",inline"`
}

//json:json
type I5 struct {
	L Same `json:"l"`
	Same `json:",inline"`
}

//vh:aux
//
//json:json
type Same struct {
	Same int `json:"same"`
	Oth int `json:"oth,omitempty"`
}

//json:json
type I6 struct {
	Inn `json:"inn,required"`
	Om2 `json:"om"`
}

//vh:aux
//
//json:json
type Om2 struct {
	A string `json:"a,omitempty"`
	B string `json:"b,omitempty"`
}

//json:json
type I7 struct {
	Om2 `json:",inline"`
	C string `json:"c,omitempty"`
}

//json:json
type I8 struct {
	C string `json:"c,omitempty"`
	Om2 `json:",inline"`
	D string `json:"d"`
}
""")
emit("embed","""//json:json
type E1 struct {
	Ea
	Eb
	K int `json:"k"`
}

//vh:aux
//
//json:json
type Ea struct {
	A string `json:"a"`
	B int    `json:"b,omitempty"`
}

//vh:aux
//
//json:json
type Eb struct {
	C *string `json:"c"`
	D bool    `json:"d,omitempty"`
}

//json:json
type E2 struct {
	Ea
}

//json:strict
type E3 struct {
	Ea
	K int `json:"k,omitempty"`
}
""")
emit("ext","""//vh:aux
//
//json:json
type Item struct {
	ID    int64  `json:"id"`
	Title string `json:"title,omitempty"`
}

//vh:aux
//
//json:strict
type Rule struct {
	On   bool      `json:"on"`
	When time.Time `json:"when"`
	Code Code      `json:"code,omitempty"`
}

type Code string
type Level int32
type Ratio float32
type Flag bool

//vh:aux
//
//json:json
type List []string

//vh:aux
//
//json:json
type Dict map[string]int
""")
emit("extn","""//vh:aux
//
//json:json
type Low struct {
	Q int8   `json:"q"`
	R string `json:"r,omitempty"`
}

//vh:aux
//
//json:json
type Mid struct {
	Low `json:",inline"`
	M int `json:"m,omitempty"`
}

//vh:aux
//
//json:json
type Top struct {
	Mid `json:",inline"`
	T bool `json:"t"`
	Lo Low `json:"lo,omitempty"`
	Lv Lvl `json:"lv" default:"7"`
	Ls Lst `json:"ls,omitempty"`
	S []string `json:"s"`
	P *int8 `json:"p,required"`
}

//vh:aux
//
//json:json
type Emb struct {
	Low
	B string `json:"b"`
}

//vh:aux
//
//json:json
type Mem struct {
	Low `json:"low"`
	B string `json:"b,omitempty"`
}

//vh:aux
//
//json:json
type Own struct {
	Own string `json:"own"`
	Oth int `json:"oth,omitempty"`
}

type Lvl int16

//vh:aux
//
//json:json
type Lst []int
""")
b=""
EMB=[("NS","ns"),("Sl","sl"),("NI","ni"),("UM","um"),("NF","nf"),("Bs","bs"),("NB","nb"),("HArr","ha"),("NSm","nsm"),("time.Time","tm"),("US","us"),("uuid.UUID","id"),("UB","ub"),("ES","es"),("Msl","ms"),("HByt","hb"),("Mmp","mm"),("Mp","mp")]
for oi,o in enumerate(("",",omitempty",",required")):
    for i in range(0,len(EMB),2):
        (n1,j1),(n2,j2)=EMB[i],EMB[i+1]
        b+="//json:%s\ntype N%d%c struct {\n\t%s `json:\"%s%s\"`\n\t%s `json:\"%s%s\"`\n\tK bool `json:\"k\"`\n}\n\n"%("strict" if i==4 else "json",oi,97+i//2,n1,j1,o,n2,j2,o)
b+="//json:json\ntype D1 struct {\n\tNS `json:\"ns\" default:\"x,y\"`\n\tNI `json:\"ni,omitempty\" default:\"-3\"`\n}\n\n//json:json\ntype D2 struct {\n\tNB `json:\"nb\" default:\"true\"`\n\tNF `json:\"nf\" default:\"1.5\"`\n}\n\n//json:json\ntype D3 struct {\n\ttime.Time `json:\"tm\" layout:\"2006-01-02\"`\n}\n"
emit("embedn",b)
b=""
for n,d in (("I","int16"),("S","string"),("B","bool"),("F","float32"),("U","uint64"),("L","[]int"),("M","map[string]int"),("Y","[]byte"),("A","[2]int32"),("T","time.Time"),("D","uuid.UUID"),("LS","[]St"),("MS","map[string]*St"),("St","St")):
    b+="//vh:aux\n//\n//json:json\ntype C1%s %s\n\n//vh:as C1%s\n//\n//json:json\ntype C2%s C1%s\n\n//vh:as C1%s\n//\n//json:json\ntype C3%s C2%s\n\n"%(n,d,n,n,n,n,n,n)
    w=d in ("int16","string","bool","float32","uint64","St")
    if w: b+="//vh:aux\n//\n//json:json\ntype WE%s struct {\n\tF []%s `json:\"f\"`\n\tG map[string]%s `json:\"g,omitempty\"`\n}\n\n//vh:as WE%s\n//\n"%(n,d,d,n)
    if n in ("LS","MS"): continue
    if n not in ("L","M"): b+="//json:json\ntype E%s struct {\n\tF []C3%s `json:\"f\"`\n\tG map[string]C2%s `json:\"g,omitempty\"`\n}\n\n"%(n,n,n)
    b+="//json:json\ntype PL%s []C2%s\n\n//json:json\ntype PM%s map[string]C2%s\n\n"%(n,n,n,n)
emit("chains",b)
emit("imptn","""//json:json
type Q1 struct {
	extn.Mid `json:",inline"`
	Z string `json:"z"`
}

//json:json
type Q2 struct {
	A string `json:"a,omitempty"`
	extn.Top `json:",inline"`
}

//json:json
type Q3 struct {
	extn.Emb `json:",inline"`
	Z int `json:"z,omitempty"`
}

//json:json
type Q4 struct {
	extn.Mem `json:",inline"`
	Z int `json:"z,omitempty"`
}

//json:json
type Q5 struct {
	extn.Own `json:",inline"`
	Z int `json:"z,omitempty"`
}

//json:json
type Q6 struct {
	Loc `json:",inline"`
	Z int `json:"z,omitempty"`
}

type Loc struct {
	extn.Mid `json:",inline"`
	Y int8 `json:"y"`
}

//json:json
type Q7 struct {
	Lw extn.Low `json:"lw"`
	extn.Own `json:"own"`
	Loc `json:",inline"`
}
""")
emit("exta","type Test string\n\ntype Num uint8\n\n//vh:aux\n//\n//json:json\ntype Rec struct {\n\tA string `json:\"a\"`\n}\n")
emit("extb","type Test int64\n\ntype Num float64\n\n//vh:aux\n//\n//json:json\ntype Rec struct {\n\tB int16 `json:\"b\"`\n}\n")
emit("impt","""//json:json
type P1 struct {
	A ext.Item  `json:"a"`
	B *ext.Item `json:"b,omitempty"`
	C ext.Rule  `json:"c,omitempty"`
}

//json:json
type P2 struct {
	A ext.Code   `json:"a"`
	B ext.Level  `json:"b,omitempty"`
	E ext.Ratio  `json:"e"`
	F ext.Flag   `json:"f,omitempty"`
}

//json:json
type P3 struct {
	A []ext.Item          `json:"a"`
	B map[string]ext.Item `json:"b,omitempty"`
	C []*ext.Item         `json:"c,omitempty"`
	D map[string]*ext.Item `json:"d"`
}

//json:json
type P4 struct {
	A ext.List `json:"a"`
	B ext.Dict `json:"b,omitempty"`
}

//json:json
type PSlice []ext.Item

//json:json
type PMap map[string]ext.Item

//json:json
type PCodes []ext.Code

//json:json
type PTrans ext.Item

//json:json
type P5 struct {
	ext.Item `json:",inline"`
	Z int `json:"z"`
}

//json:json
type P6 struct {
	ext.Item `json:"item"`
	Z int `json:"z,omitempty"`
}

//json:json
type P7 struct {
	ext.Item
	Z int `json:"z,omitempty"`
}
""")
d=os.path.join(base,"aliased"); os.makedirs(d)
open(os.path.join(d,"types.go"),"w").write("""package aliased

import (
	ext "vjcorp/exta"
	exta "vjcorp/extb"
)

//json:json
type A1 struct {
	F ext.Test   `json:"f"`
	G exta.Test  `json:"g"`
	H ext.Num    `json:"h"`
	I exta.Num   `json:"i,omitempty"`
}

//json:json
type A2 struct {
	F ext.Rec  `json:"f"`
	G exta.Rec `json:"g"`
}
""")
emit("dirs","""//json:decode
type DecOnly struct {
	A int `json:"a"`
	B *string `json:"b,omitempty"`
}

//json:encode
type EncOnly struct {
	A int `json:"a"`
	B *string `json:"b,omitempty"`
}

//json:encode
type EncInt int64

//json:encode
type EncStr string

//json:strict,decode
type StrictDec struct {
	A int `json:"a"`
}

//json: STRICT
type StrictUp struct {
	A int `json:"a"`
}

//json:optional
type Opt struct {
	A int `json:"a"`
}
""")
# empty structs
shapes("empt",["ES","*ES","[]ES","map[string]ES","EJ","*EJ","[]*EJ","map[string]*EJ"])
emit("emptop","".join("//json:%s\ntype %s struct{}\n\n"%(d,n) for n,d in (("EmS","strict"),("EmJ","json")))+"//json:strict\ntype XEmS EmS\n\n//json:json\ntype EmSl []EmS\n\n//json:json\ntype EmMp map[string]EmS\n\n//json:strict\ntype EmIn struct {\n\tA EmS `json:\"a\"`\n\tB *EmJ `json:\"b,omitempty\"`\n\tC []EmS `json:\"c\"`\n}\n")
shapes("more",["UB","US","UM","[][]*int","[][]*St","map[NS]*int","map[NS]*NI","map[string]*NS","*[3]NS","[][]*NI","[][]*bool","[][]*string","[][]float64","map[NS]*bool","map[NS]*string"])
shapes("morei",["[][]ext.Item","ext.List","*ext.List","[]ext.List","map[string]ext.Dict","map[ext.Code]int","map[ext.Code]ext.Item","map[ext.Code]*ext.Item","[]ext.Rule","*ext.Rule","map[string]ext.List"])
tw={"ASlUn":("[]Un","[]St"),"BArUn":("[2]Un","[2]St"),"CMapExt":("map[ext.Code]ext.Item","map[string]ext.Item"),"DMapExt":("map[ext.Code]int","map[string]int"),"FMapSt":("map[NS]*St","map[string]*St"),"GList":("ext.List","[]string"),"HDict":("ext.Dict","map[string]int"),"MBs":("Bs","[]byte"),"PSl":("Sl","[]int"),"QMp":("Mp","map[string]int")}
emit("moret","".join("//vh:aux\n//\n//json:json\ntype W%s %s\n\n//vh:as W%s\n//\n//json:json\ntype %s %s\n\n"%(n,w,n,n,t) for n,(t,w) in tw.items())+"".join("//json:json\ntype %s %s\n\n"%(n,t) for n,t in (("EArSt","[2]St"),("IRule","ext.Rule"),("JAr4","[4]bool"),("KAr0","[0]int"),("LAr1","[1]string"),("NTm","Tm"),("OUu","Uu"))))
# options of every kind of member: required, omittable, defaults that are zero
b=""
for n in N+["NI","NS","NB","NF","NU"]:
    b+="//json:json\ntype Q%s struct {\n\tF %s `json:\"f,required\"`\n\tG *%s `json:\"g,required\"`\n\tH []%s `json:\"h,required\"`\n\tI map[string]%s `json:\"i,required\"`\n}\n\n"%(ident(n),n,n,n,n)
emit("reqs",b)
zv=lambda n:"false" if n in("bool","NB") else "" if n in("string","NS") else "0"
b=""
for n in N+["NI","NB","NF","NU"]:
    if zv(n): b+="//json:json\ntype Z%s struct {\n\tF %s `json:\"f\" default:\"%s\"`\n\tG *%s `json:\"g\" default:\"%s\"`\n}\n\n"%(ident(n),n,zv(n),n,zv(n))
b+="//json:strict\ntype ZMix struct {\n\tA *bool `json:\"a,omitempty\" default:\"true\"`\n\tB *string `json:\"b,omitempty\" default:\"-\"`\n\tC *float64 `json:\"c,omitempty\" default:\"0.25\"`\n\tD int8 `json:\"d,omitempty\" default:\"-1\"`\n\tE uint32 `json:\"e,omitempty\" default:\"7\"`\n\tG string `json:\"g,omitempty\" default:\"0\"`\n\tH string `json:\"h\" default:\"false\"`\n}\n"
emit("zdefs",b)
# structs with many members
def many(nm,k,d,ts):
    return "//json:%s\ntype %s struct {\n"%(d,nm)+"".join("\tF%02d %s `json:\"%s%s\"`\n"%(i,ts[i%len(ts)],"m%02d"%i,",omitempty" if i%3==1 else "") for i in range(k))+"}\n\n"
emit("wide",many("W9",9,"strict",["int","string"])+many("W17",17,"strict",["int16","string","*bool"])+many("W33",33,"json",["string","uint8","bool","*int"]))
emit("wider",many("W34",34,"strict",["int","bool","string"])+many("W66",66,"strict",["int32","*string","bool"]))
# inlined structs and letter case
emit("fold","""//json:strict
type F1 struct {
	Wrap `json:",inline"`
}

//vh:aux
//
//json:strict
type Wrap struct {
	WRAP int `json:"wrap"`
}

//json:strict
type F2 struct {
	A int `json:"A"`
	Inner2 `json:",inline"`
}

//vh:aux
//
//json:json
type Inner2 struct {
	INNER2 string `json:"inner2,omitempty"`
	Inner2x int `json:"a"`
}

//json:strict
type F3 struct {
	Wrap `json:"Wrap"`
	Inner2 `json:"wrap,omitempty"`
}
""")
# declarations in one group, with and without their own directive
emit("group","""type (
	// GA has a comment first
	//json:json
	GA struct {
		X int   `json:"x"`
		Y []GB  `json:"y,omitempty"`
		Z GM    `json:"z"`
	}
	//json:strict
	GB struct {
		V string `json:"v,required"`
	}
	//json:json
	GM map[GK]GB
	GK string
	//json:json
	GL []GB

	//json:json
	// trailing comment
	GT GA
)
""")
# names, default values and layouts with every kind of character
def esc(t):
    return "".join("\\"+c if c in '"\\' else "\\x%02x"%ord(c) if ord(c)<32 or ord(c)==127 else c for c in t)
def tagtext(**kv):
    tag=" ".join('%s:"%s"'%(k,esc(v)) for k,v in kv.items())
    return '"%s"'%esc(tag) if "`" in tag else "`%s`"%tag
PUNCT="!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"
b=""
for t in ["string","int","bool","float64","[]int","map[string]int","[2]int","[]byte","time.Time","uuid.UUID","*int","*string","*time.Time","St","*St","[]St","map[string]St","NS","*NS","NI","Sl","Mp"]:
    b+="//json:strict\ntype X%s struct {\n\tF %s %s\n\tG %s %s\n\tH %s %s\n}\n\n"%(ident(t),t,tagtext(json=PUNCT),t,tagtext(json="\u00e9\u6f22 %s%d%!\U0001F600,omitempty"),t,tagtext(json="\u0416"))
txt=["a\"b","a\\b","a`b","a%sb%d","a\nb\tc","a\x01b","a'b","\u00e9","a\x7fb","a\u2028b","\\u0041","\"","\\","\\n","a,b,omitempty","  ","a\rb","\U0001F600","'",",","`","%","null","true","0","$","a:b","json:\"x\""]
for i in range(0,len(txt),4):
    b+="//json:json\ntype TDef%d struct {\n"%i+"".join("\tF%d %s %s\n"%(j,("string","*string","NS","string")[j],tagtext(json="f%d"%j+(",omitempty" if j==3 else ""),default=v)) for j,v in enumerate(txt[i:i+4]))+"}\n\n"
lays=["2006-01-02 'at' 15:04:05","2006%01%02","Jan 2, 2006","2006`01`02","2006\u5e7401\u670802\u65e5"," 2006-01-02 ","<2006>&01&02","{2006}.[01].$02"]
for i,v in enumerate(lays):
    b+="//json:json\ntype TLay%d struct {\n\tF time.Time %s\n\tG *time.Time %s\n\tH time.Time %s\n}\n\n"%(i,tagtext(json="f",layout=v),tagtext(json="g",layout=v),tagtext(json="h,omitempty",layout=v))
emit("texts",b)
# layouts whose text cannot stand in JSON as it is
b=""
for i,v in enumerate(["2006\"01\"02","2006\\01\\02","2006\n01\t02"]):
    b+="//json:json\ntype UL%d struct {\n\tF time.Time %s\n}\n\n"%(i,tagtext(json="f",layout=v))
emit("textsu",b)
# rare shapes: every other shape of depth two or three for which the generator produces code that compiles
shapes("rarep",["**bool","**string","**float64","**uint8","**time.Time","**uuid.UUID","*[2]string","*[2]bool","*[2]float64","*[2]NI","*[2]NS","*[2]time.Time","*[2]Uu","*[2]Sl","*[2]NIm"])
shapes("rareq",["**[2]int","[]*[2]int","[]*[2]string","**[2]NS","[]*[2]NI","[][]*NS","[][]*float64","[][]*Tm","[][]*Uu","[][]*Bs","[][]*NIm"])
shapes("rarea",["*HArr","[]HArr","[2]HArr","*[2]HArr","[]*HArr","[][]HArr","[][]*HArr","[]*HByt","[][]HByt","[]US","[2]US"])
shapes("rarec",["Msl","[]Msl","[2]Msl","[][]Msl","Mmp","[][]Mmp","[][]*Tr","[][]ES","[][]*ES","map[NS]*ES","[]*ES","map[NS]*Tr","map[NS]NIm","map[NS]*NIm","map[NS]NF"])
shapes("rarex",["*ext.Dict","[]ext.Dict","[][]ext.Dict","[]*ext.Dict","[]*ext.List","[][]ext.List","map[NS]*ext.List","map[string]*ext.Dict","[]*ext.Rule","[][]ext.Rule","map[NS]ext.Rule","map[string]*ext.Rule","[][]*ext.Item","[][]*ext.Rule"])
emit("raret","".join("//json:json\ntype TS%d [][2]%s\n\n"%(i,n) for i,n in enumerate(["int","uint8","int32","float32","bool","string","NI","NS","NIm","time.Time","Tm","Uu","Sl","Mp","Bs","HArr","HByt","Msl"]))+
 "".join("//json:json\ntype TE%d %s\n\n"%(i,t) for i,t in enumerate(["map[ext.Code]bool","map[ext.Code]string","map[NS]NF","map[ext.Code]St","[2]ext.Item","[2]ext.Rule","map[ext.Code]ext.Rule","map[string]*ext.Item","map[string]*ext.List","map[NS]ext.Dict","map[string]*Tr","[]ext.Level","[]ES","[2]ES","map[NS]NIm","map[string]*ES"])))
# members whose Go names are those of the variables of the generated code
b=""
for t in ["int8","[]int","[]*string","[2]string","map[string]NI","[][]int","[]byte","time.Time","*uuid.UUID","*St","[]St","RefI","*RefI","*NS","map[NS]St","*[2]int"]:
    b+="//json:json\ntype V%s struct {\n"%ident(t)+"".join("\t%s %s `json:\"%s%s\"`\n"%(n,t,n.lower(),",omitempty" if i%2 else "") for i,n in enumerate(["Elem1","Key1","Val1","Tmp1","Ref","Value"]))+"}\n\n"
emit("gonames",b)
if __name__=="__main__":
    for p in sorted(os.listdir(base)):
        f=os.path.join(base,p,"types.go")
        if os.path.exists(f): os.system("gofmt -w "+f)
