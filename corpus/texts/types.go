package texts

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//json:strict
type XString struct {
	F string `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G string `json:"é漢 %s%d%!😀,omitempty"`
	H string `json:"Ж"`
}

//json:strict
type XInt struct {
	F int `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G int `json:"é漢 %s%d%!😀,omitempty"`
	H int `json:"Ж"`
}

//json:strict
type XBool struct {
	F bool `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G bool `json:"é漢 %s%d%!😀,omitempty"`
	H bool `json:"Ж"`
}

//json:strict
type XFloat64 struct {
	F float64 `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G float64 `json:"é漢 %s%d%!😀,omitempty"`
	H float64 `json:"Ж"`
}

//json:strict
type XSlInt struct {
	F []int `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G []int `json:"é漢 %s%d%!😀,omitempty"`
	H []int `json:"Ж"`
}

//json:strict
type XMapInt struct {
	F map[string]int `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G map[string]int `json:"é漢 %s%d%!😀,omitempty"`
	H map[string]int `json:"Ж"`
}

//json:strict
type XAr2Int struct {
	F [2]int `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G [2]int `json:"é漢 %s%d%!😀,omitempty"`
	H [2]int `json:"Ж"`
}

//json:strict
type XSlByte struct {
	F []byte `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G []byte `json:"é漢 %s%d%!😀,omitempty"`
	H []byte `json:"Ж"`
}

//json:strict
type XTime struct {
	F time.Time `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G time.Time `json:"é漢 %s%d%!😀,omitempty"`
	H time.Time `json:"Ж"`
}

//json:strict
type XUuid struct {
	F uuid.UUID `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G uuid.UUID `json:"é漢 %s%d%!😀,omitempty"`
	H uuid.UUID `json:"Ж"`
}

//json:strict
type XPtrInt struct {
	F *int `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G *int `json:"é漢 %s%d%!😀,omitempty"`
	H *int `json:"Ж"`
}

//json:strict
type XPtrString struct {
	F *string `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G *string `json:"é漢 %s%d%!😀,omitempty"`
	H *string `json:"Ж"`
}

//json:strict
type XPtrTime struct {
	F *time.Time `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G *time.Time `json:"é漢 %s%d%!😀,omitempty"`
	H *time.Time `json:"Ж"`
}

//json:strict
type XSt struct {
	F St `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G St `json:"é漢 %s%d%!😀,omitempty"`
	H St `json:"Ж"`
}

//json:strict
type XPtrSt struct {
	F *St `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G *St `json:"é漢 %s%d%!😀,omitempty"`
	H *St `json:"Ж"`
}

//json:strict
type XSlSt struct {
	F []St `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G []St `json:"é漢 %s%d%!😀,omitempty"`
	H []St `json:"Ж"`
}

//json:strict
type XMapSt struct {
	F map[string]St `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G map[string]St `json:"é漢 %s%d%!😀,omitempty"`
	H map[string]St `json:"Ж"`
}

//json:strict
type XNS struct {
	F NS `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G NS `json:"é漢 %s%d%!😀,omitempty"`
	H NS `json:"Ж"`
}

//json:strict
type XPtrNS struct {
	F *NS `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G *NS `json:"é漢 %s%d%!😀,omitempty"`
	H *NS `json:"Ж"`
}

//json:strict
type XNI struct {
	F NI `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G NI `json:"é漢 %s%d%!😀,omitempty"`
	H NI `json:"Ж"`
}

//json:strict
type XSl struct {
	F Sl `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G Sl `json:"é漢 %s%d%!😀,omitempty"`
	H Sl `json:"Ж"`
}

//json:strict
type XMp struct {
	F Mp `json:"!#$%&()*+-./:;<=>?@[]^_{|}~ 0Zz"`
	G Mp `json:"é漢 %s%d%!😀,omitempty"`
	H Mp `json:"Ж"`
}

//json:json
type TDef0 struct {
	F0 string  `json:"f0" default:"a\"b"`
	F1 *string `json:"f1" default:"a\\b"`
	F2 NS      "json:\"f2\" default:\"a`b\""
	F3 string  `json:"f3,omitempty" default:"a%sb%d"`
}

//json:json
type TDef4 struct {
	F0 string  `json:"f0" default:"a\x0ab\x09c"`
	F1 *string `json:"f1" default:"a\x01b"`
	F2 NS      `json:"f2" default:"a'b"`
	F3 string  `json:"f3,omitempty" default:"é"`
}

//json:json
type TDef8 struct {
	F0 string  `json:"f0" default:"a\x7fb"`
	F1 *string `json:"f1" default:"a b"`
	F2 NS      `json:"f2" default:"\\u0041"`
	F3 string  `json:"f3,omitempty" default:"\""`
}

//json:json
type TDef12 struct {
	F0 string  `json:"f0" default:"\\"`
	F1 *string `json:"f1" default:"\\n"`
	F2 NS      `json:"f2" default:"a,b,omitempty"`
	F3 string  `json:"f3,omitempty" default:"  "`
}

//json:json
type TDef16 struct {
	F0 string  `json:"f0" default:"a\x0db"`
	F1 *string `json:"f1" default:"😀"`
	F2 NS      `json:"f2" default:"'"`
	F3 string  `json:"f3,omitempty" default:","`
}

//json:json
type TDef20 struct {
	F0 string  "json:\"f0\" default:\"`\""
	F1 *string `json:"f1" default:"%"`
	F2 NS      `json:"f2" default:"null"`
	F3 string  `json:"f3,omitempty" default:"true"`
}

//json:json
type TDef24 struct {
	F0 string  `json:"f0" default:"0"`
	F1 *string `json:"f1" default:"$"`
	F2 NS      `json:"f2" default:"a:b"`
	F3 string  `json:"f3,omitempty" default:"json:\"x\""`
}

//json:json
type TLay0 struct {
	F time.Time  `json:"f" layout:"2006-01-02 'at' 15:04:05"`
	G *time.Time `json:"g" layout:"2006-01-02 'at' 15:04:05"`
	H time.Time  `json:"h,omitempty" layout:"2006-01-02 'at' 15:04:05"`
}

//json:json
type TLay1 struct {
	F time.Time  `json:"f" layout:"2006%01%02"`
	G *time.Time `json:"g" layout:"2006%01%02"`
	H time.Time  `json:"h,omitempty" layout:"2006%01%02"`
}

//json:json
type TLay2 struct {
	F time.Time  `json:"f" layout:"Jan 2, 2006"`
	G *time.Time `json:"g" layout:"Jan 2, 2006"`
	H time.Time  `json:"h,omitempty" layout:"Jan 2, 2006"`
}

//json:json
type TLay3 struct {
	F time.Time  "json:\"f\" layout:\"2006`01`02\""
	G *time.Time "json:\"g\" layout:\"2006`01`02\""
	H time.Time  "json:\"h,omitempty\" layout:\"2006`01`02\""
}

//json:json
type TLay4 struct {
	F time.Time  `json:"f" layout:"2006年01月02日"`
	G *time.Time `json:"g" layout:"2006年01月02日"`
	H time.Time  `json:"h,omitempty" layout:"2006年01月02日"`
}

//json:json
type TLay5 struct {
	F time.Time  `json:"f" layout:" 2006-01-02 "`
	G *time.Time `json:"g" layout:" 2006-01-02 "`
	H time.Time  `json:"h,omitempty" layout:" 2006-01-02 "`
}

//json:json
type TLay6 struct {
	F time.Time  `json:"f" layout:"<2006>&01&02"`
	G *time.Time `json:"g" layout:"<2006>&01&02"`
	H time.Time  `json:"h,omitempty" layout:"<2006>&01&02"`
}

//json:json
type TLay7 struct {
	F time.Time  `json:"f" layout:"{2006}.[01].$02"`
	G *time.Time `json:"g" layout:"{2006}.[01].$02"`
	H time.Time  `json:"h,omitempty" layout:"{2006}.[01].$02"`
}
