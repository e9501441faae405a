package defs

type NI int16

type NS string

type NB bool

type NF float32

type NU uint64

type ND float64

type NL int64

//json:json
type DInt struct {
	F int  `json:"f" default:"-7"`
	G *int `json:"g" default:"-7"`
	H int  `json:"h"`
}

//json:json
type DInt8 struct {
	F int8  `json:"f" default:"-128"`
	G *int8 `json:"g" default:"-128"`
	H int   `json:"h"`
}

//json:json
type DInt16 struct {
	F int16  `json:"f" default:"300"`
	G *int16 `json:"g" default:"300"`
	H int    `json:"h"`
}

//json:json
type DInt32 struct {
	F int32  `json:"f" default:"-70000"`
	G *int32 `json:"g" default:"-70000"`
	H int    `json:"h"`
}

//json:json
type DInt64 struct {
	F int64  `json:"f" default:"-9223372036854775808"`
	G *int64 `json:"g" default:"-9223372036854775808"`
	H int    `json:"h"`
}

//json:json
type DUint struct {
	F uint  `json:"f" default:"9"`
	G *uint `json:"g" default:"9"`
	H int   `json:"h"`
}

//json:json
type DUint8 struct {
	F uint8  `json:"f" default:"255"`
	G *uint8 `json:"g" default:"255"`
	H int    `json:"h"`
}

//json:json
type DUint16 struct {
	F uint16  `json:"f" default:"65535"`
	G *uint16 `json:"g" default:"65535"`
	H int     `json:"h"`
}

//json:json
type DUint32 struct {
	F uint32  `json:"f" default:"4294967295"`
	G *uint32 `json:"g" default:"4294967295"`
	H int     `json:"h"`
}

//json:json
type DUint64 struct {
	F uint64  `json:"f" default:"18446744073709551615"`
	G *uint64 `json:"g" default:"18446744073709551615"`
	H int     `json:"h"`
}

//json:json
type DFloat32 struct {
	F float32  `json:"f" default:"1.25"`
	G *float32 `json:"g" default:"1.25"`
	H int      `json:"h"`
}

//json:json
type DFloat64 struct {
	F float64  `json:"f" default:"-2.5e-3"`
	G *float64 `json:"g" default:"-2.5e-3"`
	H int      `json:"h"`
}

//json:json
type DBool struct {
	F bool  `json:"f" default:"true"`
	G *bool `json:"g" default:"true"`
	H int   `json:"h"`
}

//json:json
type DString struct {
	F string  `json:"f" default:"some text"`
	G *string `json:"g" default:"some text"`
	H int     `json:"h"`
}

//json:json
type DNI struct {
	F NI  `json:"f" default:"-5"`
	G *NI `json:"g" default:"-5"`
}

//json:json
type DNS struct {
	F NS  `json:"f" default:"named"`
	G *NS `json:"g" default:"named"`
}

//json:json
type DNB struct {
	F NB  `json:"f" default:"true"`
	G *NB `json:"g" default:"true"`
}

//json:json
type DNF struct {
	F NF  `json:"f" default:"0.5"`
	G *NF `json:"g" default:"0.5"`
}

//json:json
type DNL struct {
	F NL  `json:"f" default:"77"`
	G *NL `json:"g" default:"77"`
}

//json:json
type DNU struct {
	F NU  `json:"f" default:"1"`
	G *NU `json:"g" default:"1"`
}

//json:json
type DND struct {
	F ND  `json:"f" default:"12.5"`
	G *ND `json:"g" default:"12.5"`
}

//json:strict
type DMany struct {
	A int    `json:"a" default:"1"`
	B string `json:"b,omitempty" default:"x"`
	C bool   `json:"c"`
	D bool   `json:"d" default:"false"`
	E int    `json:"e" default:"0"`
}

//json:json
type DIn struct {
	In   DMany   `json:"in"`
	List []DMany `json:"list,omitempty"`
}
