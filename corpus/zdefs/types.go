package zdefs

type NI int16

type NB bool

type NF float32

type NU uint64

//json:json
type ZInt struct {
	F int  `json:"f" default:"0"`
	G *int `json:"g" default:"0"`
}

//json:json
type ZInt8 struct {
	F int8  `json:"f" default:"0"`
	G *int8 `json:"g" default:"0"`
}

//json:json
type ZInt16 struct {
	F int16  `json:"f" default:"0"`
	G *int16 `json:"g" default:"0"`
}

//json:json
type ZInt32 struct {
	F int32  `json:"f" default:"0"`
	G *int32 `json:"g" default:"0"`
}

//json:json
type ZInt64 struct {
	F int64  `json:"f" default:"0"`
	G *int64 `json:"g" default:"0"`
}

//json:json
type ZUint struct {
	F uint  `json:"f" default:"0"`
	G *uint `json:"g" default:"0"`
}

//json:json
type ZUint8 struct {
	F uint8  `json:"f" default:"0"`
	G *uint8 `json:"g" default:"0"`
}

//json:json
type ZUint16 struct {
	F uint16  `json:"f" default:"0"`
	G *uint16 `json:"g" default:"0"`
}

//json:json
type ZUint32 struct {
	F uint32  `json:"f" default:"0"`
	G *uint32 `json:"g" default:"0"`
}

//json:json
type ZUint64 struct {
	F uint64  `json:"f" default:"0"`
	G *uint64 `json:"g" default:"0"`
}

//json:json
type ZFloat32 struct {
	F float32  `json:"f" default:"0"`
	G *float32 `json:"g" default:"0"`
}

//json:json
type ZFloat64 struct {
	F float64  `json:"f" default:"0"`
	G *float64 `json:"g" default:"0"`
}

//json:json
type ZBool struct {
	F bool  `json:"f" default:"false"`
	G *bool `json:"g" default:"false"`
}

//json:json
type ZNI struct {
	F NI  `json:"f" default:"0"`
	G *NI `json:"g" default:"0"`
}

//json:json
type ZNB struct {
	F NB  `json:"f" default:"false"`
	G *NB `json:"g" default:"false"`
}

//json:json
type ZNF struct {
	F NF  `json:"f" default:"0"`
	G *NF `json:"g" default:"0"`
}

//json:json
type ZNU struct {
	F NU  `json:"f" default:"0"`
	G *NU `json:"g" default:"0"`
}

//json:strict
type ZMix struct {
	A *bool    `json:"a,omitempty" default:"true"`
	B *string  `json:"b,omitempty" default:"-"`
	C *float64 `json:"c,omitempty" default:"0.25"`
	D int8     `json:"d,omitempty" default:"-1"`
	E uint32   `json:"e,omitempty" default:"7"`
	G string   `json:"g,omitempty" default:"0"`
	H string   `json:"h" default:"false"`
}
