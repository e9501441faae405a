package reqd

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//
//vh:aux
//json:json
type Bs []byte

//json:json
type RInt struct {
	F int `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RInt8 struct {
	F int8 `json:"f,required"`
	G int  `json:"g,omitempty"`
}

//json:json
type RUint16 struct {
	F uint16 `json:"f,required"`
	G int    `json:"g,omitempty"`
}

//json:json
type RFloat32 struct {
	F float32 `json:"f,required"`
	G int     `json:"g,omitempty"`
}

//json:json
type RFloat64 struct {
	F float64 `json:"f,required"`
	G int     `json:"g,omitempty"`
}

//json:json
type RBool struct {
	F bool `json:"f,required"`
	G int  `json:"g,omitempty"`
}

//json:json
type RString struct {
	F string `json:"f,required"`
	G int    `json:"g,omitempty"`
}

//json:json
type RPtrInt struct {
	F *int `json:"f,required"`
	G int  `json:"g,omitempty"`
}

//json:json
type RPtrString struct {
	F *string `json:"f,required"`
	G int     `json:"g,omitempty"`
}

//json:json
type RSlInt struct {
	F []int `json:"f,required"`
	G int   `json:"g,omitempty"`
}

//json:json
type RSlString struct {
	F []string `json:"f,required"`
	G int      `json:"g,omitempty"`
}

//json:json
type RMapInt struct {
	F map[string]int `json:"f,required"`
	G int            `json:"g,omitempty"`
}

//json:json
type RSlByte struct {
	F []byte `json:"f,required"`
	G int    `json:"g,omitempty"`
}

//json:json
type RTime struct {
	F time.Time `json:"f,required"`
	G int       `json:"g,omitempty"`
}

//json:json
type RPtrTime struct {
	F *time.Time `json:"f,required"`
	G int        `json:"g,omitempty"`
}

//json:json
type RUuid struct {
	F uuid.UUID `json:"f,required"`
	G int       `json:"g,omitempty"`
}

//json:json
type RSt struct {
	F St  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RPtrSt struct {
	F *St `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RSlSt struct {
	F []St `json:"f,required"`
	G int  `json:"g,omitempty"`
}

//json:json
type RNI struct {
	F NI  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RNS struct {
	F NS  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RPtrNS struct {
	F *NS `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RSl struct {
	F Sl  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RMp struct {
	F Mp  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RBs struct {
	F Bs  `json:"f,required"`
	G int `json:"g,omitempty"`
}

//json:json
type RAr2Int struct {
	F [2]int `json:"f,required"`
	G int    `json:"g,omitempty"`
}

//json:strict
type ROrder struct {
	A int    `json:"a,required"`
	B string `json:"b,omitempty"`
	C *bool  `json:"c,required"`
	D []int  `json:"d,required"`
}
