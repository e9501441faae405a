package toptr

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//
//vh:aux
//json:strict
type Stt struct {
	X int8    `json:"x"`
	Y *string `json:"y,omitempty"`
	Z []int   `json:"z,omitempty"`
}

//
//vh:aux
//json:json
type WXInt struct {
	F int `json:"f"`
}

//
//vh:asf WXInt
//json:json
type XInt int

//
//vh:aux
//json:json
type WXInt8 struct {
	F int8 `json:"f"`
}

//
//vh:asf WXInt8
//json:json
type XInt8 int8

//
//vh:aux
//json:json
type WXInt16 struct {
	F int16 `json:"f"`
}

//
//vh:asf WXInt16
//json:json
type XInt16 int16

//
//vh:aux
//json:json
type WXInt32 struct {
	F int32 `json:"f"`
}

//
//vh:asf WXInt32
//json:json
type XInt32 int32

//
//vh:aux
//json:json
type WXInt64 struct {
	F int64 `json:"f"`
}

//
//vh:asf WXInt64
//json:json
type XInt64 int64

//
//vh:aux
//json:json
type WXUint struct {
	F uint `json:"f"`
}

//
//vh:asf WXUint
//json:json
type XUint uint

//
//vh:aux
//json:json
type WXUint8 struct {
	F uint8 `json:"f"`
}

//
//vh:asf WXUint8
//json:json
type XUint8 uint8

//
//vh:aux
//json:json
type WXUint16 struct {
	F uint16 `json:"f"`
}

//
//vh:asf WXUint16
//json:json
type XUint16 uint16

//
//vh:aux
//json:json
type WXUint32 struct {
	F uint32 `json:"f"`
}

//
//vh:asf WXUint32
//json:json
type XUint32 uint32

//
//vh:aux
//json:json
type WXUint64 struct {
	F uint64 `json:"f"`
}

//
//vh:asf WXUint64
//json:json
type XUint64 uint64

//
//vh:aux
//json:json
type WXFloat32 struct {
	F float32 `json:"f"`
}

//
//vh:asf WXFloat32
//json:json
type XFloat32 float32

//
//vh:aux
//json:json
type WXFloat64 struct {
	F float64 `json:"f"`
}

//
//vh:asf WXFloat64
//json:json
type XFloat64 float64

//
//vh:aux
//json:json
type WXBool struct {
	F bool `json:"f"`
}

//
//vh:asf WXBool
//json:json
type XBool bool

//
//vh:aux
//json:json
type WXString struct {
	F string `json:"f"`
}

//
//vh:asf WXString
//json:json
type XString string

//
//vh:aux
//json:json
type WXSt struct {
	F St `json:"f"`
}

//
//vh:asf WXSt
//json:json
type XSt St

//
//vh:aux
//json:json
type WXXSt struct {
	F St `json:"f"`
}

//
//vh:asf WXXSt
//json:json
type XXSt XSt

//
//vh:aux
//json:json
type WXTime struct {
	F time.Time `json:"f"`
}

//
//vh:asf WXTime
//json:json
type XTime time.Time

//
//vh:aux
//json:json
type WXUUID struct {
	F uuid.UUID `json:"f"`
}

//
//vh:asf WXUUID
//json:json
type XUUID uuid.UUID

//
//vh:aux
//json:json
type WXXUUID struct {
	F uuid.UUID `json:"f"`
}

//
//vh:asf WXXUUID
//json:json
type XXUUID XUUID

//
//vh:aux
//json:strict
type WXStt struct {
	F Stt `json:"f"`
}

//
//vh:asf WXStt
//json:json
type XStt Stt
