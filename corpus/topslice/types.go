package topslice

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

type NB bool

type NF float32

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Tr St

//
//vh:aux
//json:json
type Uu uuid.UUID

//
//vh:aux
//json:strict
type Stt struct {
	X int8    `json:"x"`
	Y *string `json:"y,omitempty"`
	Z []int   `json:"z,omitempty"`
}

//json:json
type SliceInt []int

//json:json
type SliceInt8 []int8

//json:json
type SliceInt16 []int16

//json:json
type SliceInt32 []int32

//json:json
type SliceInt64 []int64

//json:json
type SliceUint []uint

//json:json
type SliceUint8 []uint8

//json:json
type SliceUint16 []uint16

//json:json
type SliceUint32 []uint32

//json:json
type SliceUint64 []uint64

//json:json
type SliceFloat32 []float32

//json:json
type SliceFloat64 []float64

//json:json
type SliceBool []bool

//json:json
type SliceString []string

//
//vh:as -
//json:json
type SliceSt []St

//
//vh:as SliceInt16
//json:json
type SliceNI []NI

//
//vh:as SliceString
//json:json
type SliceNS []NS

//
//vh:as SliceFloat32
//json:json
type SliceNF []NF

//
//vh:as SliceBool
//json:json
type SliceNB []NB

//
//vh:as SliceInt16
//json:json
type SliceNIm []NIm

//
//vh:as SliceSt
//json:json
type SliceTr []Tr

//
//vh:as -
//json:json
type SliceTime []time.Time

//
//vh:as -
//json:json
type SliceUu []Uu

//
//vh:as -
//json:json
type SliceStt []Stt
