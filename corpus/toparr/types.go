package toparr

import (
	"time"
)

type NI int16

type NS string

type NB bool

type NF float32

//json:json
type ArrInt [2]int

//json:json
type ArrInt8 [3]int8

//json:json
type ArrInt16 [2]int16

//json:json
type ArrInt32 [3]int32

//json:json
type ArrInt64 [2]int64

//json:json
type ArrUint [3]uint

//json:json
type ArrUint8 [2]uint8

//json:json
type ArrUint16 [3]uint16

//json:json
type ArrUint32 [2]uint32

//json:json
type ArrUint64 [3]uint64

//json:json
type ArrFloat32 [2]float32

//json:json
type ArrFloat64 [3]float64

//json:json
type ArrBool [2]bool

//json:json
type ArrString [3]string

//
//vh:as DenInt16
//json:json
type ArrNI [2]NI

//
//vh:as DenString
//json:json
type ArrNS [2]NS

//
//vh:as DenFloat32
//json:json
type ArrNF [2]NF

//
//vh:as DenBool
//json:json
type ArrNB [2]NB

//
//vh:as -
//json:json
type ArrTime [2]time.Time

//
//vh:aux
//json:json
type DenInt16 [2]int16

//
//vh:aux
//json:json
type DenString [2]string

//
//vh:aux
//json:json
type DenFloat32 [2]float32

//
//vh:aux
//json:json
type DenBool [2]bool

//json:json
type Bytes []byte

//json:json
type Arr1Bytes [1]byte

//json:json
type Arr5Bytes [5]byte

//json:json
type Arr16Bytes [16]byte
