package topmap

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

type NB bool

type NF float32

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Tr St

//
//vh:aux
//json:strict
type Stt struct {
	X int8    `json:"x"`
	Y *string `json:"y,omitempty"`
	Z []int   `json:"z,omitempty"`
}

//json:json
type MapInt map[string]int

//json:json
type MapInt8 map[string]int8

//json:json
type MapInt16 map[string]int16

//json:json
type MapInt32 map[string]int32

//json:json
type MapInt64 map[string]int64

//json:json
type MapUint map[string]uint

//json:json
type MapUint8 map[string]uint8

//json:json
type MapUint16 map[string]uint16

//json:json
type MapUint32 map[string]uint32

//json:json
type MapUint64 map[string]uint64

//json:json
type MapFloat32 map[string]float32

//json:json
type MapFloat64 map[string]float64

//json:json
type MapBool map[string]bool

//json:json
type MapString map[string]string

//json:json
type MapPtrInt map[string]*int

//json:json
type MapPtrInt64 map[string]*int64

//json:json
type MapPtrUint map[string]*uint

//json:json
type MapPtrUint64 map[string]*uint64

//json:json
type MapPtrFloat64 map[string]*float64

//json:json
type MapPtrBool map[string]*bool

//
//vh:as MapInt
//json:json
type MapKeyInt map[NS]int

//
//vh:as MapString
//json:json
type MapKeyStr map[NS]string

//
//vh:as -
//json:json
type MapSt map[string]St

//
//vh:as MapSt
//json:json
type MapKeySt map[NS]St

//
//vh:as -
//json:json
type MapPtrSt map[string]*St

//
//vh:as MapInt16
//json:json
type MapNI map[string]NI

//
//vh:as MapString
//json:json
type MapNSNS map[NS]NS

//
//vh:as MapFloat32
//json:json
type MapNF map[string]NF

//
//vh:as MapBool
//json:json
type MapNB map[string]NB

//
//vh:as MapInt16
//json:json
type MapNIm map[string]NIm

//
//vh:as MapSt
//json:json
type MapTr map[string]Tr

//
//vh:as -
//json:json
type MapStt map[string]Stt
