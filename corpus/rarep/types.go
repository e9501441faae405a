package rarep

import (
	"github.com/google/uuid"
	"time"
)

type NI int16

type NS string

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Uu uuid.UUID

//json:json
type TPtrPtrBool struct {
	F **bool `json:"f"`
	G **bool `json:"g,omitempty"`
}

//json:json
type TPtrPtrString struct {
	F **string `json:"f"`
	G **string `json:"g,omitempty"`
}

//json:json
type TPtrPtrFloat64 struct {
	F **float64 `json:"f"`
	G **float64 `json:"g,omitempty"`
}

//json:json
type TPtrPtrUint8 struct {
	F **uint8 `json:"f"`
	G **uint8 `json:"g,omitempty"`
}

//json:json
type TPtrPtrTime struct {
	F **time.Time `json:"f"`
	G **time.Time `json:"g,omitempty"`
}

//json:json
type TPtrPtrUuid struct {
	F **uuid.UUID `json:"f"`
	G **uuid.UUID `json:"g,omitempty"`
}

//json:json
type TPtrAr2String struct {
	F *[2]string `json:"f"`
	G *[2]string `json:"g,omitempty"`
}

//json:json
type TPtrAr2Bool struct {
	F *[2]bool `json:"f"`
	G *[2]bool `json:"g,omitempty"`
}

//json:json
type TPtrAr2Float64 struct {
	F *[2]float64 `json:"f"`
	G *[2]float64 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrAr2NI struct {
	F *[2]int16 `json:"f"`
	G *[2]int16 `json:"g,omitempty"`
}

//
//vh:as WPtrAr2NI
//json:json
type TPtrAr2NI struct {
	F *[2]NI `json:"f"`
	G *[2]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrAr2NS struct {
	F *[2]string `json:"f"`
	G *[2]string `json:"g,omitempty"`
}

//
//vh:as WPtrAr2NS
//json:json
type TPtrAr2NS struct {
	F *[2]NS `json:"f"`
	G *[2]NS `json:"g,omitempty"`
}

//json:json
type TPtrAr2Time struct {
	F *[2]time.Time `json:"f"`
	G *[2]time.Time `json:"g,omitempty"`
}

//json:json
type TPtrAr2Uu struct {
	F *[2]Uu `json:"f"`
	G *[2]Uu `json:"g,omitempty"`
}

//json:json
type TPtrAr2Sl struct {
	F *[2]Sl `json:"f"`
	G *[2]Sl `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrAr2NIm struct {
	F *[2]int16 `json:"f"`
	G *[2]int16 `json:"g,omitempty"`
}

//
//vh:as WPtrAr2NIm
//json:json
type TPtrAr2NIm struct {
	F *[2]NIm `json:"f"`
	G *[2]NIm `json:"g,omitempty"`
}
