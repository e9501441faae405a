package rareq

import (
	"github.com/google/uuid"
	"time"
)

type NI int16

type NS string

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Bs []byte

//
//vh:aux
//json:json
type Tm time.Time

//
//vh:aux
//json:json
type Uu uuid.UUID

//json:json
type TPtrPtrAr2Int struct {
	F **[2]int `json:"f"`
	G **[2]int `json:"g,omitempty"`
}

//json:json
type TSlPtrAr2Int struct {
	F []*[2]int `json:"f"`
	G []*[2]int `json:"g,omitempty"`
}

//json:json
type TSlPtrAr2String struct {
	F []*[2]string `json:"f"`
	G []*[2]string `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrPtrAr2NS struct {
	F **[2]string `json:"f"`
	G **[2]string `json:"g,omitempty"`
}

//
//vh:as WPtrPtrAr2NS
//json:json
type TPtrPtrAr2NS struct {
	F **[2]NS `json:"f"`
	G **[2]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrAr2NI struct {
	F []*[2]int16 `json:"f"`
	G []*[2]int16 `json:"g,omitempty"`
}

//
//vh:as WSlPtrAr2NI
//json:json
type TSlPtrAr2NI struct {
	F []*[2]NI `json:"f"`
	G []*[2]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlPtrNS struct {
	F [][]*string `json:"f"`
	G [][]*string `json:"g,omitempty"`
}

//
//vh:as WSlSlPtrNS
//json:json
type TSlSlPtrNS struct {
	F [][]*NS `json:"f"`
	G [][]*NS `json:"g,omitempty"`
}

//json:json
type TSlSlPtrFloat64 struct {
	F [][]*float64 `json:"f"`
	G [][]*float64 `json:"g,omitempty"`
}

//json:json
type TSlSlPtrTm struct {
	F [][]*Tm `json:"f"`
	G [][]*Tm `json:"g,omitempty"`
}

//json:json
type TSlSlPtrUu struct {
	F [][]*Uu `json:"f"`
	G [][]*Uu `json:"g,omitempty"`
}

//json:json
type TSlSlPtrBs struct {
	F [][]*Bs `json:"f"`
	G [][]*Bs `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlPtrNIm struct {
	F [][]*int16 `json:"f"`
	G [][]*int16 `json:"g,omitempty"`
}

//
//vh:as WSlSlPtrNIm
//json:json
type TSlSlPtrNIm struct {
	F [][]*NIm `json:"f"`
	G [][]*NIm `json:"g,omitempty"`
}
