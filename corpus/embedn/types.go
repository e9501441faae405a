package embedn

import (
	"github.com/google/uuid"
	"time"
)

type NI int16

type NS string

type NB bool

type NF float32

//
//vh:aux
//json:json
type NSm string

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//
//vh:aux
//json:json
type Bs []byte

type UB []byte

type US []int

type UM map[string]int

//
//vh:aux
//json:strict
type ES struct{}

//
//vh:aux
//json:json
type HArr [2]int32

//
//vh:aux
//json:json
type HByt [4]byte

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//
//vh:aux
//json:json
type Msl []St

//
//vh:aux
//json:json
type Mmp map[string]*St

//json:json
type N0a struct {
	NS `json:"ns"`
	Sl `json:"sl"`
	K  bool `json:"k"`
}

//json:json
type N0b struct {
	NI `json:"ni"`
	UM `json:"um"`
	K  bool `json:"k"`
}

//json:strict
type N0c struct {
	NF `json:"nf"`
	Bs `json:"bs"`
	K  bool `json:"k"`
}

//json:json
type N0d struct {
	NB   `json:"nb"`
	HArr `json:"ha"`
	K    bool `json:"k"`
}

//json:json
type N0e struct {
	NSm       `json:"nsm"`
	time.Time `json:"tm"`
	K         bool `json:"k"`
}

//json:json
type N0f struct {
	US        `json:"us"`
	uuid.UUID `json:"id"`
	K         bool `json:"k"`
}

//json:json
type N0g struct {
	UB `json:"ub"`
	ES `json:"es"`
	K  bool `json:"k"`
}

//json:json
type N0h struct {
	Msl  `json:"ms"`
	HByt `json:"hb"`
	K    bool `json:"k"`
}

//json:json
type N0i struct {
	Mmp `json:"mm"`
	Mp  `json:"mp"`
	K   bool `json:"k"`
}

//json:json
type N1a struct {
	NS `json:"ns,omitempty"`
	Sl `json:"sl,omitempty"`
	K  bool `json:"k"`
}

//json:json
type N1b struct {
	NI `json:"ni,omitempty"`
	UM `json:"um,omitempty"`
	K  bool `json:"k"`
}

//json:strict
type N1c struct {
	NF `json:"nf,omitempty"`
	Bs `json:"bs,omitempty"`
	K  bool `json:"k"`
}

//json:json
type N1d struct {
	NB   `json:"nb,omitempty"`
	HArr `json:"ha,omitempty"`
	K    bool `json:"k"`
}

//json:json
type N1e struct {
	NSm       `json:"nsm,omitempty"`
	time.Time `json:"tm,omitempty"`
	K         bool `json:"k"`
}

//json:json
type N1f struct {
	US        `json:"us,omitempty"`
	uuid.UUID `json:"id,omitempty"`
	K         bool `json:"k"`
}

//json:json
type N1g struct {
	UB `json:"ub,omitempty"`
	ES `json:"es,omitempty"`
	K  bool `json:"k"`
}

//json:json
type N1h struct {
	Msl  `json:"ms,omitempty"`
	HByt `json:"hb,omitempty"`
	K    bool `json:"k"`
}

//json:json
type N1i struct {
	Mmp `json:"mm,omitempty"`
	Mp  `json:"mp,omitempty"`
	K   bool `json:"k"`
}

//json:json
type N2a struct {
	NS `json:"ns,required"`
	Sl `json:"sl,required"`
	K  bool `json:"k"`
}

//json:json
type N2b struct {
	NI `json:"ni,required"`
	UM `json:"um,required"`
	K  bool `json:"k"`
}

//json:strict
type N2c struct {
	NF `json:"nf,required"`
	Bs `json:"bs,required"`
	K  bool `json:"k"`
}

//json:json
type N2d struct {
	NB   `json:"nb,required"`
	HArr `json:"ha,required"`
	K    bool `json:"k"`
}

//json:json
type N2e struct {
	NSm       `json:"nsm,required"`
	time.Time `json:"tm,required"`
	K         bool `json:"k"`
}

//json:json
type N2f struct {
	US        `json:"us,required"`
	uuid.UUID `json:"id,required"`
	K         bool `json:"k"`
}

//json:json
type N2g struct {
	UB `json:"ub,required"`
	ES `json:"es,required"`
	K  bool `json:"k"`
}

//json:json
type N2h struct {
	Msl  `json:"ms,required"`
	HByt `json:"hb,required"`
	K    bool `json:"k"`
}

//json:json
type N2i struct {
	Mmp `json:"mm,required"`
	Mp  `json:"mp,required"`
	K   bool `json:"k"`
}

//json:json
type D1 struct {
	NS `json:"ns" default:"x,y"`
	NI `json:"ni,omitempty" default:"-3"`
}

//json:json
type D2 struct {
	NB `json:"nb" default:"true"`
	NF `json:"nf" default:"1.5"`
}

//json:json
type D3 struct {
	time.Time `json:"tm" layout:"2006-01-02"`
}
