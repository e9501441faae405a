package times

import (
	"time"
)

//
//vh:aux
//json:json
type Tm time.Time

//json:json
type TTime struct {
	F time.Time `json:"f"`
	G time.Time `json:"g,omitempty"`
}

//json:json
type TPtrTime struct {
	F *time.Time `json:"f"`
	G *time.Time `json:"g,omitempty"`
}

//json:json
type TSlTime struct {
	F []time.Time `json:"f"`
	G []time.Time `json:"g,omitempty"`
}

//json:json
type TAr2Time struct {
	F [2]time.Time `json:"f"`
	G [2]time.Time `json:"g,omitempty"`
}

//json:json
type TSlSlTime struct {
	F [][]time.Time `json:"f"`
	G [][]time.Time `json:"g,omitempty"`
}

//json:json
type TSlPtrTm struct {
	F []*Tm `json:"f"`
	G []*Tm `json:"g,omitempty"`
}

//json:json
type TSlSlTm struct {
	F [][]Tm `json:"f"`
	G [][]Tm `json:"g,omitempty"`
}
