package uuids

import (
	"github.com/google/uuid"
)

//
//vh:aux
//json:json
type Uu uuid.UUID

//json:json
type TUuid struct {
	F uuid.UUID `json:"f"`
	G uuid.UUID `json:"g,omitempty"`
}

//json:json
type TPtrUuid struct {
	F *uuid.UUID `json:"f"`
	G *uuid.UUID `json:"g,omitempty"`
}

//json:json
type TSlUu struct {
	F []Uu `json:"f"`
	G []Uu `json:"g,omitempty"`
}

//json:json
type TAr2Uu struct {
	F [2]Uu `json:"f"`
	G [2]Uu `json:"g,omitempty"`
}

//json:json
type TSlPtrUu struct {
	F []*Uu `json:"f"`
	G []*Uu `json:"g,omitempty"`
}

//json:json
type TSlSlUu struct {
	F [][]Uu `json:"f"`
	G [][]Uu `json:"g,omitempty"`
}
