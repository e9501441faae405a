package aliased

import (
	ext "vjcorp/exta"
	exta "vjcorp/extb"
)

//json:json
type A1 struct {
	F ext.Test  `json:"f"`
	G exta.Test `json:"g"`
	H ext.Num   `json:"h"`
	I exta.Num  `json:"i,omitempty"`
}

//json:json
type A2 struct {
	F ext.Rec  `json:"f"`
	G exta.Rec `json:"g"`
}
