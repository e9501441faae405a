package textsu

import (
	"time"
)

//json:json
type UL0 struct {
	F time.Time `json:"f" layout:"2006\"01\"02"`
}

//json:json
type UL1 struct {
	F time.Time `json:"f" layout:"2006\\01\\02"`
}

//json:json
type UL2 struct {
	F time.Time `json:"f" layout:"2006\x0a01\x0902"`
}
