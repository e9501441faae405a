package ext

import (
	"time"
)

//
//vh:aux
//json:json
type Item struct {
	ID    int64  `json:"id"`
	Title string `json:"title,omitempty"`
}

//
//vh:aux
//json:strict
type Rule struct {
	On   bool      `json:"on"`
	When time.Time `json:"when"`
	Code Code      `json:"code,omitempty"`
}

type Code string
type Level int32
type Ratio float32
type Flag bool

//
//vh:aux
//json:json
type List []string

//
//vh:aux
//json:json
type Dict map[string]int
