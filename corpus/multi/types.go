package multi

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NS string

//json:json
type M1 struct {
	A string `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C bool   `json:"c"`
	D *int   `json:"d,omitempty"`
}

//json:json
type M2 struct {
	A *string `json:"a"`
	B *int    `json:"b,omitempty"`
	C *St     `json:"c"`
	D string  `json:"d"`
}

//json:json
type M3 struct {
	A []int          `json:"a,omitempty"`
	B map[string]int `json:"b,omitempty"`
	C []byte         `json:"c,omitempty"`
	D time.Time      `json:"d,omitempty"`
	E uuid.UUID      `json:"e,omitempty"`
}

//json:json
type M4 struct {
	A St             `json:"a,omitempty"`
	B *St            `json:"b,omitempty"`
	C []St           `json:"c,omitempty"`
	D map[string]*St `json:"d,omitempty"`
}

//json:json
type M5 struct {
	A float32 `json:"a,omitempty"`
	B float64 `json:"b,omitempty"`
	C uint16  `json:"c,omitempty"`
	D int8    `json:"d,omitempty"`
	E uint64  `json:"e,omitempty"`
}

//json:json
type M6 struct {
	A *time.Time `json:"a,omitempty"`
	B *uuid.UUID `json:"b,omitempty"`
	C *bool      `json:"c,omitempty"`
	D *float64   `json:"d,omitempty"`
	E *uint8     `json:"e,omitempty"`
	F NS         `json:"f,omitempty"`
}

//json:json
type M7 struct {
	A string            `json:"a"`
	B int               `json:"b"`
	C []string          `json:"c"`
	D map[string]string `json:"d"`
	E time.Time         `json:"e"`
	F *float64          `json:"f"`
	G bool              `json:"g"`
	H St                `json:"h"`
}

//json:json
type M8 struct{}

//json:json
type M9 struct {
	A bool `json:"a"`
}

//json:json
type M10 struct {
	A []*St          `json:"a"`
	B [][]int        `json:"b,omitempty"`
	C [2]string      `json:"c,omitempty"`
	D map[NS]float64 `json:"d,omitempty"`
	E string         `json:"e"`
}

//json:json
type Tree struct {
	Name string           `json:"name"`
	Left *Tree            `json:"left,omitempty"`
	Kids []*Tree          `json:"kids,omitempty"`
	Map  map[string]*Tree `json:"map,omitempty"`
}

//json:json
type Deep1 struct {
	D Deep2   `json:"d"`
	L []Deep2 `json:"l,omitempty"`
}

//json:json
type Deep2 struct {
	D *Deep3 `json:"d"`
	S string `json:"s,omitempty"`
}

//json:strict
type Deep3 struct {
	M map[string]Deep4 `json:"m,omitempty"`
	N int32            `json:"n,required"`
}

//json:json
type Deep4 struct {
	V []int8 `json:"v"`
}
