package impt

import (
	"vjcorp/ext"
)

//json:json
type P1 struct {
	A ext.Item  `json:"a"`
	B *ext.Item `json:"b,omitempty"`
	C ext.Rule  `json:"c,omitempty"`
}

//json:json
type P2 struct {
	A ext.Code  `json:"a"`
	B ext.Level `json:"b,omitempty"`
	E ext.Ratio `json:"e"`
	F ext.Flag  `json:"f,omitempty"`
}

//json:json
type P3 struct {
	A []ext.Item           `json:"a"`
	B map[string]ext.Item  `json:"b,omitempty"`
	C []*ext.Item          `json:"c,omitempty"`
	D map[string]*ext.Item `json:"d"`
}

//json:json
type P4 struct {
	A ext.List `json:"a"`
	B ext.Dict `json:"b,omitempty"`
}

//json:json
type PSlice []ext.Item

//json:json
type PMap map[string]ext.Item

//json:json
type PCodes []ext.Code

//json:json
type PTrans ext.Item

//json:json
type P5 struct {
	ext.Item `json:",inline"`
	Z        int `json:"z"`
}

//json:json
type P6 struct {
	ext.Item `json:"item"`
	Z        int `json:"z,omitempty"`
}

//json:json
type P7 struct {
	ext.Item
	Z int `json:"z,omitempty"`
}
