package rarex

import (
	"vjcorp/ext"
)

type NS string

//json:json
type TPtrExtDict struct {
	F *ext.Dict `json:"f"`
	G *ext.Dict `json:"g,omitempty"`
}

//json:json
type TSlExtDict struct {
	F []ext.Dict `json:"f"`
	G []ext.Dict `json:"g,omitempty"`
}

//json:json
type TSlSlExtDict struct {
	F [][]ext.Dict `json:"f"`
	G [][]ext.Dict `json:"g,omitempty"`
}

//json:json
type TSlPtrExtDict struct {
	F []*ext.Dict `json:"f"`
	G []*ext.Dict `json:"g,omitempty"`
}

//json:json
type TSlPtrExtList struct {
	F []*ext.List `json:"f"`
	G []*ext.List `json:"g,omitempty"`
}

//json:json
type TSlSlExtList struct {
	F [][]ext.List `json:"f"`
	G [][]ext.List `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrExtList struct {
	F map[string]*ext.List `json:"f"`
	G map[string]*ext.List `json:"g,omitempty"`
}

//
//vh:as WMapNPtrExtList
//json:json
type TMapNPtrExtList struct {
	F map[NS]*ext.List `json:"f"`
	G map[NS]*ext.List `json:"g,omitempty"`
}

//json:json
type TMapPtrExtDict struct {
	F map[string]*ext.Dict `json:"f"`
	G map[string]*ext.Dict `json:"g,omitempty"`
}

//json:json
type TSlPtrExtRule struct {
	F []*ext.Rule `json:"f"`
	G []*ext.Rule `json:"g,omitempty"`
}

//json:json
type TSlSlExtRule struct {
	F [][]ext.Rule `json:"f"`
	G [][]ext.Rule `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNExtRule struct {
	F map[string]ext.Rule `json:"f"`
	G map[string]ext.Rule `json:"g,omitempty"`
}

//
//vh:as WMapNExtRule
//json:json
type TMapNExtRule struct {
	F map[NS]ext.Rule `json:"f"`
	G map[NS]ext.Rule `json:"g,omitempty"`
}

//json:json
type TMapPtrExtRule struct {
	F map[string]*ext.Rule `json:"f"`
	G map[string]*ext.Rule `json:"g,omitempty"`
}

//json:json
type TSlSlPtrExtItem struct {
	F [][]*ext.Item `json:"f"`
	G [][]*ext.Item `json:"g,omitempty"`
}

//json:json
type TSlSlPtrExtRule struct {
	F [][]*ext.Rule `json:"f"`
	G [][]*ext.Rule `json:"g,omitempty"`
}
