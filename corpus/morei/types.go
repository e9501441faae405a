package morei

import (
	"vjcorp/ext"
)

//json:json
type TSlSlExtItem struct {
	F [][]ext.Item `json:"f"`
	G [][]ext.Item `json:"g,omitempty"`
}

//json:json
type TExtList struct {
	F ext.List `json:"f"`
	G ext.List `json:"g,omitempty"`
}

//json:json
type TPtrExtList struct {
	F *ext.List `json:"f"`
	G *ext.List `json:"g,omitempty"`
}

//json:json
type TSlExtList struct {
	F []ext.List `json:"f"`
	G []ext.List `json:"g,omitempty"`
}

//json:json
type TMapExtDict struct {
	F map[string]ext.Dict `json:"f"`
	G map[string]ext.Dict `json:"g,omitempty"`
}

//json:json
type TMapCInt struct {
	F map[ext.Code]int `json:"f"`
	G map[ext.Code]int `json:"g,omitempty"`
}

//json:json
type TMapCExtItem struct {
	F map[ext.Code]ext.Item `json:"f"`
	G map[ext.Code]ext.Item `json:"g,omitempty"`
}

//json:json
type TMapCPtrExtItem struct {
	F map[ext.Code]*ext.Item `json:"f"`
	G map[ext.Code]*ext.Item `json:"g,omitempty"`
}

//json:json
type TSlExtRule struct {
	F []ext.Rule `json:"f"`
	G []ext.Rule `json:"g,omitempty"`
}

//json:json
type TPtrExtRule struct {
	F *ext.Rule `json:"f"`
	G *ext.Rule `json:"g,omitempty"`
}

//json:json
type TMapExtList struct {
	F map[string]ext.List `json:"f"`
	G map[string]ext.List `json:"g,omitempty"`
}
