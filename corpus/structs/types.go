package structs

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NS string

//json:json
type TSt struct {
	F St `json:"f"`
	G St `json:"g,omitempty"`
}

//json:json
type TPtrSt struct {
	F *St `json:"f"`
	G *St `json:"g,omitempty"`
}

//json:json
type TSlSt struct {
	F []St `json:"f"`
	G []St `json:"g,omitempty"`
}

//json:json
type TSlPtrSt struct {
	F []*St `json:"f"`
	G []*St `json:"g,omitempty"`
}

//json:json
type TMapSt struct {
	F map[string]St `json:"f"`
	G map[string]St `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNSt struct {
	F map[string]St `json:"f"`
	G map[string]St `json:"g,omitempty"`
}

//
//vh:as WMapNSt
//json:json
type TMapNSt struct {
	F map[NS]St `json:"f"`
	G map[NS]St `json:"g,omitempty"`
}

//json:json
type TMapPtrSt struct {
	F map[string]*St `json:"f"`
	G map[string]*St `json:"g,omitempty"`
}

//json:json
type TSlSlSt struct {
	F [][]St `json:"f"`
	G [][]St `json:"g,omitempty"`
}
