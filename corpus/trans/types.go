package trans

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NS string

//
//vh:aux
//json:json
type Tr St

//
//vh:aux
//json:json
type WSlTr struct {
	F []St `json:"f"`
	G []St `json:"g,omitempty"`
}

//
//vh:as WSlTr
//json:json
type TSlTr struct {
	F []Tr `json:"f"`
	G []Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrTr struct {
	F []*St `json:"f"`
	G []*St `json:"g,omitempty"`
}

//
//vh:as WSlPtrTr
//json:json
type TSlPtrTr struct {
	F []*Tr `json:"f"`
	G []*Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapTr struct {
	F map[string]St `json:"f"`
	G map[string]St `json:"g,omitempty"`
}

//
//vh:as WMapTr
//json:json
type TMapTr struct {
	F map[string]Tr `json:"f"`
	G map[string]Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNTr struct {
	F map[string]St `json:"f"`
	G map[string]St `json:"g,omitempty"`
}

//
//vh:as WMapNTr
//json:json
type TMapNTr struct {
	F map[NS]Tr `json:"f"`
	G map[NS]Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrTr struct {
	F map[string]*St `json:"f"`
	G map[string]*St `json:"g,omitempty"`
}

//
//vh:as WMapPtrTr
//json:json
type TMapPtrTr struct {
	F map[string]*Tr `json:"f"`
	G map[string]*Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlTr struct {
	F [][]St `json:"f"`
	G [][]St `json:"g,omitempty"`
}

//
//vh:as WSlSlTr
//json:json
type TSlSlTr struct {
	F [][]Tr `json:"f"`
	G [][]Tr `json:"g,omitempty"`
}
