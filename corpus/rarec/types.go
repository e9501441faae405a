package rarec

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NS string

type NF float32

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Tr St

//
//vh:aux
//json:strict
type ES struct{}

//
//vh:aux
//json:json
type Msl []St

//
//vh:aux
//json:json
type Mmp map[string]*St

//json:json
type TMsl struct {
	F Msl `json:"f"`
	G Msl `json:"g,omitempty"`
}

//json:json
type TSlMsl struct {
	F []Msl `json:"f"`
	G []Msl `json:"g,omitempty"`
}

//json:json
type TAr2Msl struct {
	F [2]Msl `json:"f"`
	G [2]Msl `json:"g,omitempty"`
}

//json:json
type TSlSlMsl struct {
	F [][]Msl `json:"f"`
	G [][]Msl `json:"g,omitempty"`
}

//json:json
type TMmp struct {
	F Mmp `json:"f"`
	G Mmp `json:"g,omitempty"`
}

//json:json
type TSlSlMmp struct {
	F [][]Mmp `json:"f"`
	G [][]Mmp `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlPtrTr struct {
	F [][]*St `json:"f"`
	G [][]*St `json:"g,omitempty"`
}

//
//vh:as WSlSlPtrTr
//json:json
type TSlSlPtrTr struct {
	F [][]*Tr `json:"f"`
	G [][]*Tr `json:"g,omitempty"`
}

//json:json
type TSlSlES struct {
	F [][]ES `json:"f"`
	G [][]ES `json:"g,omitempty"`
}

//json:json
type TSlSlPtrES struct {
	F [][]*ES `json:"f"`
	G [][]*ES `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrES struct {
	F map[string]*ES `json:"f"`
	G map[string]*ES `json:"g,omitempty"`
}

//
//vh:as WMapNPtrES
//json:json
type TMapNPtrES struct {
	F map[NS]*ES `json:"f"`
	G map[NS]*ES `json:"g,omitempty"`
}

//json:json
type TSlPtrES struct {
	F []*ES `json:"f"`
	G []*ES `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrTr struct {
	F map[string]*St `json:"f"`
	G map[string]*St `json:"g,omitempty"`
}

//
//vh:as WMapNPtrTr
//json:json
type TMapNPtrTr struct {
	F map[NS]*Tr `json:"f"`
	G map[NS]*Tr `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNIm struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WMapNNIm
//json:json
type TMapNNIm struct {
	F map[NS]NIm `json:"f"`
	G map[NS]NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrNIm struct {
	F map[string]*int16 `json:"f"`
	G map[string]*int16 `json:"g,omitempty"`
}

//
//vh:as WMapNPtrNIm
//json:json
type TMapNPtrNIm struct {
	F map[NS]*NIm `json:"f"`
	G map[NS]*NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNF struct {
	F map[string]float32 `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//
//vh:as WMapNNF
//json:json
type TMapNNF struct {
	F map[NS]NF `json:"f"`
	G map[NS]NF `json:"g,omitempty"`
}
