package colls

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//
//vh:aux
//json:json
type WSl struct {
	F []int `json:"f"`
	G []int `json:"g,omitempty"`
}

//
//vh:as WSl
//json:json
type TSl struct {
	F Sl `json:"f"`
	G Sl `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSl struct {
	F [][]int `json:"f"`
	G [][]int `json:"g,omitempty"`
}

//
//vh:as WSlSl
//json:json
type TSlSl struct {
	F []Sl `json:"f"`
	G []Sl `json:"g,omitempty"`
}

//json:json
type TAr2Sl struct {
	F [2]Sl `json:"f"`
	G [2]Sl `json:"g,omitempty"`
}

//json:json
type TSlSlSl struct {
	F [][]Sl `json:"f"`
	G [][]Sl `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMp struct {
	F map[string]int `json:"f"`
	G map[string]int `json:"g,omitempty"`
}

//
//vh:as WMp
//json:json
type TMp struct {
	F Mp `json:"f"`
	G Mp `json:"g,omitempty"`
}

//json:json
type TSlSlMp struct {
	F [][]Mp `json:"f"`
	G [][]Mp `json:"g,omitempty"`
}
