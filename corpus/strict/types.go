package strict

//
//vh:aux
//json:strict
type Stt struct {
	X int8    `json:"x"`
	Y *string `json:"y,omitempty"`
	Z []int   `json:"z,omitempty"`
}

//json:strict
type TStt struct {
	F Stt `json:"f"`
	G Stt `json:"g,omitempty"`
}

//json:strict
type TPtrStt struct {
	F *Stt `json:"f"`
	G *Stt `json:"g,omitempty"`
}

//json:strict
type TSlStt struct {
	F []Stt `json:"f"`
	G []Stt `json:"g,omitempty"`
}

//json:strict
type TMapStt struct {
	F map[string]Stt `json:"f"`
	G map[string]Stt `json:"g,omitempty"`
}
