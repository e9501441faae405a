package sbsslp

//json:json
type TSlPtrBool struct {
	F []*bool `json:"f"`
	G []*bool `json:"g,omitempty"`
}

//json:json
type TSlPtrString struct {
	F []*string `json:"f"`
	G []*string `json:"g,omitempty"`
}

//json:json
type TSlSlBool struct {
	F [][]bool `json:"f"`
	G [][]bool `json:"g,omitempty"`
}

//json:json
type TSlSlString struct {
	F [][]string `json:"f"`
	G [][]string `json:"g,omitempty"`
}
