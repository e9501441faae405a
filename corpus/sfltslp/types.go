package sfltslp

//json:json
type TSlPtrFloat32 struct {
	F []*float32 `json:"f"`
	G []*float32 `json:"g,omitempty"`
}

//json:json
type TSlPtrFloat64 struct {
	F []*float64 `json:"f"`
	G []*float64 `json:"g,omitempty"`
}

//json:json
type TSlSlFloat32 struct {
	F [][]float32 `json:"f"`
	G [][]float32 `json:"g,omitempty"`
}

//json:json
type TSlSlFloat64 struct {
	F [][]float64 `json:"f"`
	G [][]float64 `json:"g,omitempty"`
}
