package sfltsl

//json:json
type TSlFloat32 struct {
	F []float32 `json:"f"`
	G []float32 `json:"g,omitempty"`
}

//json:json
type TSlFloat64 struct {
	F []float64 `json:"f"`
	G []float64 `json:"g,omitempty"`
}

//json:json
type TAr2Float32 struct {
	F [2]float32 `json:"f"`
	G [2]float32 `json:"g,omitempty"`
}

//json:json
type TAr2Float64 struct {
	F [2]float64 `json:"f"`
	G [2]float64 `json:"g,omitempty"`
}
