package sfltptr

//json:json
type TPtrFloat32 struct {
	F *float32 `json:"f"`
	G *float32 `json:"g,omitempty"`
}

//json:json
type TPtrFloat64 struct {
	F *float64 `json:"f"`
	G *float64 `json:"g,omitempty"`
}
