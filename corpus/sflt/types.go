package sflt

//json:json
type TFloat32 struct {
	F float32 `json:"f"`
	G float32 `json:"g,omitempty"`
}

//json:json
type TFloat64 struct {
	F float64 `json:"f"`
	G float64 `json:"g,omitempty"`
}
