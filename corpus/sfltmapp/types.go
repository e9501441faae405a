package sfltmapp

//json:json
type TMapPtrFloat32 struct {
	F map[string]*float32 `json:"f"`
	G map[string]*float32 `json:"g,omitempty"`
}

//json:json
type TMapPtrFloat64 struct {
	F map[string]*float64 `json:"f"`
	G map[string]*float64 `json:"g,omitempty"`
}
