package sintptr

//json:json
type TPtrInt struct {
	F *int `json:"f"`
	G *int `json:"g,omitempty"`
}

//json:json
type TPtrInt8 struct {
	F *int8 `json:"f"`
	G *int8 `json:"g,omitempty"`
}

//json:json
type TPtrInt16 struct {
	F *int16 `json:"f"`
	G *int16 `json:"g,omitempty"`
}

//json:json
type TPtrInt32 struct {
	F *int32 `json:"f"`
	G *int32 `json:"g,omitempty"`
}

//json:json
type TPtrInt64 struct {
	F *int64 `json:"f"`
	G *int64 `json:"g,omitempty"`
}
