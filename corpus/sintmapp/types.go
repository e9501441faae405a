package sintmapp

//json:json
type TMapPtrInt struct {
	F map[string]*int `json:"f"`
	G map[string]*int `json:"g,omitempty"`
}

//json:json
type TMapPtrInt8 struct {
	F map[string]*int8 `json:"f"`
	G map[string]*int8 `json:"g,omitempty"`
}

//json:json
type TMapPtrInt16 struct {
	F map[string]*int16 `json:"f"`
	G map[string]*int16 `json:"g,omitempty"`
}

//json:json
type TMapPtrInt32 struct {
	F map[string]*int32 `json:"f"`
	G map[string]*int32 `json:"g,omitempty"`
}

//json:json
type TMapPtrInt64 struct {
	F map[string]*int64 `json:"f"`
	G map[string]*int64 `json:"g,omitempty"`
}
