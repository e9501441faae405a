package suintmapp

//json:json
type TMapPtrUint struct {
	F map[string]*uint `json:"f"`
	G map[string]*uint `json:"g,omitempty"`
}

//json:json
type TMapPtrUint8 struct {
	F map[string]*uint8 `json:"f"`
	G map[string]*uint8 `json:"g,omitempty"`
}

//json:json
type TMapPtrUint16 struct {
	F map[string]*uint16 `json:"f"`
	G map[string]*uint16 `json:"g,omitempty"`
}

//json:json
type TMapPtrUint32 struct {
	F map[string]*uint32 `json:"f"`
	G map[string]*uint32 `json:"g,omitempty"`
}

//json:json
type TMapPtrUint64 struct {
	F map[string]*uint64 `json:"f"`
	G map[string]*uint64 `json:"g,omitempty"`
}
