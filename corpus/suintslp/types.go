package suintslp

//json:json
type TSlPtrUint struct {
	F []*uint `json:"f"`
	G []*uint `json:"g,omitempty"`
}

//json:json
type TSlPtrUint8 struct {
	F []*uint8 `json:"f"`
	G []*uint8 `json:"g,omitempty"`
}

//json:json
type TSlPtrUint16 struct {
	F []*uint16 `json:"f"`
	G []*uint16 `json:"g,omitempty"`
}

//json:json
type TSlPtrUint32 struct {
	F []*uint32 `json:"f"`
	G []*uint32 `json:"g,omitempty"`
}

//json:json
type TSlPtrUint64 struct {
	F []*uint64 `json:"f"`
	G []*uint64 `json:"g,omitempty"`
}

//json:json
type TSlSlUint struct {
	F [][]uint `json:"f"`
	G [][]uint `json:"g,omitempty"`
}

//json:json
type TSlSlUint8 struct {
	F [][]uint8 `json:"f"`
	G [][]uint8 `json:"g,omitempty"`
}

//json:json
type TSlSlUint16 struct {
	F [][]uint16 `json:"f"`
	G [][]uint16 `json:"g,omitempty"`
}

//json:json
type TSlSlUint32 struct {
	F [][]uint32 `json:"f"`
	G [][]uint32 `json:"g,omitempty"`
}

//json:json
type TSlSlUint64 struct {
	F [][]uint64 `json:"f"`
	G [][]uint64 `json:"g,omitempty"`
}
