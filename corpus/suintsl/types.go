package suintsl

//json:json
type TSlUint struct {
	F []uint `json:"f"`
	G []uint `json:"g,omitempty"`
}

//json:json
type TSlUint8 struct {
	F []uint8 `json:"f"`
	G []uint8 `json:"g,omitempty"`
}

//json:json
type TSlUint16 struct {
	F []uint16 `json:"f"`
	G []uint16 `json:"g,omitempty"`
}

//json:json
type TSlUint32 struct {
	F []uint32 `json:"f"`
	G []uint32 `json:"g,omitempty"`
}

//json:json
type TSlUint64 struct {
	F []uint64 `json:"f"`
	G []uint64 `json:"g,omitempty"`
}

//json:json
type TAr2Uint struct {
	F [2]uint `json:"f"`
	G [2]uint `json:"g,omitempty"`
}

//json:json
type TAr2Uint8 struct {
	F [2]uint8 `json:"f"`
	G [2]uint8 `json:"g,omitempty"`
}

//json:json
type TAr2Uint16 struct {
	F [2]uint16 `json:"f"`
	G [2]uint16 `json:"g,omitempty"`
}

//json:json
type TAr2Uint32 struct {
	F [2]uint32 `json:"f"`
	G [2]uint32 `json:"g,omitempty"`
}

//json:json
type TAr2Uint64 struct {
	F [2]uint64 `json:"f"`
	G [2]uint64 `json:"g,omitempty"`
}
