package suint

//json:json
type TUint struct {
	F uint `json:"f"`
	G uint `json:"g,omitempty"`
}

//json:json
type TUint8 struct {
	F uint8 `json:"f"`
	G uint8 `json:"g,omitempty"`
}

//json:json
type TUint16 struct {
	F uint16 `json:"f"`
	G uint16 `json:"g,omitempty"`
}

//json:json
type TUint32 struct {
	F uint32 `json:"f"`
	G uint32 `json:"g,omitempty"`
}

//json:json
type TUint64 struct {
	F uint64 `json:"f"`
	G uint64 `json:"g,omitempty"`
}
