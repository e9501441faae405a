package bytes

//
//vh:aux
//json:json
type Bs []byte

//json:json
type TSlByte struct {
	F []byte `json:"f"`
	G []byte `json:"g,omitempty"`
}

//json:json
type TAr2Byte struct {
	F [2]byte `json:"f"`
	G [2]byte `json:"g,omitempty"`
}

//json:json
type TAr4Byte struct {
	F [4]byte `json:"f"`
	G [4]byte `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WBs struct {
	F []byte `json:"f"`
	G []byte `json:"g,omitempty"`
}

//
//vh:as WBs
//json:json
type TBs struct {
	F Bs `json:"f"`
	G Bs `json:"g,omitempty"`
}

//json:json
type TSlPtrBs struct {
	F []*Bs `json:"f"`
	G []*Bs `json:"g,omitempty"`
}

//json:json
type TSlSlBs struct {
	F [][]Bs `json:"f"`
	G [][]Bs `json:"g,omitempty"`
}
