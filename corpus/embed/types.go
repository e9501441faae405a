package embed

//json:json
type E1 struct {
	Ea
	Eb
	K int `json:"k"`
}

//
//vh:aux
//json:json
type Ea struct {
	A string `json:"a"`
	B int    `json:"b,omitempty"`
}

//
//vh:aux
//json:json
type Eb struct {
	C *string `json:"c"`
	D bool    `json:"d,omitempty"`
}

//json:json
type E2 struct {
	Ea
}

//json:strict
type E3 struct {
	Ea
	K int `json:"k,omitempty"`
}
