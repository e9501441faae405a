package sbs

//json:json
type TBool struct {
	F bool `json:"f"`
	G bool `json:"g,omitempty"`
}

//json:json
type TString struct {
	F string `json:"f"`
	G string `json:"g,omitempty"`
}
