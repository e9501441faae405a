package sbsptr

//json:json
type TPtrBool struct {
	F *bool `json:"f"`
	G *bool `json:"g,omitempty"`
}

//json:json
type TPtrString struct {
	F *string `json:"f"`
	G *string `json:"g,omitempty"`
}
