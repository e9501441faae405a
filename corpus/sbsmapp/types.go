package sbsmapp

//json:json
type TMapPtrBool struct {
	F map[string]*bool `json:"f"`
	G map[string]*bool `json:"g,omitempty"`
}

//json:json
type TMapPtrString struct {
	F map[string]*string `json:"f"`
	G map[string]*string `json:"g,omitempty"`
}
