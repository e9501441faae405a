package sbssl

//json:json
type TSlBool struct {
	F []bool `json:"f"`
	G []bool `json:"g,omitempty"`
}

//json:json
type TSlString struct {
	F []string `json:"f"`
	G []string `json:"g,omitempty"`
}

//json:json
type TAr2Bool struct {
	F [2]bool `json:"f"`
	G [2]bool `json:"g,omitempty"`
}

//json:json
type TAr2String struct {
	F [2]string `json:"f"`
	G [2]string `json:"g,omitempty"`
}
