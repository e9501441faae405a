package skips

//json:json
type K1 struct {
	A int    `json:"a"`
	B string `json:"-"`
	C bool   `json:"c,omitempty"`
}

//json:strict
type K2 struct {
	A string `json:"-"`
	B int    `json:"b"`
}
