package dirs

//json:decode
type DecOnly struct {
	A int     `json:"a"`
	B *string `json:"b,omitempty"`
}

//json:encode
type EncOnly struct {
	A int     `json:"a"`
	B *string `json:"b,omitempty"`
}

//json:encode
type EncInt int64

//json:encode
type EncStr string

//json:strict,decode
type StrictDec struct {
	A int `json:"a"`
}

// json: STRICT
type StrictUp struct {
	A int `json:"a"`
}

//json:optional
type Opt struct {
	A int `json:"a"`
}
