package topfld

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Bs []byte

//json:json
type HMap map[string]int16

//json:json
type HSlice []string

//json:json
type HArr [2]int32

//json:json
type HByt [4]byte

//json:json
type Holder struct {
	A HMap   `json:"a"`
	B HSlice `json:"b"`
	C HArr   `json:"c"`
	D HByt   `json:"d"`
	E Bs     `json:"e"`
	F Sl     `json:"f"`
}

//json:json
type HolderOm struct {
	A HMap   `json:"a,omitempty"`
	B HSlice `json:"b,omitempty"`
	C HArr   `json:"c,omitempty"`
	D HByt   `json:"d,omitempty"`
	E Bs     `json:"e,omitempty"`
	F Sl     `json:"f,omitempty"`
	Z int    `json:"z"`
}
