package inline

//json:json
type I1 struct {
	A   int `json:"a"`
	Inn `json:",inline"`
	Z   string `json:"z,omitempty"`
}

//
//vh:aux
//json:json
type Inn struct {
	X string `json:"x"`
	Y *int   `json:"y,omitempty"`
}

//json:strict
type I2 struct {
	Inn  `json:",inline"`
	Inn2 `json:",inline"`
}

type Inn2 struct {
	P    []string `json:"p"`
	Q    float64  `json:"q,omitempty"`
	Inn3 `json:",inline"`
}

type Inn3 struct {
	R int8 `json:"r,omitempty"`
	S int8 `json:"s" default:"5"`
	T bool `json:"t,required"`
}

//json:json
type I3 struct {
	Inn   `json:"inn"`
	Inn2a `json:"inn2,omitempty"`
	K     int `json:"k"`
}

//
//vh:aux
//json:json
type Inn2a struct {
	U uint8 `json:"u"`
}

//json:json
type I4 struct {
	Inn `json:",inline"`
}

//json:json
type I5 struct {
	L    Same `json:"l"`
	Same `json:",inline"`
}

//
//vh:aux
//json:json
type Same struct {
	Same int `json:"same"`
	Oth  int `json:"oth,omitempty"`
}

//json:json
type I6 struct {
	Inn `json:"inn,required"`
	Om2 `json:"om"`
}

//
//vh:aux
//json:json
type Om2 struct {
	A string `json:"a,omitempty"`
	B string `json:"b,omitempty"`
}

//json:json
type I7 struct {
	Om2 `json:",inline"`
	C   string `json:"c,omitempty"`
}

//json:json
type I8 struct {
	C   string `json:"c,omitempty"`
	Om2 `json:",inline"`
	D   string `json:"d"`
}
