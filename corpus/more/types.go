package more

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

type UB []byte

type US []int

type UM map[string]int

//
//vh:aux
//json:json
type WUB struct {
	F []byte `json:"f"`
	G []byte `json:"g,omitempty"`
}

//
//vh:as WUB
//json:json
type TUB struct {
	F UB `json:"f"`
	G UB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WUS struct {
	F []int `json:"f"`
	G []int `json:"g,omitempty"`
}

//
//vh:as WUS
//json:json
type TUS struct {
	F US `json:"f"`
	G US `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WUM struct {
	F map[string]int `json:"f"`
	G map[string]int `json:"g,omitempty"`
}

//
//vh:as WUM
//json:json
type TUM struct {
	F UM `json:"f"`
	G UM `json:"g,omitempty"`
}

//json:json
type TSlSlPtrInt struct {
	F [][]*int `json:"f"`
	G [][]*int `json:"g,omitempty"`
}

//json:json
type TSlSlPtrSt struct {
	F [][]*St `json:"f"`
	G [][]*St `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrInt struct {
	F map[string]*int `json:"f"`
	G map[string]*int `json:"g,omitempty"`
}

//
//vh:as WMapNPtrInt
//json:json
type TMapNPtrInt struct {
	F map[NS]*int `json:"f"`
	G map[NS]*int `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrNI struct {
	F map[string]*int16 `json:"f"`
	G map[string]*int16 `json:"g,omitempty"`
}

//
//vh:as WMapNPtrNI
//json:json
type TMapNPtrNI struct {
	F map[NS]*NI `json:"f"`
	G map[NS]*NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNS struct {
	F map[string]*string `json:"f"`
	G map[string]*string `json:"g,omitempty"`
}

//
//vh:as WMapPtrNS
//json:json
type TMapPtrNS struct {
	F map[string]*NS `json:"f"`
	G map[string]*NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrAr3NS struct {
	F *[3]string `json:"f"`
	G *[3]string `json:"g,omitempty"`
}

//
//vh:as WPtrAr3NS
//json:json
type TPtrAr3NS struct {
	F *[3]NS `json:"f"`
	G *[3]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlPtrNI struct {
	F [][]*int16 `json:"f"`
	G [][]*int16 `json:"g,omitempty"`
}

//
//vh:as WSlSlPtrNI
//json:json
type TSlSlPtrNI struct {
	F [][]*NI `json:"f"`
	G [][]*NI `json:"g,omitempty"`
}

//json:json
type TSlSlPtrBool struct {
	F [][]*bool `json:"f"`
	G [][]*bool `json:"g,omitempty"`
}

//json:json
type TSlSlPtrString struct {
	F [][]*string `json:"f"`
	G [][]*string `json:"g,omitempty"`
}

//json:json
type TSlSlFloat64 struct {
	F [][]float64 `json:"f"`
	G [][]float64 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrBool struct {
	F map[string]*bool `json:"f"`
	G map[string]*bool `json:"g,omitempty"`
}

//
//vh:as WMapNPtrBool
//json:json
type TMapNPtrBool struct {
	F map[NS]*bool `json:"f"`
	G map[NS]*bool `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNPtrString struct {
	F map[string]*string `json:"f"`
	G map[string]*string `json:"g,omitempty"`
}

//
//vh:as WMapNPtrString
//json:json
type TMapNPtrString struct {
	F map[NS]*string `json:"f"`
	G map[NS]*string `json:"g,omitempty"`
}
