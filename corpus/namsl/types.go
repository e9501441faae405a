package namsl

type NI int16

type NS string

type NB bool

type NF float32

type NU uint64

type ND float64

type NL int64

//
//vh:aux
//json:json
type WSlNI struct {
	F []int16 `json:"f"`
	G []int16 `json:"g,omitempty"`
}

//
//vh:as WSlNI
//json:json
type TSlNI struct {
	F []NI `json:"f"`
	G []NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNS struct {
	F []string `json:"f"`
	G []string `json:"g,omitempty"`
}

//
//vh:as WSlNS
//json:json
type TSlNS struct {
	F []NS `json:"f"`
	G []NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNB struct {
	F []bool `json:"f"`
	G []bool `json:"g,omitempty"`
}

//
//vh:as WSlNB
//json:json
type TSlNB struct {
	F []NB `json:"f"`
	G []NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNF struct {
	F []float32 `json:"f"`
	G []float32 `json:"g,omitempty"`
}

//
//vh:as WSlNF
//json:json
type TSlNF struct {
	F []NF `json:"f"`
	G []NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNU struct {
	F []uint64 `json:"f"`
	G []uint64 `json:"g,omitempty"`
}

//
//vh:as WSlNU
//json:json
type TSlNU struct {
	F []NU `json:"f"`
	G []NU `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlND struct {
	F []float64 `json:"f"`
	G []float64 `json:"g,omitempty"`
}

//
//vh:as WSlND
//json:json
type TSlND struct {
	F []ND `json:"f"`
	G []ND `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNL struct {
	F []int64 `json:"f"`
	G []int64 `json:"g,omitempty"`
}

//
//vh:as WSlNL
//json:json
type TSlNL struct {
	F []NL `json:"f"`
	G []NL `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NI struct {
	F [2]int16 `json:"f"`
	G [2]int16 `json:"g,omitempty"`
}

//
//vh:as WAr2NI
//json:json
type TAr2NI struct {
	F [2]NI `json:"f"`
	G [2]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NS struct {
	F [2]string `json:"f"`
	G [2]string `json:"g,omitempty"`
}

//
//vh:as WAr2NS
//json:json
type TAr2NS struct {
	F [2]NS `json:"f"`
	G [2]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NB struct {
	F [2]bool `json:"f"`
	G [2]bool `json:"g,omitempty"`
}

//
//vh:as WAr2NB
//json:json
type TAr2NB struct {
	F [2]NB `json:"f"`
	G [2]NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NF struct {
	F [2]float32 `json:"f"`
	G [2]float32 `json:"g,omitempty"`
}

//
//vh:as WAr2NF
//json:json
type TAr2NF struct {
	F [2]NF `json:"f"`
	G [2]NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NU struct {
	F [2]uint64 `json:"f"`
	G [2]uint64 `json:"g,omitempty"`
}

//
//vh:as WAr2NU
//json:json
type TAr2NU struct {
	F [2]NU `json:"f"`
	G [2]NU `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2ND struct {
	F [2]float64 `json:"f"`
	G [2]float64 `json:"g,omitempty"`
}

//
//vh:as WAr2ND
//json:json
type TAr2ND struct {
	F [2]ND `json:"f"`
	G [2]ND `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NL struct {
	F [2]int64 `json:"f"`
	G [2]int64 `json:"g,omitempty"`
}

//
//vh:as WAr2NL
//json:json
type TAr2NL struct {
	F [2]NL `json:"f"`
	G [2]NL `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNI struct {
	F []*int16 `json:"f"`
	G []*int16 `json:"g,omitempty"`
}

//
//vh:as WSlPtrNI
//json:json
type TSlPtrNI struct {
	F []*NI `json:"f"`
	G []*NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNS struct {
	F []*string `json:"f"`
	G []*string `json:"g,omitempty"`
}

//
//vh:as WSlPtrNS
//json:json
type TSlPtrNS struct {
	F []*NS `json:"f"`
	G []*NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNB struct {
	F []*bool `json:"f"`
	G []*bool `json:"g,omitempty"`
}

//
//vh:as WSlPtrNB
//json:json
type TSlPtrNB struct {
	F []*NB `json:"f"`
	G []*NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNF struct {
	F []*float32 `json:"f"`
	G []*float32 `json:"g,omitempty"`
}

//
//vh:as WSlPtrNF
//json:json
type TSlPtrNF struct {
	F []*NF `json:"f"`
	G []*NF `json:"g,omitempty"`
}
