package rarea

type US []int

//
//vh:aux
//json:json
type HArr [2]int32

//
//vh:aux
//json:json
type HByt [4]byte

//json:json
type TPtrHArr struct {
	F *HArr `json:"f"`
	G *HArr `json:"g,omitempty"`
}

//json:json
type TSlHArr struct {
	F []HArr `json:"f"`
	G []HArr `json:"g,omitempty"`
}

//json:json
type TAr2HArr struct {
	F [2]HArr `json:"f"`
	G [2]HArr `json:"g,omitempty"`
}

//json:json
type TPtrAr2HArr struct {
	F *[2]HArr `json:"f"`
	G *[2]HArr `json:"g,omitempty"`
}

//json:json
type TSlPtrHArr struct {
	F []*HArr `json:"f"`
	G []*HArr `json:"g,omitempty"`
}

//json:json
type TSlSlHArr struct {
	F [][]HArr `json:"f"`
	G [][]HArr `json:"g,omitempty"`
}

//json:json
type TSlSlPtrHArr struct {
	F [][]*HArr `json:"f"`
	G [][]*HArr `json:"g,omitempty"`
}

//json:json
type TSlPtrHByt struct {
	F []*HByt `json:"f"`
	G []*HByt `json:"g,omitempty"`
}

//json:json
type TSlSlHByt struct {
	F [][]HByt `json:"f"`
	G [][]HByt `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlUS struct {
	F [][]int `json:"f"`
	G [][]int `json:"g,omitempty"`
}

//
//vh:as WSlUS
//json:json
type TSlUS struct {
	F []US `json:"f"`
	G []US `json:"g,omitempty"`
}

//json:json
type TAr2US struct {
	F [2]US `json:"f"`
	G [2]US `json:"g,omitempty"`
}
