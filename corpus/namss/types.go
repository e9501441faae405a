package namss

type NI int16

type NS string

type NB bool

type NF float32

//
//vh:aux
//json:json
type WSlSlNI struct {
	F [][]int16 `json:"f"`
	G [][]int16 `json:"g,omitempty"`
}

//
//vh:as WSlSlNI
//json:json
type TSlSlNI struct {
	F [][]NI `json:"f"`
	G [][]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlNS struct {
	F [][]string `json:"f"`
	G [][]string `json:"g,omitempty"`
}

//
//vh:as WSlSlNS
//json:json
type TSlSlNS struct {
	F [][]NS `json:"f"`
	G [][]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlNB struct {
	F [][]bool `json:"f"`
	G [][]bool `json:"g,omitempty"`
}

//
//vh:as WSlSlNB
//json:json
type TSlSlNB struct {
	F [][]NB `json:"f"`
	G [][]NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlNF struct {
	F [][]float32 `json:"f"`
	G [][]float32 `json:"g,omitempty"`
}

//
//vh:as WSlSlNF
//json:json
type TSlSlNF struct {
	F [][]NF `json:"f"`
	G [][]NF `json:"g,omitempty"`
}
