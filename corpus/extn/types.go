package extn

//
//vh:aux
//json:json
type Low struct {
	Q int8   `json:"q"`
	R string `json:"r,omitempty"`
}

//
//vh:aux
//json:json
type Mid struct {
	Low `json:",inline"`
	M   int `json:"m,omitempty"`
}

//
//vh:aux
//json:json
type Top struct {
	Mid `json:",inline"`
	T   bool     `json:"t"`
	Lo  Low      `json:"lo,omitempty"`
	Lv  Lvl      `json:"lv" default:"7"`
	Ls  Lst      `json:"ls,omitempty"`
	S   []string `json:"s"`
	P   *int8    `json:"p,required"`
}

//
//vh:aux
//json:json
type Emb struct {
	Low
	B string `json:"b"`
}

//
//vh:aux
//json:json
type Mem struct {
	Low `json:"low"`
	B   string `json:"b,omitempty"`
}

//
//vh:aux
//json:json
type Own struct {
	Own string `json:"own"`
	Oth int    `json:"oth,omitempty"`
}

type Lvl int16

//
//vh:aux
//json:json
type Lst []int
