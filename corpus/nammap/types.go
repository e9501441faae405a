package nammap

type NI int16

type NS string

type NB bool

type NF float32

type NU uint64

type ND float64

type NL int64

//
//vh:aux
//json:json
type WMapNI struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WMapNI
//json:json
type TMapNI struct {
	F map[string]NI `json:"f"`
	G map[string]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNS struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WMapNS
//json:json
type TMapNS struct {
	F map[string]NS `json:"f"`
	G map[string]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNB struct {
	F map[string]bool `json:"f"`
	G map[string]bool `json:"g,omitempty"`
}

//
//vh:as WMapNB
//json:json
type TMapNB struct {
	F map[string]NB `json:"f"`
	G map[string]NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNF struct {
	F map[string]float32 `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//
//vh:as WMapNF
//json:json
type TMapNF struct {
	F map[string]NF `json:"f"`
	G map[string]NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNU struct {
	F map[string]uint64 `json:"f"`
	G map[string]uint64 `json:"g,omitempty"`
}

//
//vh:as WMapNU
//json:json
type TMapNU struct {
	F map[string]NU `json:"f"`
	G map[string]NU `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapND struct {
	F map[string]float64 `json:"f"`
	G map[string]float64 `json:"g,omitempty"`
}

//
//vh:as WMapND
//json:json
type TMapND struct {
	F map[string]ND `json:"f"`
	G map[string]ND `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNL struct {
	F map[string]int64 `json:"f"`
	G map[string]int64 `json:"g,omitempty"`
}

//
//vh:as WMapNL
//json:json
type TMapNL struct {
	F map[string]NL `json:"f"`
	G map[string]NL `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNI struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WMapNNI
//json:json
type TMapNNI struct {
	F map[NS]NI `json:"f"`
	G map[NS]NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNS struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WMapNNS
//json:json
type TMapNNS struct {
	F map[NS]NS `json:"f"`
	G map[NS]NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNB struct {
	F map[string]bool `json:"f"`
	G map[string]bool `json:"g,omitempty"`
}

//
//vh:as WMapNNB
//json:json
type TMapNNB struct {
	F map[NS]NB `json:"f"`
	G map[NS]NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNF struct {
	F map[string]float32 `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//
//vh:as WMapNNF
//json:json
type TMapNNF struct {
	F map[NS]NF `json:"f"`
	G map[NS]NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNI struct {
	F map[string]*int16 `json:"f"`
	G map[string]*int16 `json:"g,omitempty"`
}

//
//vh:as WMapPtrNI
//json:json
type TMapPtrNI struct {
	F map[string]*NI `json:"f"`
	G map[string]*NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNS struct {
	F map[string]*string `json:"f"`
	G map[string]*string `json:"g,omitempty"`
}

//
//vh:as WMapPtrNS
//json:json
type TMapPtrNS struct {
	F map[string]*NS `json:"f"`
	G map[string]*NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNB struct {
	F map[string]*bool `json:"f"`
	G map[string]*bool `json:"g,omitempty"`
}

//
//vh:as WMapPtrNB
//json:json
type TMapPtrNB struct {
	F map[string]*NB `json:"f"`
	G map[string]*NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNF struct {
	F map[string]*float32 `json:"f"`
	G map[string]*float32 `json:"g,omitempty"`
}

//
//vh:as WMapPtrNF
//json:json
type TMapPtrNF struct {
	F map[string]*NF `json:"f"`
	G map[string]*NF `json:"g,omitempty"`
}
