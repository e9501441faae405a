package nam

type NI int16

type NS string

type NB bool

type NF float32

type NU uint64

type ND float64

type NL int64

//
//vh:aux
//json:json
type WNI struct {
	F int16 `json:"f"`
	G int16 `json:"g,omitempty"`
}

//
//vh:as WNI
//json:json
type TNI struct {
	F NI `json:"f"`
	G NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNS struct {
	F string `json:"f"`
	G string `json:"g,omitempty"`
}

//
//vh:as WNS
//json:json
type TNS struct {
	F NS `json:"f"`
	G NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNB struct {
	F bool `json:"f"`
	G bool `json:"g,omitempty"`
}

//
//vh:as WNB
//json:json
type TNB struct {
	F NB `json:"f"`
	G NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNF struct {
	F float32 `json:"f"`
	G float32 `json:"g,omitempty"`
}

//
//vh:as WNF
//json:json
type TNF struct {
	F NF `json:"f"`
	G NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNU struct {
	F uint64 `json:"f"`
	G uint64 `json:"g,omitempty"`
}

//
//vh:as WNU
//json:json
type TNU struct {
	F NU `json:"f"`
	G NU `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WND struct {
	F float64 `json:"f"`
	G float64 `json:"g,omitempty"`
}

//
//vh:as WND
//json:json
type TND struct {
	F ND `json:"f"`
	G ND `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNL struct {
	F int64 `json:"f"`
	G int64 `json:"g,omitempty"`
}

//
//vh:as WNL
//json:json
type TNL struct {
	F NL `json:"f"`
	G NL `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNI struct {
	F *int16 `json:"f"`
	G *int16 `json:"g,omitempty"`
}

//
//vh:as WPtrNI
//json:json
type TPtrNI struct {
	F *NI `json:"f"`
	G *NI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNS struct {
	F *string `json:"f"`
	G *string `json:"g,omitempty"`
}

//
//vh:as WPtrNS
//json:json
type TPtrNS struct {
	F *NS `json:"f"`
	G *NS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNB struct {
	F *bool `json:"f"`
	G *bool `json:"g,omitempty"`
}

//
//vh:as WPtrNB
//json:json
type TPtrNB struct {
	F *NB `json:"f"`
	G *NB `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNF struct {
	F *float32 `json:"f"`
	G *float32 `json:"g,omitempty"`
}

//
//vh:as WPtrNF
//json:json
type TPtrNF struct {
	F *NF `json:"f"`
	G *NF `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNU struct {
	F *uint64 `json:"f"`
	G *uint64 `json:"g,omitempty"`
}

//
//vh:as WPtrNU
//json:json
type TPtrNU struct {
	F *NU `json:"f"`
	G *NU `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrND struct {
	F *float64 `json:"f"`
	G *float64 `json:"g,omitempty"`
}

//
//vh:as WPtrND
//json:json
type TPtrND struct {
	F *ND `json:"f"`
	G *ND `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNL struct {
	F *int64 `json:"f"`
	G *int64 `json:"g,omitempty"`
}

//
//vh:as WPtrNL
//json:json
type TPtrNL struct {
	F *NL `json:"f"`
	G *NL `json:"g,omitempty"`
}
