package refs

type RefI *int32

type RefS *string

//
//vh:aux
//json:json
type WRefI struct {
	F *int32 `json:"f"`
	G *int32 `json:"g,omitempty"`
}

//
//vh:as WRefI
//json:json
type TRefI struct {
	F RefI `json:"f"`
	G RefI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrRefI struct {
	F **int32 `json:"f"`
	G **int32 `json:"g,omitempty"`
}

//
//vh:as WPtrRefI
//json:json
type TPtrRefI struct {
	F *RefI `json:"f"`
	G *RefI `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WRefS struct {
	F *string `json:"f"`
	G *string `json:"g,omitempty"`
}

//
//vh:as WRefS
//json:json
type TRefS struct {
	F RefS `json:"f"`
	G RefS `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrRefS struct {
	F **string `json:"f"`
	G **string `json:"g,omitempty"`
}

//
//vh:as WPtrRefS
//json:json
type TPtrRefS struct {
	F *RefS `json:"f"`
	G *RefS `json:"g,omitempty"`
}

//json:json
type TPtrAr2Int struct {
	F *[2]int `json:"f"`
	G *[2]int `json:"g,omitempty"`
}

//json:json
type TAr0Int struct {
	F [0]int `json:"f"`
	G [0]int `json:"g,omitempty"`
}

//json:json
type TPtrPtrInt struct {
	F **int `json:"f"`
	G **int `json:"g,omitempty"`
}
