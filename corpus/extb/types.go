package extb

type Test int64

type Num float64

//
//vh:aux
//json:json
type Rec struct {
	B int16 `json:"b"`
}
