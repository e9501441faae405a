package exta

type Test string

type Num uint8

//
//vh:aux
//json:json
type Rec struct {
	A string `json:"a"`
}
