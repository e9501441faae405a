package sintslp

//json:json
type TSlPtrInt struct {
	F []*int `json:"f"`
	G []*int `json:"g,omitempty"`
}

//json:json
type TSlPtrInt8 struct {
	F []*int8 `json:"f"`
	G []*int8 `json:"g,omitempty"`
}

//json:json
type TSlPtrInt16 struct {
	F []*int16 `json:"f"`
	G []*int16 `json:"g,omitempty"`
}

//json:json
type TSlPtrInt32 struct {
	F []*int32 `json:"f"`
	G []*int32 `json:"g,omitempty"`
}

//json:json
type TSlPtrInt64 struct {
	F []*int64 `json:"f"`
	G []*int64 `json:"g,omitempty"`
}

//json:json
type TSlSlInt struct {
	F [][]int `json:"f"`
	G [][]int `json:"g,omitempty"`
}

//json:json
type TSlSlInt8 struct {
	F [][]int8 `json:"f"`
	G [][]int8 `json:"g,omitempty"`
}

//json:json
type TSlSlInt16 struct {
	F [][]int16 `json:"f"`
	G [][]int16 `json:"g,omitempty"`
}

//json:json
type TSlSlInt32 struct {
	F [][]int32 `json:"f"`
	G [][]int32 `json:"g,omitempty"`
}

//json:json
type TSlSlInt64 struct {
	F [][]int64 `json:"f"`
	G [][]int64 `json:"g,omitempty"`
}
