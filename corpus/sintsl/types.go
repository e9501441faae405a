package sintsl

//json:json
type TSlInt struct {
	F []int `json:"f"`
	G []int `json:"g,omitempty"`
}

//json:json
type TSlInt8 struct {
	F []int8 `json:"f"`
	G []int8 `json:"g,omitempty"`
}

//json:json
type TSlInt16 struct {
	F []int16 `json:"f"`
	G []int16 `json:"g,omitempty"`
}

//json:json
type TSlInt32 struct {
	F []int32 `json:"f"`
	G []int32 `json:"g,omitempty"`
}

//json:json
type TSlInt64 struct {
	F []int64 `json:"f"`
	G []int64 `json:"g,omitempty"`
}

//json:json
type TAr2Int struct {
	F [2]int `json:"f"`
	G [2]int `json:"g,omitempty"`
}

//json:json
type TAr2Int8 struct {
	F [2]int8 `json:"f"`
	G [2]int8 `json:"g,omitempty"`
}

//json:json
type TAr2Int16 struct {
	F [2]int16 `json:"f"`
	G [2]int16 `json:"g,omitempty"`
}

//json:json
type TAr2Int32 struct {
	F [2]int32 `json:"f"`
	G [2]int32 `json:"g,omitempty"`
}

//json:json
type TAr2Int64 struct {
	F [2]int64 `json:"f"`
	G [2]int64 `json:"g,omitempty"`
}
