package sintmap

type NS string

//json:json
type TMapInt struct {
	F map[string]int `json:"f"`
	G map[string]int `json:"g,omitempty"`
}

//json:json
type TMapInt8 struct {
	F map[string]int8 `json:"f"`
	G map[string]int8 `json:"g,omitempty"`
}

//json:json
type TMapInt16 struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//json:json
type TMapInt32 struct {
	F map[string]int32 `json:"f"`
	G map[string]int32 `json:"g,omitempty"`
}

//json:json
type TMapInt64 struct {
	F map[string]int64 `json:"f"`
	G map[string]int64 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNInt struct {
	F map[string]int `json:"f"`
	G map[string]int `json:"g,omitempty"`
}

//
//vh:as WMapNInt
//json:json
type TMapNInt struct {
	F map[NS]int `json:"f"`
	G map[NS]int `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNInt8 struct {
	F map[string]int8 `json:"f"`
	G map[string]int8 `json:"g,omitempty"`
}

//
//vh:as WMapNInt8
//json:json
type TMapNInt8 struct {
	F map[NS]int8 `json:"f"`
	G map[NS]int8 `json:"g,omitempty"`
}
