package sfltmap

type NS string

//json:json
type TMapFloat32 struct {
	F map[string]float32 `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//json:json
type TMapFloat64 struct {
	F map[string]float64 `json:"f"`
	G map[string]float64 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNFloat32 struct {
	F map[string]float32 `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//
//vh:as WMapNFloat32
//json:json
type TMapNFloat32 struct {
	F map[NS]float32 `json:"f"`
	G map[NS]float32 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNFloat64 struct {
	F map[string]float64 `json:"f"`
	G map[string]float64 `json:"g,omitempty"`
}

//
//vh:as WMapNFloat64
//json:json
type TMapNFloat64 struct {
	F map[NS]float64 `json:"f"`
	G map[NS]float64 `json:"g,omitempty"`
}
