package suintmap

type NS string

//json:json
type TMapUint struct {
	F map[string]uint `json:"f"`
	G map[string]uint `json:"g,omitempty"`
}

//json:json
type TMapUint8 struct {
	F map[string]uint8 `json:"f"`
	G map[string]uint8 `json:"g,omitempty"`
}

//json:json
type TMapUint16 struct {
	F map[string]uint16 `json:"f"`
	G map[string]uint16 `json:"g,omitempty"`
}

//json:json
type TMapUint32 struct {
	F map[string]uint32 `json:"f"`
	G map[string]uint32 `json:"g,omitempty"`
}

//json:json
type TMapUint64 struct {
	F map[string]uint64 `json:"f"`
	G map[string]uint64 `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNUint struct {
	F map[string]uint `json:"f"`
	G map[string]uint `json:"g,omitempty"`
}

//
//vh:as WMapNUint
//json:json
type TMapNUint struct {
	F map[NS]uint `json:"f"`
	G map[NS]uint `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNUint8 struct {
	F map[string]uint8 `json:"f"`
	G map[string]uint8 `json:"g,omitempty"`
}

//
//vh:as WMapNUint8
//json:json
type TMapNUint8 struct {
	F map[NS]uint8 `json:"f"`
	G map[NS]uint8 `json:"g,omitempty"`
}
