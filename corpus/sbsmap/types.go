package sbsmap

type NS string

//json:json
type TMapBool struct {
	F map[string]bool `json:"f"`
	G map[string]bool `json:"g,omitempty"`
}

//json:json
type TMapString struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNBool struct {
	F map[string]bool `json:"f"`
	G map[string]bool `json:"g,omitempty"`
}

//
//vh:as WMapNBool
//json:json
type TMapNBool struct {
	F map[NS]bool `json:"f"`
	G map[NS]bool `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNString struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WMapNString
//json:json
type TMapNString struct {
	F map[NS]string `json:"f"`
	G map[NS]string `json:"g,omitempty"`
}
