package empt

//
//vh:aux
//json:strict
type ES struct{}

//
//vh:aux
//json:json
type EJ struct{}

//json:json
type TES struct {
	F ES `json:"f"`
	G ES `json:"g,omitempty"`
}

//json:json
type TPtrES struct {
	F *ES `json:"f"`
	G *ES `json:"g,omitempty"`
}

//json:json
type TSlES struct {
	F []ES `json:"f"`
	G []ES `json:"g,omitempty"`
}

//json:json
type TMapES struct {
	F map[string]ES `json:"f"`
	G map[string]ES `json:"g,omitempty"`
}

//json:json
type TEJ struct {
	F EJ `json:"f"`
	G EJ `json:"g,omitempty"`
}

//json:json
type TPtrEJ struct {
	F *EJ `json:"f"`
	G *EJ `json:"g,omitempty"`
}

//json:json
type TSlPtrEJ struct {
	F []*EJ `json:"f"`
	G []*EJ `json:"g,omitempty"`
}

//json:json
type TMapPtrEJ struct {
	F map[string]*EJ `json:"f"`
	G map[string]*EJ `json:"g,omitempty"`
}
