package emptop

//json:strict
type EmS struct{}

//json:json
type EmJ struct{}

//json:strict
type XEmS EmS

//json:json
type EmSl []EmS

//json:json
type EmMp map[string]EmS

//json:strict
type EmIn struct {
	A EmS   `json:"a"`
	B *EmJ  `json:"b,omitempty"`
	C []EmS `json:"c"`
}
