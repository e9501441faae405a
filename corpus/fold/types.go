package fold

//json:strict
type F1 struct {
	Wrap `json:",inline"`
}

//
//vh:aux
//json:strict
type Wrap struct {
	WRAP int `json:"wrap"`
}

//json:strict
type F2 struct {
	A      int `json:"A"`
	Inner2 `json:",inline"`
}

//
//vh:aux
//json:json
type Inner2 struct {
	INNER2  string `json:"inner2,omitempty"`
	Inner2x int    `json:"a"`
}

//json:strict
type F3 struct {
	Wrap   `json:"Wrap"`
	Inner2 `json:"wrap,omitempty"`
}
