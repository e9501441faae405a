package imptn

import (
	"vjcorp/extn"
)

//json:json
type Q1 struct {
	extn.Mid `json:",inline"`
	Z        string `json:"z"`
}

//json:json
type Q2 struct {
	A        string `json:"a,omitempty"`
	extn.Top `json:",inline"`
}

//json:json
type Q3 struct {
	extn.Emb `json:",inline"`
	Z        int `json:"z,omitempty"`
}

//json:json
type Q4 struct {
	extn.Mem `json:",inline"`
	Z        int `json:"z,omitempty"`
}

//json:json
type Q5 struct {
	extn.Own `json:",inline"`
	Z        int `json:"z,omitempty"`
}

//json:json
type Q6 struct {
	Loc `json:",inline"`
	Z   int `json:"z,omitempty"`
}

type Loc struct {
	extn.Mid `json:",inline"`
	Y        int8 `json:"y"`
}

//json:json
type Q7 struct {
	Lw       extn.Low `json:"lw"`
	extn.Own `json:"own"`
	Loc      `json:",inline"`
}
