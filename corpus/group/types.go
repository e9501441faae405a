package group

type (
	// GA has a comment first
	//json:json
	GA struct {
		X int  `json:"x"`
		Y []GB `json:"y,omitempty"`
		Z GM   `json:"z"`
	}
	//json:strict
	GB struct {
		V string `json:"v,required"`
	}
	//json:json
	GM map[GK]GB
	GK string
	//json:json
	GL []GB

	//json:json
	// trailing comment
	GT GA
)
