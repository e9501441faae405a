package layouts

import (
	"time"
)

//json:json
type L1 struct {
	A time.Time  `json:"a" layout:"2006-01-02"`
	B time.Time  `json:"b,omitempty" layout:"02.01.2006 15:04:05"`
	C *time.Time `json:"c" layout:"2006/01/02 15:04"`
	D *time.Time `json:"d,omitempty" layout:"Mon, 02 Jan 2006 15:04:05 MST"`
}

//json:json
type L2 struct {
	A time.Time `json:"a" layout:"2006-01-02T15:04:05.000Z07:00"`
	B time.Time `json:"b" layout:"20060102150405"`
	C time.Time `json:"c" layout:"2006.01.02"`
}

//json:json
type L3 struct {
	A []time.Time  `json:"a" layout:"2006-01-02"`
	B [2]time.Time `json:"b,omitempty" layout:"2006-01-02"`
}

//json:strict
type L4 struct {
	A time.Time  `json:"a,required" layout:"2006-01-02 15:04:05"`
	B *time.Time `json:"b,omitempty" layout:"2006-01-02 15:04:05.000000"`
}

//json:json
type L5 struct {
	A time.Time `json:"a" layout:"time.RFC3339"`
	B time.Time `json:"b,omitempty" layout:"time.RFC822"`
}

//json:json
type L6 struct {
	A time.Time `json:"a" layout:"January 2, 2006 at 3:04:05PM"`
	B time.Time `json:"b" layout:"02-Jan-06"`
}
