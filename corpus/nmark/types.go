package nmark

type NS string

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type NSm string

//
//vh:aux
//json:json
type WNIm struct {
	F int16 `json:"f"`
	G int16 `json:"g,omitempty"`
}

//
//vh:as WNIm
//json:json
type TNIm struct {
	F NIm `json:"f"`
	G NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNIm struct {
	F *int16 `json:"f"`
	G *int16 `json:"g,omitempty"`
}

//
//vh:as WPtrNIm
//json:json
type TPtrNIm struct {
	F *NIm `json:"f"`
	G *NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNIm struct {
	F []int16 `json:"f"`
	G []int16 `json:"g,omitempty"`
}

//
//vh:as WSlNIm
//json:json
type TSlNIm struct {
	F []NIm `json:"f"`
	G []NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NIm struct {
	F [2]int16 `json:"f"`
	G [2]int16 `json:"g,omitempty"`
}

//
//vh:as WAr2NIm
//json:json
type TAr2NIm struct {
	F [2]NIm `json:"f"`
	G [2]NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNIm struct {
	F []*int16 `json:"f"`
	G []*int16 `json:"g,omitempty"`
}

//
//vh:as WSlPtrNIm
//json:json
type TSlPtrNIm struct {
	F []*NIm `json:"f"`
	G []*NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNIm struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WMapNIm
//json:json
type TMapNIm struct {
	F map[string]NIm `json:"f"`
	G map[string]NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNIm struct {
	F map[string]int16 `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WMapNNIm
//json:json
type TMapNNIm struct {
	F map[NS]NIm `json:"f"`
	G map[NS]NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNIm struct {
	F map[string]*int16 `json:"f"`
	G map[string]*int16 `json:"g,omitempty"`
}

//
//vh:as WMapPtrNIm
//json:json
type TMapPtrNIm struct {
	F map[string]*NIm `json:"f"`
	G map[string]*NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlNIm struct {
	F [][]int16 `json:"f"`
	G [][]int16 `json:"g,omitempty"`
}

//
//vh:as WSlSlNIm
//json:json
type TSlSlNIm struct {
	F [][]NIm `json:"f"`
	G [][]NIm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WNSm struct {
	F string `json:"f"`
	G string `json:"g,omitempty"`
}

//
//vh:as WNSm
//json:json
type TNSm struct {
	F NSm `json:"f"`
	G NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WPtrNSm struct {
	F *string `json:"f"`
	G *string `json:"g,omitempty"`
}

//
//vh:as WPtrNSm
//json:json
type TPtrNSm struct {
	F *NSm `json:"f"`
	G *NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlNSm struct {
	F []string `json:"f"`
	G []string `json:"g,omitempty"`
}

//
//vh:as WSlNSm
//json:json
type TSlNSm struct {
	F []NSm `json:"f"`
	G []NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WAr2NSm struct {
	F [2]string `json:"f"`
	G [2]string `json:"g,omitempty"`
}

//
//vh:as WAr2NSm
//json:json
type TAr2NSm struct {
	F [2]NSm `json:"f"`
	G [2]NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlPtrNSm struct {
	F []*string `json:"f"`
	G []*string `json:"g,omitempty"`
}

//
//vh:as WSlPtrNSm
//json:json
type TSlPtrNSm struct {
	F []*NSm `json:"f"`
	G []*NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNSm struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WMapNSm
//json:json
type TMapNSm struct {
	F map[string]NSm `json:"f"`
	G map[string]NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapNNSm struct {
	F map[string]string `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WMapNNSm
//json:json
type TMapNNSm struct {
	F map[NS]NSm `json:"f"`
	G map[NS]NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WMapPtrNSm struct {
	F map[string]*string `json:"f"`
	G map[string]*string `json:"g,omitempty"`
}

//
//vh:as WMapPtrNSm
//json:json
type TMapPtrNSm struct {
	F map[string]*NSm `json:"f"`
	G map[string]*NSm `json:"g,omitempty"`
}

//
//vh:aux
//json:json
type WSlSlNSm struct {
	F [][]string `json:"f"`
	G [][]string `json:"g,omitempty"`
}

//
//vh:as WSlSlNSm
//json:json
type TSlSlNSm struct {
	F [][]NSm `json:"f"`
	G [][]NSm `json:"g,omitempty"`
}
