package reqs

type NI int16

type NS string

type NB bool

type NF float32

type NU uint64

//json:json
type QInt struct {
	F int            `json:"f,required"`
	G *int           `json:"g,required"`
	H []int          `json:"h,required"`
	I map[string]int `json:"i,required"`
}

//json:json
type QInt8 struct {
	F int8            `json:"f,required"`
	G *int8           `json:"g,required"`
	H []int8          `json:"h,required"`
	I map[string]int8 `json:"i,required"`
}

//json:json
type QInt16 struct {
	F int16            `json:"f,required"`
	G *int16           `json:"g,required"`
	H []int16          `json:"h,required"`
	I map[string]int16 `json:"i,required"`
}

//json:json
type QInt32 struct {
	F int32            `json:"f,required"`
	G *int32           `json:"g,required"`
	H []int32          `json:"h,required"`
	I map[string]int32 `json:"i,required"`
}

//json:json
type QInt64 struct {
	F int64            `json:"f,required"`
	G *int64           `json:"g,required"`
	H []int64          `json:"h,required"`
	I map[string]int64 `json:"i,required"`
}

//json:json
type QUint struct {
	F uint            `json:"f,required"`
	G *uint           `json:"g,required"`
	H []uint          `json:"h,required"`
	I map[string]uint `json:"i,required"`
}

//json:json
type QUint8 struct {
	F uint8            `json:"f,required"`
	G *uint8           `json:"g,required"`
	H []uint8          `json:"h,required"`
	I map[string]uint8 `json:"i,required"`
}

//json:json
type QUint16 struct {
	F uint16            `json:"f,required"`
	G *uint16           `json:"g,required"`
	H []uint16          `json:"h,required"`
	I map[string]uint16 `json:"i,required"`
}

//json:json
type QUint32 struct {
	F uint32            `json:"f,required"`
	G *uint32           `json:"g,required"`
	H []uint32          `json:"h,required"`
	I map[string]uint32 `json:"i,required"`
}

//json:json
type QUint64 struct {
	F uint64            `json:"f,required"`
	G *uint64           `json:"g,required"`
	H []uint64          `json:"h,required"`
	I map[string]uint64 `json:"i,required"`
}

//json:json
type QFloat32 struct {
	F float32            `json:"f,required"`
	G *float32           `json:"g,required"`
	H []float32          `json:"h,required"`
	I map[string]float32 `json:"i,required"`
}

//json:json
type QFloat64 struct {
	F float64            `json:"f,required"`
	G *float64           `json:"g,required"`
	H []float64          `json:"h,required"`
	I map[string]float64 `json:"i,required"`
}

//json:json
type QBool struct {
	F bool            `json:"f,required"`
	G *bool           `json:"g,required"`
	H []bool          `json:"h,required"`
	I map[string]bool `json:"i,required"`
}

//json:json
type QString struct {
	F string            `json:"f,required"`
	G *string           `json:"g,required"`
	H []string          `json:"h,required"`
	I map[string]string `json:"i,required"`
}

//json:json
type QNI struct {
	F NI            `json:"f,required"`
	G *NI           `json:"g,required"`
	H []NI          `json:"h,required"`
	I map[string]NI `json:"i,required"`
}

//json:json
type QNS struct {
	F NS            `json:"f,required"`
	G *NS           `json:"g,required"`
	H []NS          `json:"h,required"`
	I map[string]NS `json:"i,required"`
}

//json:json
type QNB struct {
	F NB            `json:"f,required"`
	G *NB           `json:"g,required"`
	H []NB          `json:"h,required"`
	I map[string]NB `json:"i,required"`
}

//json:json
type QNF struct {
	F NF            `json:"f,required"`
	G *NF           `json:"g,required"`
	H []NF          `json:"h,required"`
	I map[string]NF `json:"i,required"`
}

//json:json
type QNU struct {
	F NU            `json:"f,required"`
	G *NU           `json:"g,required"`
	H []NU          `json:"h,required"`
	I map[string]NU `json:"i,required"`
}
