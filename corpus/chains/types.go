package chains

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//
//vh:aux
//json:json
type C1I int16

//
//vh:as C1I
//json:json
type C2I C1I

//
//vh:as C1I
//json:json
type C3I C2I

//
//vh:aux
//json:json
type WEI struct {
	F []int16          `json:"f"`
	G map[string]int16 `json:"g,omitempty"`
}

//
//vh:as WEI
//json:json
type EI struct {
	F []C3I          `json:"f"`
	G map[string]C2I `json:"g,omitempty"`
}

//json:json
type PLI []C2I

//json:json
type PMI map[string]C2I

//
//vh:aux
//json:json
type C1S string

//
//vh:as C1S
//json:json
type C2S C1S

//
//vh:as C1S
//json:json
type C3S C2S

//
//vh:aux
//json:json
type WES struct {
	F []string          `json:"f"`
	G map[string]string `json:"g,omitempty"`
}

//
//vh:as WES
//json:json
type ES struct {
	F []C3S          `json:"f"`
	G map[string]C2S `json:"g,omitempty"`
}

//json:json
type PLS []C2S

//json:json
type PMS map[string]C2S

//
//vh:aux
//json:json
type C1B bool

//
//vh:as C1B
//json:json
type C2B C1B

//
//vh:as C1B
//json:json
type C3B C2B

//
//vh:aux
//json:json
type WEB struct {
	F []bool          `json:"f"`
	G map[string]bool `json:"g,omitempty"`
}

//
//vh:as WEB
//json:json
type EB struct {
	F []C3B          `json:"f"`
	G map[string]C2B `json:"g,omitempty"`
}

//json:json
type PLB []C2B

//json:json
type PMB map[string]C2B

//
//vh:aux
//json:json
type C1F float32

//
//vh:as C1F
//json:json
type C2F C1F

//
//vh:as C1F
//json:json
type C3F C2F

//
//vh:aux
//json:json
type WEF struct {
	F []float32          `json:"f"`
	G map[string]float32 `json:"g,omitempty"`
}

//
//vh:as WEF
//json:json
type EF struct {
	F []C3F          `json:"f"`
	G map[string]C2F `json:"g,omitempty"`
}

//json:json
type PLF []C2F

//json:json
type PMF map[string]C2F

//
//vh:aux
//json:json
type C1U uint64

//
//vh:as C1U
//json:json
type C2U C1U

//
//vh:as C1U
//json:json
type C3U C2U

//
//vh:aux
//json:json
type WEU struct {
	F []uint64          `json:"f"`
	G map[string]uint64 `json:"g,omitempty"`
}

//
//vh:as WEU
//json:json
type EU struct {
	F []C3U          `json:"f"`
	G map[string]C2U `json:"g,omitempty"`
}

//json:json
type PLU []C2U

//json:json
type PMU map[string]C2U

//
//vh:aux
//json:json
type C1L []int

//
//vh:as C1L
//json:json
type C2L C1L

//
//vh:as C1L
//json:json
type C3L C2L

//json:json
type PLL []C2L

//json:json
type PML map[string]C2L

//
//vh:aux
//json:json
type C1M map[string]int

//
//vh:as C1M
//json:json
type C2M C1M

//
//vh:as C1M
//json:json
type C3M C2M

//json:json
type PLM []C2M

//json:json
type PMM map[string]C2M

//
//vh:aux
//json:json
type C1Y []byte

//
//vh:as C1Y
//json:json
type C2Y C1Y

//
//vh:as C1Y
//json:json
type C3Y C2Y

//json:json
type EY struct {
	F []C3Y          `json:"f"`
	G map[string]C2Y `json:"g,omitempty"`
}

//json:json
type PLY []C2Y

//json:json
type PMY map[string]C2Y

//
//vh:aux
//json:json
type C1A [2]int32

//
//vh:as C1A
//json:json
type C2A C1A

//
//vh:as C1A
//json:json
type C3A C2A

//json:json
type EA struct {
	F []C3A          `json:"f"`
	G map[string]C2A `json:"g,omitempty"`
}

//json:json
type PLA []C2A

//json:json
type PMA map[string]C2A

//
//vh:aux
//json:json
type C1T time.Time

//
//vh:as C1T
//json:json
type C2T C1T

//
//vh:as C1T
//json:json
type C3T C2T

//json:json
type ET struct {
	F []C3T          `json:"f"`
	G map[string]C2T `json:"g,omitempty"`
}

//json:json
type PLT []C2T

//json:json
type PMT map[string]C2T

//
//vh:aux
//json:json
type C1D uuid.UUID

//
//vh:as C1D
//json:json
type C2D C1D

//
//vh:as C1D
//json:json
type C3D C2D

//json:json
type ED struct {
	F []C3D          `json:"f"`
	G map[string]C2D `json:"g,omitempty"`
}

//json:json
type PLD []C2D

//json:json
type PMD map[string]C2D

//
//vh:aux
//json:json
type C1LS []St

//
//vh:as C1LS
//json:json
type C2LS C1LS

//
//vh:as C1LS
//json:json
type C3LS C2LS

//
//vh:aux
//json:json
type C1MS map[string]*St

//
//vh:as C1MS
//json:json
type C2MS C1MS

//
//vh:as C1MS
//json:json
type C3MS C2MS

//
//vh:aux
//json:json
type C1St St

//
//vh:as C1St
//json:json
type C2St C1St

//
//vh:as C1St
//json:json
type C3St C2St

//
//vh:aux
//json:json
type WESt struct {
	F []St          `json:"f"`
	G map[string]St `json:"g,omitempty"`
}

//
//vh:as WESt
//json:json
type ESt struct {
	F []C3St          `json:"f"`
	G map[string]C2St `json:"g,omitempty"`
}

//json:json
type PLSt []C2St

//json:json
type PMSt map[string]C2St
