package moret

import (
	"github.com/google/uuid"
	"time"
	"vjcorp/ext"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NS string

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//
//vh:aux
//json:json
type Bs []byte

//
//vh:aux
//json:json
type Tm time.Time

//
//vh:aux
//json:json
type Uu uuid.UUID

type Un struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//
//vh:aux
//json:json
type WASlUn []St

//
//vh:as WASlUn
//json:json
type ASlUn []Un

//
//vh:aux
//json:json
type WBArUn [2]St

//
//vh:as WBArUn
//json:json
type BArUn [2]Un

//
//vh:aux
//json:json
type WCMapExt map[string]ext.Item

//
//vh:as WCMapExt
//json:json
type CMapExt map[ext.Code]ext.Item

//
//vh:aux
//json:json
type WDMapExt map[string]int

//
//vh:as WDMapExt
//json:json
type DMapExt map[ext.Code]int

//
//vh:aux
//json:json
type WFMapSt map[string]*St

//
//vh:as WFMapSt
//json:json
type FMapSt map[NS]*St

//
//vh:aux
//json:json
type WGList []string

//
//vh:as WGList
//json:json
type GList ext.List

//
//vh:aux
//json:json
type WHDict map[string]int

//
//vh:as WHDict
//json:json
type HDict ext.Dict

//
//vh:aux
//json:json
type WMBs []byte

//
//vh:as WMBs
//json:json
type MBs Bs

//
//vh:aux
//json:json
type WPSl []int

//
//vh:as WPSl
//json:json
type PSl Sl

//
//vh:aux
//json:json
type WQMp map[string]int

//
//vh:as WQMp
//json:json
type QMp Mp

//json:json
type EArSt [2]St

//json:json
type IRule ext.Rule

//json:json
type JAr4 [4]bool

//json:json
type KAr0 [0]int

//json:json
type LAr1 [1]string

//json:json
type NTm Tm

//json:json
type OUu Uu
