package raret

import (
	"github.com/google/uuid"
	"time"
	"vjcorp/ext"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

type NF float32

//
//vh:aux
//json:json
type NIm int16

//
//vh:aux
//json:json
type Sl []int

//
//vh:aux
//json:json
type Mp map[string]int

//
//vh:aux
//json:json
type Bs []byte

//
//vh:aux
//json:json
type Tr St

//
//vh:aux
//json:json
type Tm time.Time

//
//vh:aux
//json:json
type Uu uuid.UUID

//
//vh:aux
//json:strict
type ES struct{}

//
//vh:aux
//json:json
type HArr [2]int32

//
//vh:aux
//json:json
type HByt [4]byte

//
//vh:aux
//json:json
type Msl []St

//json:json
type TS0 [][2]int

//json:json
type TS1 [][2]uint8

//json:json
type TS2 [][2]int32

//json:json
type TS3 [][2]float32

//json:json
type TS4 [][2]bool

//json:json
type TS5 [][2]string

//json:json
type TS6 [][2]NI

//json:json
type TS7 [][2]NS

//json:json
type TS8 [][2]NIm

//json:json
type TS9 [][2]time.Time

//json:json
type TS10 [][2]Tm

//json:json
type TS11 [][2]Uu

//json:json
type TS12 [][2]Sl

//json:json
type TS13 [][2]Mp

//json:json
type TS14 [][2]Bs

//json:json
type TS15 [][2]HArr

//json:json
type TS16 [][2]HByt

//json:json
type TS17 [][2]Msl

//json:json
type TE0 map[ext.Code]bool

//json:json
type TE1 map[ext.Code]string

//json:json
type TE2 map[NS]NF

//json:json
type TE3 map[ext.Code]St

//json:json
type TE4 [2]ext.Item

//json:json
type TE5 [2]ext.Rule

//json:json
type TE6 map[ext.Code]ext.Rule

//json:json
type TE7 map[string]*ext.Item

//json:json
type TE8 map[string]*ext.List

//json:json
type TE9 map[NS]ext.Dict

//json:json
type TE10 map[string]*Tr

//json:json
type TE11 []ext.Level

//json:json
type TE12 []ES

//json:json
type TE13 [2]ES

//json:json
type TE14 map[NS]NIm

//json:json
type TE15 map[string]*ES
