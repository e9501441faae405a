package gonames

import (
	"github.com/google/uuid"
	"time"
)

//
//vh:aux
//json:json
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

type NI int16

type NS string

type RefI *int32

//json:json
type VInt8 struct {
	Elem1 int8 `json:"elem1"`
	Key1  int8 `json:"key1,omitempty"`
	Val1  int8 `json:"val1"`
	Tmp1  int8 `json:"tmp1,omitempty"`
	Ref   int8 `json:"ref"`
	Value int8 `json:"value,omitempty"`
}

//json:json
type VSlInt struct {
	Elem1 []int `json:"elem1"`
	Key1  []int `json:"key1,omitempty"`
	Val1  []int `json:"val1"`
	Tmp1  []int `json:"tmp1,omitempty"`
	Ref   []int `json:"ref"`
	Value []int `json:"value,omitempty"`
}

//json:json
type VSlPtrString struct {
	Elem1 []*string `json:"elem1"`
	Key1  []*string `json:"key1,omitempty"`
	Val1  []*string `json:"val1"`
	Tmp1  []*string `json:"tmp1,omitempty"`
	Ref   []*string `json:"ref"`
	Value []*string `json:"value,omitempty"`
}

//json:json
type VAr2String struct {
	Elem1 [2]string `json:"elem1"`
	Key1  [2]string `json:"key1,omitempty"`
	Val1  [2]string `json:"val1"`
	Tmp1  [2]string `json:"tmp1,omitempty"`
	Ref   [2]string `json:"ref"`
	Value [2]string `json:"value,omitempty"`
}

//json:json
type VMapNI struct {
	Elem1 map[string]NI `json:"elem1"`
	Key1  map[string]NI `json:"key1,omitempty"`
	Val1  map[string]NI `json:"val1"`
	Tmp1  map[string]NI `json:"tmp1,omitempty"`
	Ref   map[string]NI `json:"ref"`
	Value map[string]NI `json:"value,omitempty"`
}

//json:json
type VSlSlInt struct {
	Elem1 [][]int `json:"elem1"`
	Key1  [][]int `json:"key1,omitempty"`
	Val1  [][]int `json:"val1"`
	Tmp1  [][]int `json:"tmp1,omitempty"`
	Ref   [][]int `json:"ref"`
	Value [][]int `json:"value,omitempty"`
}

//json:json
type VSlByte struct {
	Elem1 []byte `json:"elem1"`
	Key1  []byte `json:"key1,omitempty"`
	Val1  []byte `json:"val1"`
	Tmp1  []byte `json:"tmp1,omitempty"`
	Ref   []byte `json:"ref"`
	Value []byte `json:"value,omitempty"`
}

//json:json
type VTime struct {
	Elem1 time.Time `json:"elem1"`
	Key1  time.Time `json:"key1,omitempty"`
	Val1  time.Time `json:"val1"`
	Tmp1  time.Time `json:"tmp1,omitempty"`
	Ref   time.Time `json:"ref"`
	Value time.Time `json:"value,omitempty"`
}

//json:json
type VPtrUuid struct {
	Elem1 *uuid.UUID `json:"elem1"`
	Key1  *uuid.UUID `json:"key1,omitempty"`
	Val1  *uuid.UUID `json:"val1"`
	Tmp1  *uuid.UUID `json:"tmp1,omitempty"`
	Ref   *uuid.UUID `json:"ref"`
	Value *uuid.UUID `json:"value,omitempty"`
}

//json:json
type VPtrSt struct {
	Elem1 *St `json:"elem1"`
	Key1  *St `json:"key1,omitempty"`
	Val1  *St `json:"val1"`
	Tmp1  *St `json:"tmp1,omitempty"`
	Ref   *St `json:"ref"`
	Value *St `json:"value,omitempty"`
}

//json:json
type VSlSt struct {
	Elem1 []St `json:"elem1"`
	Key1  []St `json:"key1,omitempty"`
	Val1  []St `json:"val1"`
	Tmp1  []St `json:"tmp1,omitempty"`
	Ref   []St `json:"ref"`
	Value []St `json:"value,omitempty"`
}

//json:json
type VRefI struct {
	Elem1 RefI `json:"elem1"`
	Key1  RefI `json:"key1,omitempty"`
	Val1  RefI `json:"val1"`
	Tmp1  RefI `json:"tmp1,omitempty"`
	Ref   RefI `json:"ref"`
	Value RefI `json:"value,omitempty"`
}

//json:json
type VPtrRefI struct {
	Elem1 *RefI `json:"elem1"`
	Key1  *RefI `json:"key1,omitempty"`
	Val1  *RefI `json:"val1"`
	Tmp1  *RefI `json:"tmp1,omitempty"`
	Ref   *RefI `json:"ref"`
	Value *RefI `json:"value,omitempty"`
}

//json:json
type VPtrNS struct {
	Elem1 *NS `json:"elem1"`
	Key1  *NS `json:"key1,omitempty"`
	Val1  *NS `json:"val1"`
	Tmp1  *NS `json:"tmp1,omitempty"`
	Ref   *NS `json:"ref"`
	Value *NS `json:"value,omitempty"`
}

//json:json
type VMapNSt struct {
	Elem1 map[NS]St `json:"elem1"`
	Key1  map[NS]St `json:"key1,omitempty"`
	Val1  map[NS]St `json:"val1"`
	Tmp1  map[NS]St `json:"tmp1,omitempty"`
	Ref   map[NS]St `json:"ref"`
	Value map[NS]St `json:"value,omitempty"`
}

//json:json
type VPtrAr2Int struct {
	Elem1 *[2]int `json:"elem1"`
	Key1  *[2]int `json:"key1,omitempty"`
	Val1  *[2]int `json:"val1"`
	Tmp1  *[2]int `json:"tmp1,omitempty"`
	Ref   *[2]int `json:"ref"`
	Value *[2]int `json:"value,omitempty"`
}
