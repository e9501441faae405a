package wide

//json:strict
type W9 struct {
	F00 int    `json:"m00"`
	F01 string `json:"m01,omitempty"`
	F02 int    `json:"m02"`
	F03 string `json:"m03"`
	F04 int    `json:"m04,omitempty"`
	F05 string `json:"m05"`
	F06 int    `json:"m06"`
	F07 string `json:"m07,omitempty"`
	F08 int    `json:"m08"`
}

//json:strict
type W17 struct {
	F00 int16  `json:"m00"`
	F01 string `json:"m01,omitempty"`
	F02 *bool  `json:"m02"`
	F03 int16  `json:"m03"`
	F04 string `json:"m04,omitempty"`
	F05 *bool  `json:"m05"`
	F06 int16  `json:"m06"`
	F07 string `json:"m07,omitempty"`
	F08 *bool  `json:"m08"`
	F09 int16  `json:"m09"`
	F10 string `json:"m10,omitempty"`
	F11 *bool  `json:"m11"`
	F12 int16  `json:"m12"`
	F13 string `json:"m13,omitempty"`
	F14 *bool  `json:"m14"`
	F15 int16  `json:"m15"`
	F16 string `json:"m16,omitempty"`
}

//json:json
type W33 struct {
	F00 string `json:"m00"`
	F01 uint8  `json:"m01,omitempty"`
	F02 bool   `json:"m02"`
	F03 *int   `json:"m03"`
	F04 string `json:"m04,omitempty"`
	F05 uint8  `json:"m05"`
	F06 bool   `json:"m06"`
	F07 *int   `json:"m07,omitempty"`
	F08 string `json:"m08"`
	F09 uint8  `json:"m09"`
	F10 bool   `json:"m10,omitempty"`
	F11 *int   `json:"m11"`
	F12 string `json:"m12"`
	F13 uint8  `json:"m13,omitempty"`
	F14 bool   `json:"m14"`
	F15 *int   `json:"m15"`
	F16 string `json:"m16,omitempty"`
	F17 uint8  `json:"m17"`
	F18 bool   `json:"m18"`
	F19 *int   `json:"m19,omitempty"`
	F20 string `json:"m20"`
	F21 uint8  `json:"m21"`
	F22 bool   `json:"m22,omitempty"`
	F23 *int   `json:"m23"`
	F24 string `json:"m24"`
	F25 uint8  `json:"m25,omitempty"`
	F26 bool   `json:"m26"`
	F27 *int   `json:"m27"`
	F28 string `json:"m28,omitempty"`
	F29 uint8  `json:"m29"`
	F30 bool   `json:"m30"`
	F31 *int   `json:"m31,omitempty"`
	F32 string `json:"m32"`
}
