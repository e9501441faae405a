package wider

//json:strict
type W34 struct {
	F00 int    `json:"m00"`
	F01 bool   `json:"m01,omitempty"`
	F02 string `json:"m02"`
	F03 int    `json:"m03"`
	F04 bool   `json:"m04,omitempty"`
	F05 string `json:"m05"`
	F06 int    `json:"m06"`
	F07 bool   `json:"m07,omitempty"`
	F08 string `json:"m08"`
	F09 int    `json:"m09"`
	F10 bool   `json:"m10,omitempty"`
	F11 string `json:"m11"`
	F12 int    `json:"m12"`
	F13 bool   `json:"m13,omitempty"`
	F14 string `json:"m14"`
	F15 int    `json:"m15"`
	F16 bool   `json:"m16,omitempty"`
	F17 string `json:"m17"`
	F18 int    `json:"m18"`
	F19 bool   `json:"m19,omitempty"`
	F20 string `json:"m20"`
	F21 int    `json:"m21"`
	F22 bool   `json:"m22,omitempty"`
	F23 string `json:"m23"`
	F24 int    `json:"m24"`
	F25 bool   `json:"m25,omitempty"`
	F26 string `json:"m26"`
	F27 int    `json:"m27"`
	F28 bool   `json:"m28,omitempty"`
	F29 string `json:"m29"`
	F30 int    `json:"m30"`
	F31 bool   `json:"m31,omitempty"`
	F32 string `json:"m32"`
	F33 int    `json:"m33"`
}

//json:strict
type W66 struct {
	F00 int32   `json:"m00"`
	F01 *string `json:"m01,omitempty"`
	F02 bool    `json:"m02"`
	F03 int32   `json:"m03"`
	F04 *string `json:"m04,omitempty"`
	F05 bool    `json:"m05"`
	F06 int32   `json:"m06"`
	F07 *string `json:"m07,omitempty"`
	F08 bool    `json:"m08"`
	F09 int32   `json:"m09"`
	F10 *string `json:"m10,omitempty"`
	F11 bool    `json:"m11"`
	F12 int32   `json:"m12"`
	F13 *string `json:"m13,omitempty"`
	F14 bool    `json:"m14"`
	F15 int32   `json:"m15"`
	F16 *string `json:"m16,omitempty"`
	F17 bool    `json:"m17"`
	F18 int32   `json:"m18"`
	F19 *string `json:"m19,omitempty"`
	F20 bool    `json:"m20"`
	F21 int32   `json:"m21"`
	F22 *string `json:"m22,omitempty"`
	F23 bool    `json:"m23"`
	F24 int32   `json:"m24"`
	F25 *string `json:"m25,omitempty"`
	F26 bool    `json:"m26"`
	F27 int32   `json:"m27"`
	F28 *string `json:"m28,omitempty"`
	F29 bool    `json:"m29"`
	F30 int32   `json:"m30"`
	F31 *string `json:"m31,omitempty"`
	F32 bool    `json:"m32"`
	F33 int32   `json:"m33"`
	F34 *string `json:"m34,omitempty"`
	F35 bool    `json:"m35"`
	F36 int32   `json:"m36"`
	F37 *string `json:"m37,omitempty"`
	F38 bool    `json:"m38"`
	F39 int32   `json:"m39"`
	F40 *string `json:"m40,omitempty"`
	F41 bool    `json:"m41"`
	F42 int32   `json:"m42"`
	F43 *string `json:"m43,omitempty"`
	F44 bool    `json:"m44"`
	F45 int32   `json:"m45"`
	F46 *string `json:"m46,omitempty"`
	F47 bool    `json:"m47"`
	F48 int32   `json:"m48"`
	F49 *string `json:"m49,omitempty"`
	F50 bool    `json:"m50"`
	F51 int32   `json:"m51"`
	F52 *string `json:"m52,omitempty"`
	F53 bool    `json:"m53"`
	F54 int32   `json:"m54"`
	F55 *string `json:"m55,omitempty"`
	F56 bool    `json:"m56"`
	F57 int32   `json:"m57"`
	F58 *string `json:"m58,omitempty"`
	F59 bool    `json:"m59"`
	F60 int32   `json:"m60"`
	F61 *string `json:"m61,omitempty"`
	F62 bool    `json:"m62"`
	F63 int32   `json:"m63"`
	F64 *string `json:"m64,omitempty"`
	F65 bool    `json:"m65"`
}
