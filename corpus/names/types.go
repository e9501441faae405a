package names

//json:json
type NPrefix struct {
	F0 int `json:"a"`
	F1 int `json:"ab"`
	F2 int `json:"abc"`
	F3 int `json:"A"`
	F4 int `json:"aB"`
}

//json:strict
type NPrefixS struct {
	F0 int `json:"a"`
	F1 int `json:"ab"`
	F2 int `json:"abc"`
	F3 int `json:"A"`
	F4 int `json:"aB"`
}

//json:json
type NUni struct {
	F0 int `json:"имя"`
	F1 int `json:"漢字"`
	F2 int `json:"é"`
	F3 int `json:"日本"`
}

//json:json
type NPunct struct {
	F0 int `json:"a b"`
	F1 int `json:"a.b"`
	F2 int `json:"$ref"`
	F3 int `json:"@type"`
	F4 int `json:"a/b"`
	F5 int `json:"a-b"`
	F6 int `json:"x:y"`
	F7 int `json:"{}"`
}

//json:json
type NHtml struct {
	F0 int `json:"<a>"`
	F1 int `json:"&amp;"`
	F2 int `json:"a=b"`
}

//json:json
type NPct struct {
	F0 int `json:"100%"`
	F1 int `json:"%s"`
	F2 int `json:"%d"`
}

//json:json
type NNum struct {
	F0 int `json:"1"`
	F1 int `json:"0"`
	F2 int `json:"-1"`
}

//json:json
type NLong struct {
	F0 int `json:"a_rather_long_member_name_that_goes_on_and_on_and_on_and_on"`
	F1 int `json:"n"`
}

//json:strict
type NStrOm struct {
	F0 string `json:"ключ,omitempty"`
	F1 string `json:"x y,omitempty"`
	F2 string `json:"z"`
}

//json:json
type NGo struct {
	F0  int `json:"default"`
	F1  int `json:"type"`
	F2  int `json:"func"`
	F3  int `json:"v"`
	F4  int `json:"s"`
	F5  int `json:"o"`
	F6  int `json:"err"`
	F7  int `json:"offset"`
	F8  int `json:"result"`
	F9  int `json:"val"`
	F10 int `json:"value"`
	F11 int `json:"list"`
	F12 int `json:"elem"`
}

//json:strict
type NGoStr struct {
	F0 *string `json:"default"`
	F1 *string `json:"type"`
	F2 *string `json:"v"`
	F3 *string `json:"s"`
	F4 *string `json:"err"`
	F5 *string `json:"nil"`
	F6 *string `json:"true"`
	F7 *string `json:"null"`
}
